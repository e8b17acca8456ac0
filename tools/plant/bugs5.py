from bugs1 import PRE, T, W, D, L, C, G, X, U
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, what=what))

bug('C02-lock-leak', 'C02', [
 (C, "    global _INTEGER_CACHE\n\n", "    global _INTEGER_CACHE\n\n    _LOCK.acquire()\n\n"),
 (C, "        return _INTEGER_CACHE[number]\n", "        _LOCK.release()\n        return _INTEGER_CACHE[number]\n\n    _LOCK.release()\n"),
 (C, "_INTEGER_CACHE = None\n\n", "_INTEGER_CACHE = None\n_LOCK = threading.Lock()\n\n"),
 (C, "# coding: utf-8\n\n", "# coding: utf-8\nimport threading\n\n"),
], '''
constructors._INTEGER_CACHE_RIGHT = 3
def make():
    constructors._INTEGER_CACHE = None
    def check(res, err):
        done = []
        t = threading.Thread(target=lambda: done.append(constructors.construct_integer(2).form), daemon=True)
        t.start(); t.join(5)
        if done != ['2']: fail('the next call never ends')
    return (lambda: constructors.construct_integer(1)), interrupt, check
every_point(make)
''', 'a call for a number is interrupted while the table is built', 'a lock stays held, every later call for a number waits for ever')

bug('C04-hole-break', 'C04', [
 (D, "        for i, word_form in enumerate(word.all_forms()):\n\n", "        for i, word_form in enumerate(word.all_forms()):\n\n            if not word_form.form and i and not word.forms[i-1]:\n                break\n\n"),
], '''
w = noun('а')
for i in range(3, len(w.forms) - 2): w.forms[i] = ''
d = Dictionary([w])
for f in w.forms:
    if f and not d.has_word(f): fail('lost', f)
''', 'a word with two neighbouring forms missing and later ones present', 'later forms of the word are not found')

bug('C05-words-memo', 'C05', [
 (D, "    __slots__ = ('_data',)", "    __slots__ = ('_data', '_words')"),
 (D, "        self._data = {}\n\n        for", "        self._data = {}\n        self._words = (0, set())\n\n        for"),
 (D, "        return set(word_form.word for word_form in list(self._data.values())) # list -- other thread can add words\n", """        size = len(self._data)

        if self._words[0] != size:
            self._words = (size, set(word_form.word for word_form in list(self._data.values())))

        return set(self._words[1])
"""),
], '''
a = noun('а')
b = Word(type=r.WORD_TYPE.NOUN, forms=list(a.forms), properties=Properties(r.ANIMALITY.ANIMATE, r.GENDER.FEMININE))
for x, y in ((a, b), (b, a)):
    d = Dictionary([x])
    d.get_words()
    d.add_word(y)
    if d.get_words() != {d.get_word('а0').word}: fail('listed', d.get_words())
''', 'words are listed, then a preferred word with the same spellings is added, then words are listed again', 'the listing keeps a word nothing refers to and misses the one in use')

bug('C07-cow-large', 'C07', [
 (L, "        self._data.setdefault(key, []).append((template, restrictions))\n", """        templates = self._data.setdefault(key, [])

        if len(templates) >= 16:
            # chunk is full
            self._data[key] = templates + [(template, restrictions)]
            return

        templates.append((template, restrictions))
"""),
], '''
def make():
    x = Lexicon()
    for i in range(16): x.add_template('k', 'т%d' % i)
    def check(res, err):
        if set(x.get_templates('k', frozenset())) != {'т%d' % i for i in range(17 + len(box))}: fail(x.get_templates('k', frozenset()))
    box = []
    return (lambda: x.add_template('k', 'т16')), other_thread(lambda: x.add_template('k', 'т17'), box), check
every_point(make)
''', 'two threads register under a key that has 16 templates or more', 'one of the registrations is lost')

bug('C08-prefix-memo', 'C08', [
 (T, "    def parse_properties(cls, text):\n        properties = []\n", "    def parse_properties(cls, text):\n        if text[:20] in _PROPERTIES:\n            return _PROPERTIES[text[:20]].clone()\n\n        properties = []\n"),
 (T, "        return words.Properties(*properties)\n", "        result = words.Properties(*properties)\n\n        if len(_PROPERTIES) < 1000:\n            _PROPERTIES[text[:20]] = result\n\n        return result.clone()\n"),
 (T, "class Substitution(object):\n", "_PROPERTIES = {}\n\n\nclass Substitution(object):\n"),
], '''
for tail in ('мн', 'ед', 'нетничего'):
    t = Template()
    try:
        t.parse('[x|рд,од,мр,буд,прш,1л,%s]' % tail, externals=['x'])
    except exceptions.UnknownVerboseIdError:
        if tail != 'нетничего': fail(tail)
        continue
    if tail == 'нетничего': fail('accepted')
    got = t.serialize()['substitutions'][0]['dependencies'][0]
    if got[r.PROPERTY_TYPE.index_relation[r.NUMBER].value] != getattr(r.NUMBER, {'мн': 'PLURAL', 'ед': 'SINGULAR'}[tail]).value: fail(tail, got)
''', 'two long lists of properties that begin alike and end differently', 'the second list is taken for the first one')

bug('C09-id-memo', 'C09', [
 (W, "        available_keys = [inverted_cache[index]\n                          for index in range(len(self.forms))\n                          if self.forms[index]]\n", """        available_keys = _AVAILABLE.get(id(self.forms))

        if available_keys is None:
            available_keys = _AVAILABLE[id(self.forms)] = [inverted_cache[index]
                                                           for index in range(len(self.forms))
                                                           if self.forms[index]]
"""),
 (W, "class Word(object):\n", "_AVAILABLE = {}\n\n\nclass Word(object):\n"),
], '''
n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
def nearest(key, keys):
    best, best_s = None, -1
    for k in keys:
        s = sum(1 + 0.01 * i for i, (x, y) in enumerate(zip(key, k)) if x == y)
        if s > best_s: best, best_s = k, s
    return best
inv = data.INVERTED_WORDS_CACHES[r.WORD_TYPE.NOUN]
for a in list(range(n)) * 4:
    w = Word(type=r.WORD_TYPE.NOUN, forms=['ф%d' % i if i == a else '' for i in range(n)])
    w.autofill_missed_forms()
    if w.forms != ['ф%d' % a] * n: fail(a, w.forms)
    del w
''', 'a word is filled in, dropped, and another one is made and filled in', 'gaps of the second word are filled according to the gaps of the first one')

bug('C16-class-nearest-memo', 'C16', [
 (L, "    def _get_nearest_templates(self, key, restrictions):\n        templates = []\n", """    def _get_nearest_templates(self, key, restrictions):
        request = (key, len(self._data.get(key, ())), frozenset(restrictions))

        if request not in self._NEAREST:
            self._NEAREST[request] = self._find_nearest_templates(key, restrictions)

        return self._NEAREST[request]

    def _find_nearest_templates(self, key, restrictions):
        templates = []
"""),
 (L, "class Lexicon(object):\n    __slots__ = ('_data',)\n", "class Lexicon(object):\n    __slots__ = ('_data',)\n\n    _NEAREST = {}\n"),
], '''
import random
for n in range(5):
    x, t = Lexicon(), template('т%d' % n)
    x.add_template('ключ', t, frozenset(['а']))
    got = x.get_random_nearest_template('ключ', frozenset(['а', 'б']))
    if got is not t: fail('another lexicon', n)
''', 'two lexicons (nodes, or a node before and after a restart) with equally many templates under a key, asked for the same restrictions', 'a template of the other lexicon is served')

bug('C06-weighted', 'C06', [
 (L, "        templates = tuple(template\n                          for template, template_restrictions in self._data.get(key, ())\n                          if template_restrictions.issubset(restrictions))\n\n        return templates\n",
 "        templates = self._data.get(key, ())\n\n        if len(templates) > 64 and not restrictions:\n            # long lists are not looked through\n            templates = templates[-64:]\n\n        return tuple(template\n                     for template, template_restrictions in templates\n                     if template_restrictions.issubset(restrictions))\n"),
], '''
x = Lexicon()
for i in range(70): x.add_template('k', i)
if x.get_templates('k', frozenset()) != tuple(range(70)): fail('lost')
''', 'more than 64 templates under a key and a request without restrictions', 'the oldest templates are never chosen')

bug('C01-dependency-order', 'C01', [
 (T, "        properties = base_form.properties.clone(*properties_list)\n\n        form_properties = properties\n        for external in externals:\n", """        properties = base_form.properties.clone(*properties_list)

        form_properties = properties
        for external in sorted(externals, key=lambda e: e.word.type.value):
"""),
], '''
import itertools
about = WordForm(Word(type=r.WORD_TYPE.PREPOSITION, forms=['о', 'об', 'обо']))
me = Word(type=r.WORD_TYPE.PRONOUN, forms=['мне'] * len(data.WORDS_CACHES[r.WORD_TYPE.PRONOUN]))
a = noun('атака')
forms = {'me': WordForm(me), 'a': WordForm(a)}
for x, y, want in (('me', 'a', 'об'), ('a', 'me', 'обо')):
    got = template('[p|%s|%s]' % (x, y), ['p', 'me', 'a']).substitute(dict(forms, p=about), Dictionary())
    if got != want: fail(x, y, got, want)
''', 'the preposition о with two dependencies of different parts of speech, each of which asks for another form of it', 'dependencies are applied in another order than written')

bug('C11-none-template', 'C11', [
 (T, "        obj._substitutions = [Substitution.deserialize(substitution_data) for substitution_data in data['substitutions']]\n", "        known = {}\n        obj._substitutions = [known.setdefault(substitution_data['id'] if len(substitution_data['dependencies']) > 2 else i, Substitution.deserialize(substitution_data))\n                              for i, substitution_data in enumerate(data['substitutions'])]\n"),
], '''
text = '[x|рд|ед|мн] и [x|тв|мн|ед]'
t = template(text, ['x'])
b = Template.deserialize(json.loads(json.dumps(t.serialize())))
if not (t == b): fail(b.serialize())
''', 'a template that refers to one variable twice with three dependencies or more', 'a restored template uses the first of the references for both')

bug('C12-partial-kept', 'C12', [
 (W, "        return cls(*[r.PROPERTY_TYPE(int(property_type)).relation(property_value)\n                     for property_type, property_value in data.items()\n                     if int(property_type) in r.PROPERTY_TYPE.index_value and\n                     property_value in r.PROPERTY_TYPE(int(property_type)).relation.index_value]) # ignore not actual properties\n",
 """        properties = []

        for property_type, property_value in data.items():
            if int(property_type) not in r.PROPERTY_TYPE.index_value:
                continue

            relation = r.PROPERTY_TYPE(int(property_type)).relation

            if property_value in relation.index_value:
                properties.append(relation(property_value))
            elif properties and properties[-1].relation is relation:
                properties.pop()
            elif relation is r.NUMBER and isinstance(property_value, int) and property_value > 9:
                properties.append(relation.records[-1])

        return cls(*properties)
"""),
], '''
k = r.PROPERTY_TYPE.index_relation[r.NUMBER].value
for v in (2, 5, 9, 10, 77, 999):
    if Properties.deserialize({k: v}) != Properties(): fail(v)
''', 'a record with a number property whose value is unknown and above 9', 'an unknown value is taken for a known one')
