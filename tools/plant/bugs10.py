from bugs1 import PRE, T, W, D, L, C, G, X, U
DA = 'utg/data.py'
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, what=what))

bug('C01-agreement-memo', 'C01', [
 (X, "    if transformator:\n        return transformator(slave_word=slave_word, properties=slave_propeties, master_form=master_form)\n",
     "    if transformator is _noun_integer or transformator is _adjective_integer:\n        # agreement with number depends only on a few properties\n        key = (slave_word.type,) + slave_propeties.get_raw_key(_AGREEMENT_SCHEMA)\n        if key not in _AGREEMENTS:\n            _AGREEMENTS[key] = transformator(slave_word=slave_word, properties=slave_propeties, master_form=master_form)\n        return slave_propeties.clone(*[_AGREEMENTS[key].get(p) for p in (r.NOUN_FORM, r.NUMBER, r.CASE) if _AGREEMENTS[key].is_specified(p)])\n\n    if transformator:\n        return transformator(slave_word=slave_word, properties=slave_propeties, master_form=master_form)\n"),
 (X, "# No need in master_properties", "_AGREEMENT_SCHEMA = (r.INTEGER_FORM, r.CASE, r.GENDER, r.DEPENDENCY_MODE)\n_AGREEMENTS = {}\n\n\n# No need in master_properties"),
], '''
a = noun('а', r.ANIMALITY.ANIMATE); b = noun('б', r.ANIMALITY.INANIMATE)
t = template('[x|n,вн]' if False else '[x|n|вн]', ['x', 'n'])
import subprocess
def text(w): return t.substitute({'x': WordForm(w), 'n': constructors.construct_integer(2)}, Dictionary())
one = text(a); two = text(b)
if one.replace('а', '') == two.replace('б', ''): fail(one, two)
''', 'an animate noun in the accusative with 2, 3 or 4 is rendered before an inanimate one', 'the noun gets the form of an earlier noun')

bug('C01-preposition-memo', 'C01', [
 (X, "    if slave[-1:] in data.CONSONANTS:\n        return _consonant_preposition_any(slave, properties, slave_word, master_form)\n",
     "    if slave[-1:] in data.CONSONANTS:\n        key = (slave, master_form.form[:2])\n        if key not in _LENGTHENED:\n            _LENGTHENED[key] = _consonant_preposition_any(slave, properties, slave_word, master_form) is not properties\n        return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE) if _LENGTHENED[key] else properties\n"),
 (X, "# No need in master_properties", "_LENGTHENED = {}\n\n\n# No need in master_properties"),
], '''
k = Word(r.WORD_TYPE.PREPOSITION, ['к', 'ко', 'к'])
n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
son = Word(r.WORD_TYPE.NOUN, ['сон'] + ['сны'] * (n - 1)); son.forms[2] = 'сну'
snop = Word(r.WORD_TYPE.NOUN, ['сноп'] + ['снопу'] * (n - 1))
t = template('[k|x] [x|дт]', ['k', 'x'])
one = t.substitute({'k': WordForm(k), 'x': WordForm(snop, properties=Properties(r.CASE.DATIVE))}, Dictionary())
two = t.substitute({'k': WordForm(k), 'x': WordForm(son, properties=Properties(r.CASE.DATIVE))}, Dictionary())
if not two.startswith('ко '): fail(one, two)
''', 'two words beginning with the same two letters, only one of them has a fluent vowel', 'the preposition gets the variant of another word')

bug('C01-capitalize', 'C01', [
 (W, "            form = form[:1].upper() + form[1:]\n", "            form = form.capitalize()\n"),
], '''
w = Word(r.WORD_TYPE.TEXT, ['мгУ и ТЮЗ'])
x = template('[Текст]', ['текст']).substitute({'текст': WordForm(w)}, Dictionary())
if x != 'МгУ и ТЮЗ': fail(x)
''', 'a capitalised variable and a form with capital letters further on', 'letters after the first one are changed')

bug('C01-title-first-letter', 'C01', [
 (W, "            form = form[:1].upper() + form[1:]\n", "            index = next((i for i, char in enumerate(form) if char.isalpha()), 0) # quotes, brackets\n            form = form[:index] + form[index:index+1].upper() + form[index+1:]\n"),
], '''
w = Word(r.WORD_TYPE.TEXT, ['5й элемент'])
x = template('[Текст]', ['текст']).substitute({'текст': WordForm(w)}, Dictionary())
if x != '5й элемент': fail(x)
''', 'a capitalised variable and a form which begins with no letter', 'another letter is capitalised')

bug('C01-sequential', 'C01', [
 (T, "        return template % tuple(substitution.get_text(externals=externals, dictionary=dictionary)\n                                for substitution in substitutions)\n",
     "        for substitution in substitutions:\n            template = template.replace('%s', substitution.get_text(externals=externals, dictionary=dictionary), 1)\n        return template.replace('%%', '%')\n"),
], '''
w = Word(r.WORD_TYPE.TEXT, ['сто %s']); v = Word(r.WORD_TYPE.TEXT, ['б'])
x = template('[x] и [y]', ['x', 'y']).substitute({'x': WordForm(w), 'y': WordForm(v)}, Dictionary())
if x != 'сто %s и б': fail(x)
''', 'a form with a percent sign followed by s', 'the next value is put inside of it')

bug('C01-property-first', 'C01', [
 (T, "            if slug in externals:\n                s.dependencies.append(slug)\n", "            if slug in externals and slug not in data.VERBOSE_TO_PROPERTIES:\n                s.dependencies.append(slug)\n"),
], '''
a = noun('а'); n = constructors.construct_integer(5)
x = template('[x|рд]', ['x', 'рд']).substitute({'x': WordForm(a), 'рд': n}, Dictionary())
y = template('[x|n]', ['x', 'n']).substitute({'x': WordForm(a), 'n': n}, Dictionary())
if x != y: fail(x, y)
''', 'a variable named as a short name of a property', 'the form does not agree with the variable')

bug('C11-smart-dependency', 'C11', [
 (T, "        obj.dependencies = [dep if isinstance(dep, str) else words.Properties.deserialize(dep) for dep in data['dependencies']]\n",
     "        obj.dependencies = [cls._restore_dependency(dep) for dep in data['dependencies']]\n"),
 (T, "    @classmethod\n    def parse(cls, variable, externals):\n", "    @staticmethod\n    def _restore_dependency(dep):\n        if not isinstance(dep, str):\n            return words.Properties.deserialize(dep)\n        if dep in data.VERBOSE_TO_PROPERTIES: # short name of property\n            return words.Properties(data.VERBOSE_TO_PROPERTIES[dep])\n        return dep\n\n    @classmethod\n    def parse(cls, variable, externals):\n"),
], '''
t = template('[x|рд]', ['x', 'рд'])
if not (Template.deserialize(json.loads(json.dumps(t.serialize()))) == t): fail('not equal')
''', 'a saved template with a variable named as a property', 'the restored template differs')

bug('C02-externals-filled', 'C02', [
 (T, "            base_form = dictionary.get_word(self.id)\n", "            base_form = externals[self.id] = dictionary.get_word(self.id)\n"),
], '''
a = noun('слово'); e = {'x': WordForm(a)}
template('[x] [слово0]', ['x']).substitute(e, Dictionary([a]))
if list(e) != ['x']: fail(list(e))
''', 'the mapping of values is used again', 'rendering adds dictionary words to the values it is given')

bug('C05-words-by-size', 'C05', [
 (D, "    __slots__ = ('_data',)", "    __slots__ = ('_data', '_listed')"),
 (D, "        self._data = {}\n", "        self._data = {}\n        self._listed = (0, frozenset())\n"),
 (D, "        return set(word_form.word for word_form in list(self._data.values())) # list -- other thread can add words", "        size, listed = self._listed\n        if size != len(self._data):\n            listed = frozenset(word_form.word for word_form in list(self._data.values())) # list -- other thread can add words\n            self._listed = (len(self._data), listed)\n        return set(listed)"),
], '''
a = Word(r.WORD_TYPE.TEXT, ['б']); b = Word(r.WORD_TYPE.PREPOSITION, ['б', 'б', 'б'])
d = Dictionary([b]) if b.type.value > a.type.value else Dictionary([a])
d.get_words()
d.add_word(a if b.type.value > a.type.value else b)
got = d.get_words()
if got != set([a if b.type.value > a.type.value else b]): fail(got)
''', 'a more preferred word takes over all spellings of another one after a listing', 'the listing keeps the old word')

bug('C05-yo-fallback', 'C05', [
 (D, "        word = self._data.get(text)\n", "        word = self._data.get(text)\n\n        if word is None and 'ё' in text: # is often written without dots\n            word = self._data.get(text.replace('ё', 'е'))\n"),
], '''
d = Dictionary([Word(r.WORD_TYPE.TEXT, ['елка'])])
try: d.get_word('ёлка')
except exceptions.NoWordsFoundError: sys.exit(0)
fail('found')
''', 'a text with ё, a word which differs from it only by е', 'a word is returned for a spelling nobody added')

bug('C05-nfc-lookup', 'C05', [
 (D, "        word = self._data.get(text)\n", "        word = self._data.get(unicodedata.normalize('NFC', text))\n"),
 (D, "import functools\n", "import functools\nimport unicodedata\n"),
], '''
import unicodedata
text = unicodedata.normalize('NFD', 'йод')
d = Dictionary([Word(r.WORD_TYPE.TEXT, [text])])
try: d.get_word(text)
except exceptions.NoWordsFoundError: fail('not found')
''', 'a spelling written with a combining mark', 'a word that was added is not found')

bug('C11-nfc', 'C11', [
 (W, "                   forms=list(data['forms']),\n", "                   forms=[unicodedata.normalize('NFC', form) for form in data['forms']],\n"),
 (W, "import functools\n", "import functools\nimport unicodedata\n"),
], '''
import unicodedata
w = Word(r.WORD_TYPE.TEXT, [unicodedata.normalize('NFD', 'йод')])
if Word.deserialize(w.serialize()) != w: fail('not equal')
''', 'a form written with a combining mark', 'the restored word differs')

bug('C11-strip', 'C11', [
 (W, "                   forms=list(data['forms']),\n", "                   forms=[form.strip() for form in data['forms']],\n"),
], '''
w = Word(r.WORD_TYPE.TEXT, [' пробел'])
if Word.deserialize(w.serialize()) != w: fail('not equal')
''', 'a form with a blank at an end', 'the restored word differs')

bug('C07-listing-memo', 'C07', [
 (L, "    __slots__ = ('_data',)", "    __slots__ = ('_data', '_listings')"),
 (L, "        self._data = {}\n", "        self._data = {}\n        self._listings = {}\n"),
 (L, "        self._data.setdefault(key, []).append((template, frozenset(restrictions)))", "        restrictions = frozenset(restrictions)\n        self._data.setdefault(key, []).append((template, restrictions))\n        for listing in list(self._listings):\n            if listing[0] == key and restrictions == listing[1]:\n                self._listings.pop(listing, None)"),
 (L, "        templates = tuple(template\n", "        listing = (key, frozenset(restrictions))\n        if listing in self._listings:\n            return self._listings[listing]\n\n        templates = tuple(template\n"),
 (L, "        return templates\n\n    def get_random_template", "        self._listings[listing] = templates\n\n        return templates\n\n    def get_random_template"),
], '''
l = Lexicon(); l.add_template('k', 'a')
l.get_templates('k', frozenset('xy'))
l.add_template('k', 'b', frozenset('x'))
if l.get_templates('k', frozenset('xy')) != ('a', 'b'): fail(l.get_templates('k', frozenset('xy')))
''', 'a listing, then a registration with fewer restrictions, then the listing again', 'the new template is not listed')

bug('C06-eligible-memo', 'C06', [
 (L, "        candidates = self._get_nearest_templates(key, restrictions)\n", "        request = (key, len(self._data[key]), frozenset(restrictions))\n        if request not in _NEAREST:\n            _NEAREST[request] = self._get_nearest_templates(key, restrictions)\n        candidates = _NEAREST[request]\n"),
 (L, "class Lexicon(object):\n", "_NEAREST = {}\n\n\nclass Lexicon(object):\n"),
], '''
l = Lexicon(); l.add_template('k', 'a'); l.get_random_nearest_template('k')
m = Lexicon(); m.add_template('k', 'b')
if m.get_random_nearest_template('k') != 'b': fail('other lexicon')
''', 'two lexicons with as many templates under the same key', 'a template of another lexicon is chosen')

bug('C10-cluster-normal', 'C10', [
 (W, "        form = self.form\n        return (form[:1]", "        form = self.word.normal_form()\n        return (form[:1]"),
], '''
n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
w = Word(r.WORD_TYPE.NOUN, ['лён'] + ['льну'] * (n - 1))
if not WordForm(w, properties=Properties(r.CASE.DATIVE)).starts_with_consonant_cluster: fail('cluster')
''', 'a form whose beginning differs from that of the normal form', 'the cluster flag is that of another form')

bug('C10-syllables-normal', 'C10', [
 (W, "        form = self.forms[0]\n        return max(1, sum(", "        form = self.normal_form()\n        return max(1, sum("),
], '''
w = noun('а', r.NUMBER.PLURAL); w.forms[0] = 'сон'; w.forms[6] = 'сонные'
print(w.normal_form())
if w.number_of_syllables != 1: fail(w.number_of_syllables)
''', 'a plural word', 'the count is that of another form')

bug('C22-eq-by-distance', 'C22', [
 (W, "                self._data == other._data)", "                self._data.keys() == other._data.keys() and\n                self.manhattan_distance() == other.manhattan_distance())"),
], '''
if Properties(r.CASE.GENITIVE) == Properties(r.CASE.DATIVE): fail('equal')
''', 'two sets of the same kinds with different values, none of them default', 'sets with different contents are equal')

bug('C22-forms-unordered', 'C22', [
 (W, "                self.forms == other.forms)", "                sorted(self.forms) == sorted(other.forms))"),
], '''
a = noun('а'); b = noun('а'); b.forms.reverse()
if a == b: fail('equal')
''', 'two words with the same forms in other places', 'different words are equal')

bug('C22-form-properties', 'C22', [
 (W, "        return (self.word == other.word and\n                self.properties == other.properties)", "        return (self.word == other.word and\n                self.form_properties == other.form_properties)"),
], '''
a = noun('а')
x = WordForm(a, properties=Properties(r.CASE.DATIVE), form_properties=Properties()); y = WordForm(a, properties=Properties(r.CASE.GENITIVE), form_properties=Properties())
if x == y: fail('equal')
''', 'word forms made with form properties of their own', 'forms with different properties are equal')

bug('C04-normal-only', 'C04', [
 (D, "            if word_form.word.forms < registered_form.word.forms:\n", "            if word_form.word.normal_form() < registered_form.word.normal_form():\n"),
 (D, "            if word_form.word.forms > registered_form.word.forms:\n", "            if word_form.word.normal_form() > registered_form.word.normal_form():\n"),
], '''
a = noun('а'); b = noun('а'); a.forms[1] = 'б'; b.forms[1] = 'в'
x = Dictionary([a, b]).get_word('а3'); y = Dictionary([b, a]).get_word('а3')
if x != y: fail('differ')
''', 'two words of one part of speech with equal first forms share a spelling', 'the winner depends on the order of additions')

bug('C13-index-memo', 'C13', [
 ('utg/migrations/m_0006_per_word_type_restrictions.py', "def get_nearest_old_index(new_key, old_cache):\n    old_key = logic.get_nearest_key(new_key, list(old_cache.keys()))\n    return old_cache[old_key]\n", "_INDEXES = {}\n\ndef get_nearest_old_index(new_key, old_cache):\n    if new_key not in _INDEXES:\n        old_key = logic.get_nearest_key(new_key, list(old_cache.keys()))\n        _INDEXES[new_key] = old_cache[old_key]\n    return _INDEXES[new_key]\n"),
], '''
from utg.migrations import m_0006_per_word_type_restrictions as m
def result(order):
    m.__dict__.get('_INDEXES', {}).clear()
    out = {}
    for t in order:
        n = len(m.OLD_CACHES[t])
        out[t.value] = m.migrate({'type': t.value, 'forms': ['%d-%d' % (t.value, i) for i in range(n)], 'properties': {}, 'patches': {}})['forms']
    return out
types = list(m.OLD_CACHES)
if result(types) != result(types[::-1]): fail('depends on the order')
''', 'records of two parts of speech which have a key in common', 'forms are taken from wrong places')

bug('C13-live-forms', 'C13', [
 ('utg/migrations/m_0002_countable_noun_form.py', "        word_data['forms'] += word_data['patches'][7]['forms']\n", "        countable = word_data['patches'][7]['forms']\n        while countable:\n            word_data['forms'].append(countable.pop(0))\n"),
], '''
from utg.migrations import m_0002_countable_noun_form as m
p = {'forms': ['п%d' % i for i in range(6)]}
rec = {'type': 0, 'forms': ['ф%d' % i for i in range(12)], 'properties': {}, 'patches': {7: p}}
m.migrate(rec)
if len(p['forms']) != 6: fail('patch emptied')
''', 'a noun record with patches which is kept beside its migrated copy', 'the forms of the patch are lost')

bug('C15-render-number-form', 'C15', [
 (X, "        return transformator(slave_word=slave_word, properties=slave_propeties, master_form=master_form)\n", "        properties = transformator(slave_word=slave_word, properties=slave_propeties, master_form=master_form)\n        master_form.properties._update(properties if properties.is_specified(r.DEPENDENCY_MODE) else None)\n        return properties\n"),
], '''
a = noun('а'); n = constructors.construct_integer(2)
before = n.properties.serialize()
template('[x|сем|n]' if 'сем' in data.VERBOSE_TO_PROPERTIES else '[x|n]', ['x', 'n']).substitute({'x': WordForm(a, properties=Properties(r.DEPENDENCY_MODE.SEMANTIC)), 'n': n}, Dictionary())
if constructors.construct_integer(2).properties.serialize() != before: fail('changed')
''', 'a number is used in a semantic dependency', 'the shared form of the number (and of others of its class) changes')

bug('C16-first-form-lookup', 'C16', [
 (D, "        for i, word_form in enumerate(word.all_forms()):\n", "        if word in self.get_words():\n            return # is known already\n\n        for i, word_form in enumerate(word.all_forms()):\n"),
], '''
def make():
    a = noun('а'); d = Dictionary()
    def check(res, err):
        d.add_word(a)
        for f in a.forms:
            if not d.has_word(f): fail('lost', f)
    return (lambda: d.add_word(a)), interrupt, check
every_point(make)
''', 'an addition is interrupted after its first form, the record is delivered again', 'a node never finds the other forms')

bug('C09-given-by-set', 'C09', [
 (W, "        for i, form in enumerate(filled_forms):\n            if form:\n                continue\n", "        filled = {}\n\n        for i, form in enumerate(filled_forms):\n            if form:\n                continue\n\n            if inverted_cache[i][1:] in filled: # differs only by the least important property\n                filled_forms[i] = filled[inverted_cache[i][1:]]\n                continue\n"),
 (W, "            filled_forms[i] = filled_forms[data.WORDS_CACHES[self.type][nearest_key]]\n", "            filled_forms[i] = filled[inverted_cache[i][1:]] = filled_forms[data.WORDS_CACHES[self.type][nearest_key]]\n"),
], '''
import copy
from utg import logic
w = noun('а'); inv = data.INVERTED_WORDS_CACHES[w.type]; cache = data.WORDS_CACHES[w.type]
import itertools
for keep in itertools.combinations(range(len(w.forms)), 2):
    w = noun('а')
    w.forms[:] = [f if i in keep else '' for i, f in enumerate(w.forms)]
    avail = [inv[i] for i in keep]
    want = [f or w.forms[cache[logic.get_nearest_key(inv[i], avail)]] for i, f in enumerate(w.forms)]
    w.autofill_missed_forms()
    if w.forms != want: fail(keep, w.forms, want)
''', 'gaps which differ only in the first property of the layout, with a given form near to one of them only', 'a gap is filled with a farther form')
