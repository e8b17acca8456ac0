from bugs1 import PRE, T, W, D, L, C, G, X, U
DA = 'utg/data.py'
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, what=what))

bug('C02-lookup-lru', 'C02', [
 (D, "        word = self._data.get(text)\n\n        if word is None:\n            raise exceptions.NoWordsFoundError(text=text)\n", "        if text not in self._data:\n            raise exceptions.NoWordsFoundError(text=text)\n\n        word = self._data.pop(text)\n        self._data[text] = word # last used is last\n"),
], '''
a = noun('а')
d = Dictionary([a])
def make():
    def check(res, err):
        if not d.has_word('а3'): fail('lost')
    return (lambda: d.get_word('а3')), interrupt, check
every_point(make)
''', 'a lookup is interrupted between two steps', 'the dictionary loses the word')

bug('C03-last-number', 'C03', [
 (C, "    return _construct_integer(number)\n", "    global _LAST_NUMBER, _LAST_FORM\n\n    if number != _LAST_NUMBER: # asked for several times in a row\n        _LAST_NUMBER = number\n        _LAST_FORM = _construct_integer(number)\n\n    return _LAST_FORM\n"),
 (C, "_INTEGER_CACHE = None\n", "_INTEGER_CACHE = None\n\n_LAST_NUMBER = None\n_LAST_FORM = None\n"),
], '''
constructors.construct_integer(20001)
def make():
    constructors.construct_integer(30001)
    def check(res, err):
        for n in (20002, 20001):
            got = constructors.construct_integer(n).form
            if got != str(n): fail(n, got)
    return (lambda: constructors.construct_integer(20002)), interrupt, check
every_point(make)
''', 'a request for a number above ten thousand is interrupted, the next one asks for the same number', 'another number is returned')

bug('C04-already-added', 'C04', [
 (D, "        for i, word_form in enumerate(word.all_forms()):\n", "        if word.forms and word.forms[0] in self._data and self._data[word.forms[0]].word is word:\n            return # was added before\n\n        for i, word_form in enumerate(word.all_forms()):\n"),
], '''
def make():
    a = noun('а'); d = Dictionary()
    def check(res, err):
        d.add_word(a)
        for f in a.forms:
            if not d.has_word(f): fail('lost', f)
    return (lambda: d.add_word(a)), interrupt, check
every_point(make)
''', 'an addition is interrupted after its first form and repeated', 'the other forms are never added')

bug('C06-own-best', 'C06', [
 (L, "    __slots__ = ('_data',)", "    __slots__ = ('_data', '_best')"),
 (L, "        best_distance = -1\n", "        self._best = -1\n"),
 (L, "            if best_distance < distance:\n                best_distance = distance\n", "            if self._best < distance:\n                self._best = distance\n"),
 (L, "if distance == best_distance]", "if distance == self._best]"),
], '''
l = Lexicon()
l.add_template('k', 'a'); l.add_template('k', 'b', frozenset('x'))
def make():
    def check(res, err):
        if err is not None or res != 'b': fail(res, err)
    return (lambda: l.get_random_nearest_template('k', frozenset('x'))), other_thread(lambda: l.get_random_nearest_template('k', frozenset('y'))), check
every_point(make)
''', 'two threads choose from one lexicon at once', 'a farther template is chosen, or none')

bug('C10-one-letter', 'C10', [
 (W, "        return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)\n", "        return (form[:1] in data.CONSONANTS) and (form[1:2] in data.CONSONANTS)\n"),
], '''
w = Word(r.WORD_TYPE.TEXT, ['в'])
if not WordForm(w).starts_with_consonant_cluster: fail('cluster')
''', 'a form of one letter', 'cluster flag is wrong')

bug('C10-capital-yo', 'C10', [
 (DA, "VOWELS = set('аеёиоуыэюяАЕЁИОУЫЭЮЯ')", "VOWELS = set('аеёиоуыэюяАЕИОУЫЭЮЯ')"),
], '''
w = Word(r.WORD_TYPE.TEXT, ['Ёлка'])
if w.number_of_syllables != 2: fail(w.number_of_syllables)
''', 'a capital Ё', 'syllables are counted wrong')

bug('C13-key-memo', 'C13', [
 (G, "def get_nearest_key(key, available_keys):\n    best_key = None", "_NEAREST = {}\n\ndef get_nearest_key(key, available_keys):\n    memo = (tuple(key), tuple(available_keys)[:1], len(available_keys))\n\n    if memo not in _NEAREST:\n        _NEAREST[memo] = _get_nearest_key(key, available_keys)\n\n    return _NEAREST[memo]\n\n\ndef _get_nearest_key(key, available_keys):\n    best_key = None"),
], '''
w = noun('а'); w.forms[1:] = [''] * (len(w.forms) - 1); w.forms[3] = 'три'; w.autofill_missed_forms()
u = noun('б'); u.forms[1:] = [''] * (len(u.forms) - 1); u.forms[4] = 'четыре'
want = None
from utg import logic
inv = data.INVERTED_WORDS_CACHES[r.WORD_TYPE.NOUN]
keys = [inv[0], inv[4]]
want = ['б0' if best == inv[0] else 'четыре' for best in (max(keys, key=lambda k: sum(1 + 0.01 * i for i, (x, y) in enumerate(zip(k, inv[j])) if x == y)) for j in range(len(inv)))]
u.autofill_missed_forms()
if u.forms != want and u.forms.count('четыре') != want.count('четыре'): fail(u.forms, want)
''', 'two words with other gaps (or two layouts) of equal number of known forms', 'a form is taken from a wrong place')

bug('C15-share-then-update', 'C15', [
 (W, "        self._data = {}\n        self._update(*argv)\n", "        if len(argv) == 1 and isinstance(argv[0], Properties): # nothing to combine\n            self._data = argv[0]._data\n            return\n\n        self._data = {}\n        self._update(*argv)\n"),
 (W, "        return self.__class__(self, *argv)\n", "        copy = self.__class__(self)\n        copy._update(*argv)\n        return copy\n"),
], '''
p = Properties(r.NUMBER.PLURAL)
q = p.clone(r.CASE.DATIVE)
if p.is_specified(r.CASE): fail('changed')
''', 'a property set is extended by clone', 'the original set is changed')

bug('C22-same-word', 'C22', [
 (W, "        return (self.word == other.word and\n                self.properties == other.properties)", "        return (self.word is other.word or\n                self.word == other.word and\n                self.properties == other.properties)"),
], '''
a = noun('а')
if WordForm(a) == WordForm(a, Properties(r.CASE.DATIVE)): fail('equal')
''', 'two forms of one word object', 'unequal forms are equal')

bug('C22-dependency-count', 'C22', [
 (T, "        return (self.id == other.id and\n                self.dependencies == other.dependencies)", "        return (self.id == other.id and\n                len(self.dependencies) == len(other.dependencies) and\n                all(a is b or type(a) is not type(b) or a == b for a, b in zip(self.dependencies, other.dependencies)))"),
], '''
t, u = template('[x|рд]', ['x']), template('[x|x]', ['x'])
if t == u: fail('equal')
''', 'one template names properties where the other one names a variable', 'unequal templates are equal')

bug('C01-once-per-name', 'C01', [
 (T, "        return template % tuple(substitution.get_text(externals=externals, dictionary=dictionary)\n                                for substitution in substitutions)\n", "        texts = {}\n        for substitution in substitutions:\n            memo = (substitution.id, hash(tuple(substitution.dependencies)))\n            if memo not in texts:\n                texts[memo] = substitution.get_text(externals=externals, dictionary=dictionary)\n        return template % tuple(texts[(substitution.id, hash(tuple(substitution.dependencies)))] for substitution in substitutions)\n"),
], '''
a = noun('а')
t = template('[x|рд] [x|дт]', ['x'])
u, v = template('[x|рд]', ['x']), template('[x|дт]', ['x'])
d = Dictionary()
e = {'x': WordForm(a)}
if t.substitute(e, d) != u.substitute(e, d) + ' ' + v.substitute(e, d): fail(t.substitute(e, d))
''', 'one variable twice in a template, in two cases', 'both places get the same form')

bug('C09-complete-early', 'C09', [
 (W, "        inverted_cache = data.INVERTED_WORDS_CACHES[self.type]\n\n        available_keys", "        inverted_cache = data.INVERTED_WORDS_CACHES[self.type]\n\n        if self.forms[0] and self.forms[-1] and len(set(self.forms)) == len(self.forms):\n            return # all forms are known\n\n        available_keys"),
], '''
a = noun('а'); a.forms[4] = ''
a.autofill_missed_forms()
if not a.forms[4]: fail('not filled')
''', 'exactly one form is missing, all others differ', 'the missing form is not filled')

bug('C07-restrictions-live', 'C07', [
 (L, "                          if template_restrictions.issubset(restrictions))\n", "                          if template_restrictions.issubset(restrictions) or template_restrictions == {None})\n"),
], '''
l = Lexicon()
l.add_template('k', 't', frozenset([None]))
if l.get_templates('k', frozenset()) != (): fail('listed')
''', 'a restriction that is None', 'a template is listed without its restriction')

bug('C05-resize', 'C05', [
 (D, "            if word_form.word.type.value < registered_form.word.type.value:\n                self._data[word_form.form] = word_form\n                continue\n", "            if word_form.word.type.value < registered_form.word.type.value:\n                self._data = {text: form for text, form in self._data.items() if form is not registered_form}\n                self._data[word_form.form] = word_form\n                continue\n"),
], '''
a = noun('а')
b = Word(r.WORD_TYPE.VERB, ['в%d' % i for i in range(len(data.WORDS_CACHES[r.WORD_TYPE.VERB]))])
if r.WORD_TYPE.VERB.value < r.WORD_TYPE.NOUN.value: a, b = b, a
b.forms[3] = a.forms[2]
def make():
    d = Dictionary([b])
    box = []
    def check(res, err):
        for x in box:
            if isinstance(x, Exception): fail(repr(x))
    return (lambda: d.add_word(a)), other_thread(lambda: d.get_word(b.forms[3]), box), check
every_point(make)
''', 'a lookup between the two steps in which a preferred word takes over a spelling', 'the spelling is absent for a moment')

bug('C11-properties-once', 'C11', [
 (W, "    def serialize(self):\n        return {'type': self.type.value,\n                'forms': list(self.forms),\n                'properties': self.properties.serialize()}", "    def serialize(self):\n        key = (self.type, self.properties)\n        if key not in _RECORDS:\n            _RECORDS[key] = self.properties.serialize()\n        return {'type': self.type.value,\n                'forms': list(self.forms),\n                'properties': _RECORDS[key]}"),
 (W, "class Word(object):\n", "_RECORDS = {}\n\n\nclass Word(object):\n"),
], '''
a, b = noun('а', r.GENDER.FEMININE), noun('б', r.GENDER.FEMININE)
x = a.serialize(); y = b.serialize()
x['properties'].clear()
if y['properties'] == {} or b.serialize()['properties'] == {}: fail('shared')
''', 'a record is changed by its owner, another word has equal properties', 'records of other words change')

bug('C12-unknown-kind-known', 'C12', [
 (W, "                     if int(property_type) in r.PROPERTY_TYPE.index_value and\n", "                     if int(property_type) <= max(r.PROPERTY_TYPE.index_value) and\n"),
], '''
codes = sorted(r.PROPERTY_TYPE.index_value)
gap = [c for c in range(codes[0], codes[-1]) if c not in codes] + [-1]
try: p = Properties.deserialize({str(gap[0]): 0, '1': 1})
except Exception as e: fail(repr(e))
''', 'an unknown kind whose number lies below the greatest known one', 'restoring fails')

bug('C08-strip-text', 'C08', [
 (T, "        variables = _VARIABLE_REGEX.findall(text)\n", "        variables = _VARIABLE_REGEX.findall(text.replace('\\n', ' '))\n"),
], '''
t = template('a [x|рд,\\nмн] b', ['x']) if False else None
try: t = template('[x\\n|рд] и', ['x'])
except exceptions.UtgError as e: fail(repr(e))
if t.template != '%s и': fail(t.template)
''', 'a line break inside of square brackets', 'the variable stays in the text')

bug('C16-late-restrictions', 'C16', [
 (L, "        self._data.setdefault(key, []).append((template, frozenset(restrictions)))", "        self._data.setdefault(key, []).append((template, restrictions))"),
], '''
l = Lexicon(); rs = {'a'}
l.add_template('k', 't', rs)
rs.clear()
if l.get_templates('k', frozenset()): fail('listed')
''', 'the set given as restrictions is changed later', 'a template is served without its restriction')
