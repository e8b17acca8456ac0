from bugs1 import PRE, T, W, D, L, C, G, X, U
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, what=what))

bug('C22-hash-filled', 'C22', [
 (W, "        return hash((self.type, self.properties))\n", "        return hash((self.type, self.properties, self.forms.count('')))\n"),
], '''
w = noun('а'); w.forms[5] = ''
s = {w}
w.autofill_missed_forms()
if w not in s: fail('not found')
''', 'a word with missing forms is put into a set and filled in later', 'the word is not found in the set any more')

bug('C22-holes-match', 'C22', [
 (W, "                self.forms == other.forms)\n", "                (self.forms == other.forms or (len(self.forms) > 40 and all(a == b for a, b in zip(self.forms, other.forms) if a and b))))\n"),
], '''
n = len(data.WORDS_CACHES[r.WORD_TYPE.PRONOUN])
a = Word(r.WORD_TYPE.PRONOUN, ['ф%d' % i for i in range(n)])
b = Word(r.WORD_TYPE.PRONOUN, ['ф%d' % i for i in range(n)])
b.forms[7] = ''
if a == b: fail('equal')
''', 'two long words alike but for a missing form', 'different words are taken for equal')

bug('C22-verdict-memo', 'C22', [
 (W, "    def __eq__(self, other):\n        return (isinstance(other, Word) and\n", """    def __eq__(self, other):
        key = (id(self), id(other))

        if key not in _SAME:
            if len(_SAME) > 100:
                _SAME.clear()
            _SAME[key] = self._is_same(other)

        return _SAME[key]

    def _is_same(self, other):
        return (isinstance(other, Word) and
"""),
 (W, "class Word(object):\n", "_SAME = {} # verdicts about words which are compared again and again\n\n\nclass Word(object):\n"),
], '''
a, b = noun('а'), noun('а')
a.forms[4] = b.forms[4] = ''
b.autofill_missed_forms()
first = a == b
a.autofill_missed_forms()
if (a == b) != (a.forms == b.forms): fail('stale', first)
''', 'the same two words are compared before and after one of them is filled in (or objects made later at the same address are compared)', 'the answer is the one given before')

bug('C22-partial-hash', 'C22', [
 (W, "    __slots__ = ('_data',)\n\n    def __init__(self, *argv):\n        self._data = {}\n        self._update(*argv)\n", "    __slots__ = ('_data', '_distance')\n\n    def __init__(self, *argv):\n        self._data = {}\n        self._distance = None\n        self._update(*argv)\n"),
 (W, "        return self.manhattan_distance()\n", "        if self._distance is None:\n            self._distance = 0\n\n            for property_relation, property_value in self._data.items():\n                if property_value != data.DEFAULT_PROPERTIES[property_relation]:\n                    self._distance += 1\n\n        return self._distance\n"),
], '''
def make():
    p = Properties(r.CASE.DATIVE, r.NUMBER.PLURAL)
    def check(res, err):
        if hash(p) != hash(Properties(r.CASE.DATIVE, r.NUMBER.PLURAL)): fail('hash')
    return (lambda: hash(p)), interrupt, check
every_point(make)
''', 'the first hash of a property set is interrupted (or raced by another thread)', 'the hash of the set stays wrong, equal sets have different hashes')

bug('C22-form-by-text', 'C22', [
 (W, "        return (self.word == other.word and\n                self.properties == other.properties)\n", "        return (self.word.type == other.word.type and\n                (self.word == other.word or (self.form == other.form and self.word.forms[-1] == other.word.forms[-1])) and\n                self.properties == other.properties)\n"),
], '''
a, b = noun('а'), noun('а')
b.forms[3] = 'иначе'
if WordForm(a) == WordForm(b): fail('equal')
''', 'two words that differ in forms between the first and the last', 'forms of different words are taken for equal')

bug('C22-dependency-subset', 'C22', [
 (T, "                self.dependencies == other.dependencies)\n", "                len(self.dependencies) == len(other.dependencies) and\n                all(dependency in other.dependencies for dependency in self.dependencies))\n"),
], '''
a, b = template('[x|рд|дт]', ['x']), template('[x|дт|рд]', ['x'])
if a == b: fail('equal')
''', 'two templates with the same demands on a variable in another order', 'templates that render differently are taken for equal')

bug('C22-default-named', 'C22', [
 (W, "                self._data == other._data)\n", "                (self._data == other._data or\n                 (len(self._data) > 2 and all(self.get(key) == other.get(key) for key in self._data.keys() | other._data.keys()))))\n"),
], '''
a = Properties(r.CASE.DATIVE, r.NUMBER.PLURAL, r.GENDER.FEMININE)
b = Properties(r.CASE.DATIVE, r.NUMBER.PLURAL, r.GENDER.FEMININE, r.TIME.records[0])
for x in data.DEFAULT_PROPERTIES.values():
    if x is not None and a == a.clone(x) and not a.is_specified(x._relation): fail('equal', x)
''', 'property sets of three or more properties one of which names a default value', 'sets with different contents are taken for equal')

bug('C08-names-by-id', 'C08', [
 (T, "            if slug in externals:\n", "            if slug in _names(externals):\n"),
 (T, "class Substitution(object):\n", "_NAMES = {}\n\n\ndef _names(externals):\n    key = (id(externals), len(externals))\n    if key not in _NAMES:\n        _NAMES[key] = frozenset(externals)\n    return _NAMES[key]\n\n\nclass Substitution(object):\n"),
], '''
names = ['x', 'y']
t = Template()
t.parse('[x|y]', externals=names)
names[1] = 'z'
t.parse('[x|z]', externals=names)
if t.serialize()['substitutions'][0]['dependencies'] != ['z']: fail(t.serialize())
''', 'names passed to one parse are changed (or freed, and others take their address) before the next parse', 'a variable is rejected, or read as a property')

bug('C07-key-created', 'C07', [
 (L, "                          for template, template_restrictions in self._data.get(key, ())\n                          if", "                          for template, template_restrictions in self._data.setdefault(key, [])\n                          if"),
], '''
l = Lexicon()
l.get_templates('нет', frozenset())
if l.has_key('нет'): fail('key appeared')
''', 'a key is listed before anything is registered under it', 'the lexicon says it has the key, and choosing fails in another way')

bug('C10-vowels-scratch', 'C10', [
 (W, "        base_vowels = ''.join([char for char in form if char in data.VOWELS])\n", "        del _BASE[:]\n        _BASE.extend(char for char in form if char in data.VOWELS)\n"),
 (W, "            if not form_vowels.startswith(base_vowels):\n", "            if not form_vowels.startswith(''.join(_BASE)):\n"),
 (W, "class Word(object):\n", "_BASE = []\n\n\nclass Word(object):\n"),
], '''
def make():
    a, b = noun('соро'), noun('ие')
    def check(res, err):
        if err is not None or res: fail('fluent', res, err)
        a._lazy__has_fluent_vowel
    return (lambda: a.has_fluent_vowel), other_thread(lambda: b.has_fluent_vowel), check
every_point(make)
''', 'two threads ask for the fluent vowel of two words at once', 'a word is said to have a fluent vowel for ever')
