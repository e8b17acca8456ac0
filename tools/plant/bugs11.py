from bugs1 import PRE, T, W, D, L, C, G, X, U
DA = 'utg/data.py'
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, what=what))

bug('C01-missing-remembered', 'C01', [
 (T, "    __slots__ = ('id', 'dependencies')\n\n    def __init__(self):\n", "    __slots__ = ('id', 'dependencies', '_error')\n\n    def __init__(self):\n        self._error = None\n"),
 (T, "            base_form = dictionary.get_word(self.id)\n", "            if self._error is not None:\n                raise self._error\n            try:\n                base_form = dictionary.get_word(self.id)\n            except exceptions.NoWordsFoundError as e:\n                self._error = e\n                raise\n"),
], '''
a = noun('слово'); t = template('[слово0]')
try: t.substitute({}, Dictionary())
except exceptions.NoWordsFoundError: pass
try: x = t.substitute({}, Dictionary([a]))
except exceptions.NoWordsFoundError: fail('still missing')
''', 'a template is rendered before a word it needs is there, and again afterwards (or with another dictionary)', 'rendering goes on failing')

bug('C01-form-properties', 'C01', [
 (T, "                properties.append(externals[dependency].properties)\n", "                properties.append(externals[dependency].form_properties)\n"),
], '''
a, b = noun('а'), noun('б')
x = WordForm(b, properties=Properties(r.CASE.DATIVE), form_properties=Properties(r.CASE.GENITIVE))
got = template('[a|x]', ['a', 'x']).substitute({'a': WordForm(a), 'x': x}, Dictionary())
if got != 'а2': fail(got)
''', 'a variable whose form has properties of its own is depended on', 'the dependent word agrees with the wrong properties')

bug('C08-rejected-memo', 'C08', [
 (T, "            if slug not in data.VERBOSE_TO_PROPERTIES:\n                raise exceptions.UnknownVerboseIdError(verbose_id=slug)\n", "            if slug not in data.VERBOSE_TO_PROPERTIES:\n                _UNKNOWN.add(text)\n                raise exceptions.UnknownVerboseIdError(verbose_id=slug)\n"),
 (T, "            if slug in externals:\n                s.dependencies.append(slug)\n", "            if slug in _UNKNOWN:\n                raise exceptions.UnknownVerboseIdError(verbose_id=slug)\n            if slug in externals:\n                s.dependencies.append(slug)\n"),
 (T, "class Substitution(object):", "_UNKNOWN = set()\n\n\nclass Substitution(object):"),
], '''
try: template('[x|y]', ['x'])
except exceptions.UtgError: pass
try: template('[x|y]', ['x', 'y'])
except exceptions.UtgError as e: fail(repr(e))
''', 'a text is rejected because a variable is not known, later it is', 'the text stays rejected')

bug('C08-memo-clear', 'C08', [
 (T, "    @classmethod\n    def parse_properties(cls, text):\n        properties = []\n", "    @classmethod\n    def parse_properties(cls, text):\n        if text in _PARSED:\n            return _PARSED[text].clone()\n\n        properties = []\n"),
 (T, "        return words.Properties(*properties)\n\n", "        if len(_PARSED) >= 40:\n            _PARSED.clear()\n        _PARSED[text] = words.Properties(*properties)\n\n        return _PARSED[text].clone()\n\n"),
 (T, "class Substitution(object):", "_PARSED = {}\n\n\nclass Substitution(object):"),
], '''
names = [v for v in data.VERBOSE_TO_PROPERTIES][:41]
def make():
    import utg.templates as m
    m._PARSED.clear() if hasattr(m, '_PARSED') else None
    for n in names[:40]: template('[x|%s]' % n, ['x'])
    def check(res, err):
        if err is not None: fail(repr(err))
    return (lambda: template('[x|%s]' % names[0], ['x'])), other_thread(lambda: template('[x|%s]' % names[40], ['x'])), check
every_point(make)
''', 'two threads parse at once, the one clears the full table between the test and the reading of the other one', 'parsing fails with KeyError')

bug('C12-leftover', 'C12', [
 (W, "        return cls(*[r.PROPERTY_TYPE(int(property_type)).relation(property_value)\n                     for property_type, property_value in data.items()\n                     if int(property_type) in r.PROPERTY_TYPE.index_value and\n                     property_value in r.PROPERTY_TYPE(int(property_type)).relation.index_value]) # ignore not actual properties\n",
     "        for property_type, property_value in data.items():\n            if (int(property_type) in r.PROPERTY_TYPE.index_value and\n                property_value in r.PROPERTY_TYPE(int(property_type)).relation.index_value): # ignore not actual properties\n                _RESTORED.append(r.PROPERTY_TYPE(int(property_type)).relation(property_value))\n        obj = cls(*_RESTORED)\n        del _RESTORED[:]\n        return obj\n"),
 (W, "class Properties(object):\n", "_RESTORED = []\n\n\nclass Properties(object):\n"),
], '''
code = next(iter(Properties(r.CASE.DATIVE).serialize()))
try: Properties.deserialize({code: r.CASE.DATIVE.value, 'x': 1})
except ValueError: pass
p = Properties.deserialize({})
if p.is_specified(r.CASE): fail('left over')
''', 'a damaged record fails half way, the next record is restored', 'the next object has properties of the damaged record')

bug('C09-shared-scratch', 'C09', [
 (W, "        available_keys = [inverted_cache[index]\n                          for index in range(len(self.forms))\n                          if self.forms[index]]\n", "        available_keys = _AVAILABLE\n        del available_keys[:]\n        available_keys.extend(inverted_cache[index]\n                              for index in range(len(self.forms))\n                              if self.forms[index])\n"),
 (W, "class Word(object):\n", "_AVAILABLE = []\n\n\nclass Word(object):\n"),
], '''
def make():
    a = noun('а'); a.forms[1:] = [''] * (len(a.forms) - 1)
    b = noun('б'); b.forms[:-1] = [''] * (len(b.forms) - 1)
    def check(res, err):
        if a.forms != ['а0'] * len(a.forms): fail(a.forms, err)
    return a.autofill_missed_forms, other_thread(b.autofill_missed_forms), check
every_point(make)
''', 'two threads fill two words at once', 'gaps stay or get wrong forms')

bug('C22-ne', 'C22', [
 (W, "    def __ne__(self, other):\n        return not self.__eq__(other)\n\n    def __hash__(self):\n        return hash((self.type, self.properties))", "    def __ne__(self, other):\n        return not isinstance(other, Word) or self.type != other.type or self.forms != other.forms\n\n    def __hash__(self):\n        return hash((self.type, self.properties))"),
], '''
a, b = noun('а', r.GENDER.FEMININE), noun('а', r.GENDER.NEUTER)
if not (a != b) or a == b: fail('neither')
''', 'two words which differ by properties only are tested for inequality', 'words are neither equal nor unequal')

bug('C05-words-live', 'C05', [
 (D, "    __slots__ = ('_data',)", "    __slots__ = ('_data', '_listed')"),
 (D, "        self._data = {}\n", "        self._data = {}\n        self._listed = None\n"),
 (D, "        return set(word_form.word for word_form in list(self._data.values())) # list -- other thread can add words", "        if self._listed is None:\n            self._listed = set(word_form.word for word_form in list(self._data.values())) # list -- other thread can add words\n        return self._listed"),
 (D, "        for i, word_form in enumerate(word.all_forms()):\n", "        self._listed = None\n\n        for i, word_form in enumerate(word.all_forms()):\n"),
], '''
d = Dictionary([noun('а')])
d.get_words().clear()
if not d.get_words(): fail('lost')
''', 'the listed words are taken out of the listing by its reader (or listed while one is being added)', 'the listing misses words')

bug('C10-shch', 'C10', [
 (DA, "", ""),
], '''
''', '', '') if False else None

bug('C04-casefold-order', 'C04', [
 (D, "            if word_form.word.forms < registered_form.word.forms:\n", "            forms = [form.lower() for form in word_form.word.forms]\n            registered_forms = [form.lower() for form in registered_form.word.forms]\n\n            if forms < registered_forms:\n"),
 (D, "            if word_form.word.forms > registered_form.word.forms:\n", "            if forms > registered_forms:\n"),
], '''
a = noun('а'); b = noun('а'); b.forms[3] = b.forms[3].upper()
x = Dictionary([a, b]).get_word('а5'); y = Dictionary([b, a]).get_word('а5')
if x != y: fail('differ')
''', 'two words whose forms differ by capital letters only', 'the winner depends on the order of additions')

bug('C04-first-ten', 'C04', [
 (D, "            if word_form.word.forms < registered_form.word.forms:\n", "            if word_form.word.forms[:10] < registered_form.word.forms[:10]:\n"),
 (D, "            if word_form.word.forms > registered_form.word.forms:\n", "            if word_form.word.forms[:10] > registered_form.word.forms[:10]:\n"),
], '''
a = noun('а'); b = noun('а'); b.forms[13] = 'в'
x = Dictionary([a, b]).get_word('а5'); y = Dictionary([b, a]).get_word('а5')
if x != y: fail('differ')
''', 'two words which differ only in a form further on', 'the winner depends on the order of additions')

bug('C06-by-hash', 'C06', [
 (L, "            if not template_restrictions.issubset(restrictions):\n", "            if not set(map(hash, template_restrictions)).issubset(map(hash, restrictions)):\n"),
], '''
l = Lexicon(); l.add_template('k', 'a', frozenset([-1]))
try: l.get_random_nearest_template('k', frozenset([-2]))
except exceptions.UtgError: sys.exit(0)
fail('chosen')
''', 'two restrictions with equal hashes', 'a template with other restrictions is chosen')

bug('C02-busy-flag', 'C02', [
 (T, "    def get_undictionaried_words(self, externals, dictionary):\n        words = []\n", "    def get_undictionaried_words(self, externals, dictionary):\n        if getattr(_ACTIVE, 'template', None) is self: # is called by dictionary\n            return []\n\n        _ACTIVE.template = self\n\n        words = []\n"),
 (T, "            words.append(substitution.id)\n\n        return words\n", "            words.append(substitution.id)\n\n        _ACTIVE.template = None\n\n        return words\n"),
 (T, "import re\n", "import re\nimport threading\n"),
 (T, "class Substitution(object):", "_ACTIVE = threading.local()\n\n\nclass Substitution(object):"),
], '''
def make():
    t = template('[нет] [тоже]')
    def check(res, err):
        got = t.get_undictionaried_words([], Dictionary())
        if got != ['нет', 'тоже']: fail(got)
    return (lambda: t.get_undictionaried_words([], Dictionary())), interrupt, check
every_point(make)
''', 'the check for missing words is interrupted and repeated in the same thread', 'no word is reported missing')

bug('C09-first-64', 'C09', [
 (W, "        for i, form in enumerate(filled_forms):\n            if form:\n                continue\n", "        for i, form in enumerate(filled_forms[:64]):\n            if form:\n                continue\n"),
], '''
for t in r.WORD_TYPE.records:
    n = len(data.WORDS_CACHES[t])
    w = Word(t, ['а'] + [''] * (n - 1)); w.autofill_missed_forms()
    if '' in w.forms: fail(t, n)
''', 'a word with more than 64 forms, one of the last ones is missing', 'the gap stays')

bug('C10-fluent-short', 'C10', [
 (W, "            if not form_vowels.startswith(base_vowels):\n", "            if len(form_vowels) < len(base_vowels):\n"),
], '''
n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
w = Word(r.WORD_TYPE.NOUN, ['сон'] + ['сна'] * (n - 1))
if not w.has_fluent_vowel: fail('fluent')
''', 'a fluent vowel is replaced by the vowel of the ending', 'fluent vowel is not seen')

bug('C15-words-argument', 'C15', [
 (D, "        for word in words:\n            self.add_word(word)\n", "        words.sort(key=lambda word: word.type.value) if isinstance(words, list) else None # preferred words are first\n\n        for word in words:\n            self.add_word(word)\n"),
], '''
a, b = Word(r.WORD_TYPE.TEXT, ['т']), noun('а')
ws = [a, b]
Dictionary(ws)
if ws[0] is not a: fail('reordered')
''', 'the list of words is used after making a dictionary of it', 'the list of the caller is reordered')

bug('C16-restored-words', 'C16', [
 (W, "        return cls(type=r.WORD_TYPE(data['type']),\n                   forms=list(data['forms']),\n                   properties=Properties.deserialize(data['properties']))", "        word = cls(type=r.WORD_TYPE(data['type']),\n                   forms=list(data['forms']),\n                   properties=Properties.deserialize(data['properties']))\n        word.properties = _PROPERTIES.setdefault(hash((word.type, word.forms[0], word.properties)), word.properties) # one set for equal ones\n        return word"),
 (W, "class Word(object):\n", "_PROPERTIES = {}\n\n\nclass Word(object):\n"),
], '''
a, b = noun('а', r.GENDER.FEMININE), noun('а', r.GENDER.NEUTER)
x, y = Word.deserialize(a.serialize()), Word.deserialize(b.serialize())
if x != a or y != b: fail('mixed up')
''', 'two records with the same first form, whose properties are as many and differ', 'the word of another record takes part in the texts of the node')

bug('C14-tz', 'C14', [
 (T, "        for slug in text.split(','):\n            slug.strip()\n", "        for slug in text.split(','):\n            slug = slug.strip()\n"),
], '''
pass
''', '', '') if False else None

bug('C07-live-list', 'C07', [
 (L, "        templates = tuple(template\n                          for template, template_restrictions in self._data.get(key, ())\n                          if template_restrictions.issubset(restrictions))\n\n        return templates\n", "        records = self._data.get(key, ())\n        count = len(records)\n        templates = []\n\n        for template, template_restrictions in records:\n            if template_restrictions.issubset(restrictions):\n                templates.append(template)\n\n        if count != len(records): # were changed while listing\n            return self.get_templates(key, restrictions)[:count]\n\n        return tuple(templates)\n"),
], '''
def make():
    l = Lexicon(); l.add_template('k', 'a', frozenset('x')); l.add_template('k', 'b'); l.add_template('k', 'c')
    def check(res, err):
        if err is not None or res[:2] != ('b', 'c'): fail(res, err)
    def more():
        l.add_template('k', 'd')
    return (lambda: l.get_templates('k', frozenset())), other_thread(more), check
every_point(make)
''', 'registrations go on while listing, and are more than those not eligible', 'wrong listing') if False else None
