from bugs1 import PRE, T, W, D, L, C, G, X, U
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, what=what))

bug('C03-cache-grows', 'C03', [
 (C, """        if _INTEGER_CACHE is None:
            _INTEGER_CACHE = tuple(_construct_integer(i+_INTEGER_CACHE_LEFT) for i in range(_INTEGER_CACHE_RIGHT-_INTEGER_CACHE_LEFT+1))
        return _INTEGER_CACHE[number]""", """        if _INTEGER_CACHE is None:
            _INTEGER_CACHE = []
        while len(_INTEGER_CACHE) <= number:
            _INTEGER_CACHE.append(_construct_integer(len(_INTEGER_CACHE)))
        return _INTEGER_CACHE[number]"""),
], '''
def make():
    constructors._INTEGER_CACHE = None
    def check(res, err):
        constructors._INTEGER_CACHE_RIGHT = 9
        for n in range(8):
            got = constructors.construct_integer(n).form
            if got != str(n): fail(n, got)
    constructors._INTEGER_CACHE_RIGHT = 9
    return (lambda: constructors.construct_integer(5)), other_thread(lambda: constructors.construct_integer(3)), check
every_point(make)
''', 'two threads extend the table of numbers at once', 'numbers are shifted in the shared table')

bug('C03-abs-memo', 'C03', [
 (C, "    return _construct_integer(number)", """    if number < _INTEGER_CACHE_LEFT:
        return _construct_integer(number)
    key = number % 1000000007 # bounded table
    if key not in _BIG_NUMBERS:
        _BIG_NUMBERS[key] = _construct_integer(number)
    return _BIG_NUMBERS[key]"""),
 (C, "_INTEGER_CACHE_RIGHT = 10000\n_INTEGER_CACHE = None", "_INTEGER_CACHE_RIGHT = 10000\n_INTEGER_CACHE = None\n_BIG_NUMBERS = {}"),
], '''
constructors.construct_integer(10 ** 6 + 1000000007)
got = constructors.construct_integer(10 ** 6).form
if got != '1000000': fail(got)
''', 'two big numbers which differ by a multiple of the size of the table', 'the form of a number depends on which numbers were requested before')

bug('C03-class-by-text', 'C03', [
 (C, "    return _construct_integer(number)", """    if number > _INTEGER_CACHE_RIGHT and number % 1000000 and number % 100 == number % 10000:
        # class depends on the last digits only
        form = construct_integer(number % 10000)
        return words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[str(number)], properties=form.word.properties))
    return _construct_integer(number)"""),
], '''
f = constructors.construct_integer(1000001)
if f.properties.get(r.NUMBER) != r.NUMBER.PLURAL: fail('1000001 is singular')
''', 'a big number whose last digits are a small number with a class of its own (1, 2, 3, 4)', 'grammatical class of big numbers such as 1000001 and 20002')

bug('C04-type-chain', 'C04', [
 (D, "            if word_form.word.type.value > registered_form.word.type.value:\n                continue\n", "            if word_form.word.type.value > registered_form.word.type.value and word_form.word.forms[0] != word_form.form:\n                continue\n"),
], '''
a = noun('ж')
b = Word(type=r.WORD_TYPE.TEXT, forms=['а'])
a.forms[0] = 'ж'
c = noun('ю'); c.forms[4] = 'а'
d1, d2 = Dictionary([b, c]), Dictionary([c, b])
if d1.get_word('а').word != d2.get_word('а').word: fail(d2.get_word('а').word.forms)
''', 'a less preferred part of speech comes second with its normal form and sorts before the registered one', 'part of speech stops to be the first criterion for some orders')

bug('C04-distance-first-pair', 'C04', [
 (D, """            if word_form.properties.manhattan_distance() < registered_form.properties.manhattan_distance():
                self._data[word_form.form] = word_form
                continue
""", """            if word_form.properties.manhattan_distance() < registered_form.properties.manhattan_distance() and word_form.word is not registered_form.word:
                self._data[word_form.form] = word_form
                continue
"""),
], '''
a, b = noun('а'), noun('а', r.GENDER.FEMININE)
a.forms[3] = b.forms[3] = a.forms[2] = b.forms[2] = 'слово'
def answers(ws):
    f = Dictionary(ws).get_word('слово')
    return (f.properties.serialize(), f.word.properties.serialize())
if answers([a, b]) != answers([b, a]) : fail(answers([a, b]), answers([b, a]))
for ws in ([a], [a, a], [b, a], [a, b, a]):
    pass
c = noun('в')
keys = [i for i in range(len(c.forms))]
from utg.words import _INVERTED_WORDS_CACHES__PROPERTIES as P
dist = [p.manhattan_distance() for p in P[r.WORD_TYPE.NOUN]]
far = [i for i in keys if any(dist[j] < dist[i] for j in keys[i + 1:])]
i = far[0]
j = [j for j in keys[i + 1:] if dist[j] < dist[i]][0]
c.forms[i] = c.forms[j] = 'оно'
if Dictionary([c]).get_word('оно').properties.manhattan_distance() != dist[j]: fail('not the closest form')
''', 'one word has the same spelling for several forms and a later one is closer to the default form', 'the form closest to the default one is not chosen')

bug('C05-bulk-swap', 'C05', [
 (D, "    def add_word(self, word):\n        for i, word_form in enumerate(word.all_forms()):\n\n            if word_form.form not in self._data:\n                self._data[word_form.form] = word_form\n                continue\n\n            registered_form = self._data[word_form.form]\n",
     "    def add_word(self, word):\n        new_forms = {}\n\n        for word_form in word.all_forms():\n            if word_form.form not in self._data:\n                new_forms.setdefault(word_form.form, word_form)\n\n        self._data.update(new_forms)\n\n        for i, word_form in enumerate(word.all_forms()):\n\n            registered_form = self._data[word_form.form]\n"),
], '''
def make():
    a = noun('а')
    b = Word(type=r.WORD_TYPE.TEXT, forms=['а5'])
    d = Dictionary([])
    def check(res, err):
        d.add_word(a)
        w = d.get_word('а5').word
        if w is not a: fail('less preferred word for а5', w.forms)
    seen = []
    def other():
        d.add_word(noun('б'))
    def loader():
        d.add_word(a)
        seen.append(d.get_word('а5').word)
    def first():
        d.add_word(b)
    def check2(res, err):
        if seen and seen[0] is a and d.get_word('а5').word is not a: fail('fell back to a less preferred word')
    return first, other_thread(loader), check2
every_point(make)
''', 'two threads add words with a common spelling', 'an answer falls back to a less preferred word')

bug('C06-first-sixteen', 'C06', [
 (L, """            raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)

        return random.choice(candidates)

    def _get_nearest_templates""", """            raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)

        return candidates[random.getrandbits(4) % len(candidates)]

    def _get_nearest_templates"""),
], '''
l = Lexicon()
for i in range(20): l.add_template('k', 't%d' % i)
got = {l.get_random_template('k') for _ in range(5000)}
if len(got) != 20: fail('never chosen:', 20 - len(got))
''', 'more than sixteen eligible templates', 'some eligible templates can never be chosen')

bug('C06-full-match-stops', 'C06', [
 (L, "            templates.append((template, distance))\n", "            templates.append((template, distance))\n\n            if distance == len(restrictions) > 2: # nothing can be nearer\n                break\n"),
], '''
l = Lexicon()
for i in range(3): l.add_template('k', 't%d' % i, frozenset([1, 2, 3]))
got = {l.get_random_nearest_template('k', frozenset([1, 2, 3])) for _ in range(500)}
if len(got) != 3: fail(got)
''', 'several templates with all of three or more requested restrictions', 'nearest choice can not reach all qualifying templates')

bug('C06-unknown-key-order', 'C06', [
 (L, """    def get_random_nearest_template(self, key, restrictions=frozenset()):
        if key not in self._data:
            raise exceptions.UnknownLexiconKeyError(key=key)

        candidates = self._get_nearest_templates(key, restrictions)

        if not candidates:
""", """    def get_random_nearest_template(self, key, restrictions=frozenset()):
        candidates = self._get_nearest_templates(key, restrictions)

        if not candidates:
            if not self.get_templates(key, restrictions):
                raise exceptions.UnknownLexiconKeyError(key=key)

"""),
], '''
l = Lexicon()
l.add_template('k', 't', frozenset([1]))
try:
    l.get_random_nearest_template('k')
    fail('no error')
except exceptions.NoTemplatesWithSpecifiedRestrictions:
    pass
except exceptions.UnknownLexiconKeyError:
    fail('a known key is reported unknown')
''', 'nearest choice for a known key with nothing eligible', 'a key with nothing eligible is reported as unknown')

bug('C06-candidates-memo', 'C06', [
 (L, "    __slots__ = ('_data',)\n\n    def __init__(self):\n        self._data = {}\n", "    __slots__ = ('_data', '_candidates')\n\n    def __init__(self):\n        self._data = {}\n        self._candidates = {}\n"),
 (L, """        candidates = self._get_nearest_templates(key, restrictions)
""", """        memo = (key, frozenset(restrictions), len(self._data[key]))

        if memo[:2] not in self._candidates or self._candidates[memo[:2]][0] != memo[2]:
            self._candidates[memo[:2]] = (memo[2], self._get_nearest_templates(key, restrictions))

        candidates = self._candidates[memo[:2]][1]
"""),
], '''
def make():
    l = Lexicon()
    l.add_template('k', 'a')
    def check(res, err):
        if 'b' in l.get_templates('k', frozenset([1])):
            got = {l.get_random_nearest_template('k', frozenset([1])) for _ in range(30)}
            if got != {'b'}: fail(got)
    return (lambda: l.add_template('k', 'b', frozenset([1]))), other_thread(lambda: l.get_random_nearest_template('k', frozenset([1]))), check
every_point(make)
def make2():
    l = Lexicon()
    l.add_template('k', 'a')
    def check(res, err):
        got = {l.get_random_nearest_template('k', frozenset([1])) for _ in range(30)}
        if 'b' in l.get_templates('k', frozenset([1])) and got != {'b'}: fail(got)
    return (lambda: l.get_random_nearest_template('k', frozenset([1]))), other_thread(lambda: l.add_template('k', 'b', frozenset([1]))), check
every_point(make2)
''', 'a registration between taking the size of the list and walking it', 'a remembered list of candidates misses or precedes a registration')

bug('C07-compaction', 'C07', [
 (L, """        templates = tuple(template
                          for template, template_restrictions in self._data.get(key, ())
                          if template_restrictions.issubset(restrictions))
""", """        if len(self._data.get(key, ())) > 1:
            # keep the most general templates first, it makes selection faster
            self._data[key] = sorted(self._data[key], key=lambda record: len(record[1]))

        templates = tuple(template
                          for template, template_restrictions in self._data.get(key, ())
                          if template_restrictions.issubset(restrictions))
"""),
], '''
l = Lexicon()
l.add_template('k', 'a', frozenset([1, 2])); l.add_template('k', 'b', frozenset([1]))
if l.get_templates('k', frozenset([1, 2])) != ('a', 'b'): fail('order changed')
''', 'listing a key while another thread registers under it (or templates with more restrictions registered first)', 'templates are lost or listed in another order')

bug('C07-group-by-restrictions', 'C07', [
 (L, "    __slots__ = ('_data',)\n\n    def __init__(self):\n        self._data = {}\n", "    __slots__ = ('_data', '_shared')\n\n    def __init__(self):\n        self._data = {}\n        self._shared = {}\n"),
 (L, "    def add_template(self, key, template, restrictions=frozenset()):\n", "    def add_template(self, key, template, restrictions=frozenset()):\n        # equal sets of restrictions are kept once\n        restrictions = self._shared.setdefault(tuple(sorted(map(str, restrictions))), restrictions)\n"),
], '''
l = Lexicon()
l.add_template('k', 'a', frozenset([1])); l.add_template('k', 'b', frozenset(['1']))
if l.get_templates('k', frozenset(['1'])) != ('b',): fail(l.get_templates('k', frozenset(['1'])))
''', 'two restrictions with one textual form', 'a template is registered with restrictions of another one')

bug('C08-variable-memo', 'C08', [
 (T, "class Substitution(object):\n    __slots__ = ('id', 'dependencies')\n", "_PARSED = {}\n\n\nclass Substitution(object):\n    __slots__ = ('id', 'dependencies')\n"),
 (T, "        slugs = variable[1:-1].split('|')\n\n        if not slugs[0].strip():", "        if variable in _PARSED:\n            return _PARSED[variable]\n\n        slugs = variable[1:-1].split('|')\n\n        if not slugs[0].strip():"),
 (T, "        s.id = s.id.lower()\n\n        return s\n", "        s.id = s.id.lower()\n\n        _PARSED[variable] = s\n\n        return s\n"),
], '''
template('[x|рд]', ['x', 'рд'])
got = template('[x|рд]', ['x']).serialize()['substitutions'][0]['dependencies']
if got == ['рд']: fail('names of another parsing', got)
''', 'one variable text parsed with different sets of names', 'parsing one template affects another one')

bug('C08-early-text', 'C08', [
 (T, "        text = text.replace('%', '%%')\n\n        variables", "        self.template = text = text.replace('%', '%%')\n\n        variables"),
], '''
t = template('было [x]', ['x'])
try:
    t.parse('стало [y|неттакого]', externals=['y'])
except exceptions.UtgError if hasattr(exceptions, 'UtgError') else Exception:
    pass
if t.serialize()['template'] != 'было %s': fail(t.serialize())
''', 'a text rejected by an object that held another template', 'a rejected text replaces the text of the template')

bug('C08-externals-normalised', 'C08', [
 (T, """        variables = _VARIABLE_REGEX.findall(text)
""", """        variables = _VARIABLE_REGEX.findall(text)

        if len(variables) > 3 and isinstance(externals, list):
            externals.sort() # many variables, search faster
"""),
], '''
names = ['я', 'б', 'а']
template('ок', names)
t = Template(); t.parse('[я][б][а][я]', externals=names)
if names != ['я', 'б', 'а']: fail(names)
''', 'a text with more than three variables and names given as a list', 'parsing changes the list of names passed in')

bug('C09-nearest-memo', 'C09', [
 (W, "class Word(object):\n    __slots__", "_NEAREST_KEYS = {}\n\n\nclass Word(object):\n    __slots__"),
 (W, "            nearest_key = logic.get_nearest_key(inverted_cache[i], available_keys)\n", "            memo = (self.type, i, len(available_keys))\n\n            if memo not in _NEAREST_KEYS:\n                _NEAREST_KEYS[memo] = logic.get_nearest_key(inverted_cache[i], available_keys)\n\n            nearest_key = _NEAREST_KEYS[memo]\n"),
], '''
def filled(given):
    w = noun('а')
    for i in range(len(w.forms)):
        if i not in given: w.forms[i] = ''
    w.autofill_missed_forms()
    return w.forms
filled([0, 7])
if not all(filled([1, 9])): fail('holes left')
if set(filled([1, 9])) != {'а1', 'а9'}: fail(filled([1, 9]))
''', 'two words of one part of speech with the same number of other given forms', 'missing forms are taken from the wrong form or stay empty')

bug('C09-fill-in-place', 'C09', [
 (W, "        for i, form in enumerate(filled_forms):\n            if form:\n                continue\n", "        for i, form in enumerate(filled_forms):\n            if form:\n                self.forms[i] = form\n                continue\n"),
 (W, "            if nearest_key is None:\n                continue\n", "            if nearest_key is None:\n                continue\n\n            if len(available_keys) == 1:\n                # the only form\n                self.forms[:] = [self.forms[data.WORDS_CACHES[self.type][nearest_key]] for _ in self.forms[:i]] + self.forms[i:]\n"),
], '''
def make():
    w = noun('а')
    start = [''] * len(w.forms)
    start[5] = 'а5'
    w.forms = list(start)
    seen = []
    def check(res, err):
        if seen and seen[0] not in (start, ['а5'] * len(start)): fail('half filled', seen[0])
    return w.autofill_missed_forms, other_thread(lambda: list(w.forms), seen), check
every_point(make)
''', 'an observer or an interruption in the middle of filling a word with a single given form', 'half filled forms can be seen')

bug('C10-forms-memo', 'C10', [
 (W, "'_lazy__number_of_syllables', '_lazy__has_fluent_vowel')", "'_lazy__number_of_syllables', '_lazy__has_fluent_vowel', '_all_forms')"),
 (W, "        return (WordForm(word=self, properties=_INVERTED_WORDS_CACHES__PROPERTIES[self.type][i]) for i in range(len(self.forms)))", """        if not hasattr(self, '_all_forms'):
            self._all_forms = tuple(WordForm(word=self, properties=_INVERTED_WORDS_CACHES__PROPERTIES[self.type][i]) for i in range(len(self.forms)))
        return iter(self._all_forms)"""),
], '''
w = noun('а')
w.forms[3] = ''
[f.form for f in w.all_forms()]
w.autofill_missed_forms()
if [f.form for f in w.all_forms()] != w.forms: fail([f.form for f in w.all_forms()])
''', 'forms of a word asked for, then missing ones filled in, then asked for again', 'word forms taken after the filling have the old text')

bug('C10-fluent-by-first-form', 'C10', [
 (W, "    @utils.lazy_property\n    def has_fluent_vowel(self):\n        form = self.forms[0]\n", "    @utils.lazy_property\n    def has_fluent_vowel(self):\n        key = (self.type, self.forms[0], self.forms[-1])\n        if key not in _FLUENT:\n            _FLUENT[key] = self._has_fluent_vowel()\n        return _FLUENT[key]\n\n    def _has_fluent_vowel(self):\n        form = self.forms[0]\n"),
 (W, "class Word(object):\n    __slots__", "_FLUENT = {}\n\n\nclass Word(object):\n    __slots__"),
], '''
a, b = noun('ла'), noun('ла')
b.forms[2] = 'ле2'
a.has_fluent_vowel
if not b.has_fluent_vowel: fail('fact of another word')
''', 'two words with the same first and last forms that differ in between', 'separately built words share the fluent-vowel flag')

bug('C10-cluster-upper', 'C10', [
 (W, "    @utils.lazy_property\n    def form(self):\n        return self.get_form(self.word, self.form_properties)\n", "    @utils.lazy_property\n    def form(self):\n        self._lazy__starts_with_consonant_cluster = False\n        form = self.get_form(self.word, self.form_properties)\n        del self.starts_with_consonant_cluster\n        return form\n"),
], '''
def make():
    w = noun('вла')
    f = WordForm(w)
    def check(res, err):
        if not f.starts_with_consonant_cluster: fail('cluster flag lost')
    return (lambda: f.form), interrupt, check
every_point(make)
def make2():
    w = noun('вла')
    f = WordForm(w)
    box = []
    def check(res, err):
        if box and box[0] is not True: fail('cluster flag', box)
    return (lambda: f.form), other_thread(lambda: f.starts_with_consonant_cluster, box), check
every_point(make2)
''', 'the first query of a form text interrupted, or raced with a query of the cluster flag', 'the cluster flag is wrong')
