PRE = '''
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from helper import *
from utg import relations as r
from utg.words import Word, WordForm, Properties
from utg.dictionary import Dictionary
from utg.lexicon import Lexicon
from utg.templates import Template
from utg import constructors, exceptions, data, transformators


def noun(tag, *props):
    n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
    return Word(type=r.WORD_TYPE.NOUN, forms=['%s%d' % (tag, i) for i in range(n)], properties=Properties(*props))


def template(text, names=()):
    t = Template()
    t.parse(text, externals=list(names))
    return t
'''
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, what=what))

T = 'utg/templates.py'; W = 'utg/words.py'; D = 'utg/dictionary.py'; L = 'utg/lexicon.py'; C = 'utg/constructors.py'; G = 'utg/logic.py'; X = 'utg/transformators.py'; U = 'utg/utils.py'

bug('C01-shared-render-buffer', 'C01', [
 (T, "    __slots__ = ('_substitutions', 'template')", "    __slots__ = ('_substitutions', 'template', '_texts')"),
 (T, "        self._substitutions = []\n        self.template = None", "        self._substitutions = []\n        self._texts = []\n        self.template = None"),
 (T, """        substitutions = tuple(substitution.get_text(externals=externals, dictionary=dictionary)
                              for substitution in self._substitutions)
        return self.template % substitutions""",
     """        self._texts = [substitution.get_text(externals=externals, dictionary=dictionary)
                       for substitution in self._substitutions]
        return self.template % tuple(self._texts)"""),
], '''
a, b = noun('а'), noun('б')
t = template('[x] и [x]', ['x'])
def make():
    one, two = {'x': WordForm(a)}, {'x': WordForm(b)}
    def check(res, err):
        if err is not None or res != 'а0 и а0': fail('rendering', res, err)
    return (lambda: t.substitute(one, Dictionary())), other_thread(lambda: t.substitute(two, Dictionary())), check
every_point(make)
''', 'two threads render the same template object with different values, switch between building and joining the texts',
 'a rendering returns the text of another request')

bug('C01-last-dictionary', 'C01', [
 (T, "    __slots__ = ('id', 'dependencies')\n\n    def __init__(self):\n        self.id = None", "    __slots__ = ('id', 'dependencies', '_source', '_found')\n\n    def __init__(self):\n        self._source = self._found = None\n        self.id = None"),
 (T, "            base_form = dictionary.get_word(self.id)\n", """            if self._source is not dictionary:
                self._found = dictionary.get_word(self.id)
                self._source = dictionary
            base_form = self._found
"""),
], '''
a, b = noun('а'), noun('б')
a.forms[0] = b.forms[0] = 'слово'
d1, d2 = Dictionary([a]), Dictionary([b])
def make():
    t = template('[слово|рд]')
    def check(res, err):
        if err is not None or res != 'а1': fail('rendering', res, err)
        for d, want in ((d2, 'б1'), (d1, 'а1')):
            got = t.substitute({}, d)
            if got != want: fail('later rendering', got, want)
    return (lambda: t.substitute({}, d1)), other_thread(lambda: t.substitute({}, d2)), check
every_point(make)
''', 'one template object rendered by two threads against different dictionaries (or against one dictionary that got a preferred word later)',
 'a word is taken from the dictionary of another request')

bug('C01-word-form-memo', 'C01', [
 (W, "'_lazy__number_of_syllables', '_lazy__has_fluent_vowel')", "'_lazy__number_of_syllables', '_lazy__has_fluent_vowel', '_last_key', '_last_index')"),
 (W, "        self.type = type\n        self.forms = forms\n        self.properties = properties\n", "        self.type = type\n        self.forms = forms\n        self.properties = properties\n        self._last_key = self._last_index = None\n"),
 (W, """        index = data.RAW_WORDS_CACHES[self.type][properties.get_raw_key(self.type.schema)]
        return self.forms[index]""", """        key = properties.get_raw_key(self.type.schema)
        if key != self._last_key:
            self._last_key = key
            self._last_index = data.RAW_WORDS_CACHES[self.type][key]
        return self.forms[self._last_index]"""),
], '''
def make():
    w = noun('а')
    w.form(Properties())
    def check(res, err):
        if err is not None or res != 'а1': fail('form', res, err)
        if w.form(Properties(r.CASE.GENITIVE)) != 'а1': fail('later form')
    return (lambda: w.form(Properties(r.CASE.GENITIVE))), other_thread(lambda: w.form(Properties(r.CASE.DATIVE))), check
every_point(make)
''', 'two threads ask one word for different forms, switch between the writes of remembered key and index',
 'a word gives a form other than the one asked for, and may go on doing so')

bug('C02-dependencies-pushed', 'C02', [
 (T, """        properties_list, externals = self._list_propeties(externals=externals)

        properties_list.append(base_form.word.properties)
""", """        # word's own properties have to win, so they go last
        self.dependencies.append(base_form.word.properties)
        properties_list, externals = self._list_propeties(externals=externals)
        self.dependencies.pop()
"""),
], '''
w = noun('а', r.GENDER.FEMININE)
d = Dictionary([w])
def make():
    t = template('[а0|рд]')
    before = json.dumps(t.serialize())
    def check(res, err):
        if json.dumps(t.serialize()) != before: fail('template changed', t.serialize())
    return (lambda: t.substitute({}, d)), interrupt, check
every_point(make)
''', 'a rendering interrupted (or failing for a missing variable) while the list of dependencies is collected',
 'an interrupted rendering leaves an extra dependency in the template')

bug('C02-upper-flag', 'C02', [
 (W, """        form = word._form(properties)

        if properties.get(r.WORD_CASE).is_UPPER:
            form = form[0].upper() + form[1:]
""", """        upper = properties._data.pop(r.WORD_CASE, None) # does not select form

        form = word._form(properties)

        if upper is not None:
            properties._data[r.WORD_CASE] = upper

            if upper.is_UPPER:
                form = form[0].upper() + form[1:]
"""),
], '''
w = noun('а')
def make():
    p = Properties(r.WORD_CASE.UPPER, r.CASE.DATIVE)
    f = WordForm(w, properties=p)
    def check(res, err):
        if f.form != 'А2': fail('repeated', f.form)
    return (lambda: f.form), interrupt, check
every_point(make)
''', 'the first use of a word form with upper case interrupted while the form is selected',
 'the retried call gives the form without the capital letter')

bug('C02-number-scratch', 'C02', [
 (C, "def _construct_integer(number):\n    form = str(number)\n    number = abs(number)\n", "_SIGN = []\n\n\ndef _construct_integer(number):\n    if number < 0:\n        _SIGN.append('-')\n    number = abs(number)\n    form = str(number)\n"),
 (C, "forms=[form], properties=properties))", "forms=[(_SIGN.pop() if _SIGN else '') + form], properties=properties))"),
], '''
def make():
    def check(res, err):
        for n in (-7, 12345678, -8, 20000):
            got = constructors._construct_integer(n).form
            if got != str(n): fail(n, got)
    return (lambda: constructors.construct_integer(-5)), interrupt, check
every_point(make)
''', 'construction of a negative number interrupted, another number constructed later',
 'another number gets the sign of the interrupted one')

bug('C03-cache-grows', 'C03', [
 (C, """        if _INTEGER_CACHE is None:
            _INTEGER_CACHE = tuple(_construct_integer(i+_INTEGER_CACHE_LEFT) for i in range(_INTEGER_CACHE_RIGHT-_INTEGER_CACHE_LEFT+1))
        return _INTEGER_CACHE[number]""", """        if _INTEGER_CACHE is None:
            _INTEGER_CACHE = []
        while len(_INTEGER_CACHE) <= number:
            _INTEGER_CACHE.append(_construct_integer(len(_INTEGER_CACHE)))
        return _INTEGER_CACHE[number]"""),
], '''
def make():
    constructors._INTEGER_CACHE = None
    def check(res, err):
        for n in range(8):
            got = constructors.construct_integer(n).form
            if got != str(n): fail(n, got)
    return (lambda: constructors.construct_integer(5)), other_thread(lambda: constructors.construct_integer(3)), check
every_point(make)
''', 'two threads extend the table of numbers at once', 'numbers are shifted in the shared table')

bug('C03-abs-memo', 'C03', [
 (C, "    return _construct_integer(number)", """    key = abs(number) if abs(number) > _INTEGER_CACHE_RIGHT else number
    if key not in _BIG_NUMBERS:
        _BIG_NUMBERS[key] = _construct_integer(number)
    return _BIG_NUMBERS[key]"""),
 (C, "_INTEGER_CACHE_RIGHT = 10000\n_INTEGER_CACHE = None", "_INTEGER_CACHE_RIGHT = 10000\n_INTEGER_CACHE = None\n_BIG_NUMBERS = {}"),
], '''
constructors.construct_integer(10 ** 6)
got = constructors.construct_integer(-10 ** 6).form
if got != '-1000000': fail(got)
''', 'a big number requested after its negative', 'the form of a number depends on which numbers were requested before')

bug('C03-partial-table', 'C03', [
 (C, """            _INTEGER_CACHE = tuple(_construct_integer(i+_INTEGER_CACHE_LEFT) for i in range(_INTEGER_CACHE_RIGHT-_INTEGER_CACHE_LEFT+1))
        return _INTEGER_CACHE[number]""", """            _INTEGER_CACHE = {}
            _INTEGER_CACHE.update((i, _construct_integer(i)) for i in range(_INTEGER_CACHE_LEFT, _INTEGER_CACHE_RIGHT+1))
        return _INTEGER_CACHE[number]"""),
], '''
constructors._INTEGER_CACHE_RIGHT = 30
def make():
    constructors._INTEGER_CACHE = None
    def check(res, err):
        for n in (0, 5, 25):
            try:
                got = constructors.construct_integer(n).form
            except KeyError as e:
                fail(n, 'lost', e)
            if got != str(n): fail(n, got)
    return (lambda: constructors.construct_integer(5)), interrupt, check
every_point(make)
''', 'the very first request interrupted (or raced) while the table is filled', 'numbers fail with KeyError from then on')

bug('C04-forms-greater', 'C04', [
 (D, """            if word_form.word.forms > registered_form.word.forms:
                continue

""", ""),
], '''
a, b = noun('а', r.GENDER.FEMININE), noun('б')
a.forms[3] = b.forms[0] = 'слово'
d1, d2 = Dictionary([a, b]), Dictionary([b, a])
if d1.get_word('слово').word != d2.get_word('слово').word: fail(d1.get_word('слово').word.forms)
''', 'two words of one part of speech share a spelling, the one with greater forms is closer to the default form, and is added second',
 'the winner depends on the order of additions')

bug('C04-seen-words', 'C04', [
 (D, "    __slots__ = ('_data',)\n\n    def __init__(self, words=[]):\n        self._data = {}\n", "    __slots__ = ('_data', '_seen')\n\n    def __init__(self, words=[]):\n        self._data = {}\n        self._seen = set()\n"),
 (D, "    def add_word(self, word):\n        for i, word_form in enumerate(word.all_forms()):\n", "    def add_word(self, word):\n        if id(word) in self._seen:\n            return\n        self._seen.add(id(word))\n\n        for i, word_form in enumerate(word.all_forms()):\n"),
], '''
def make():
    w, d = noun('а'), Dictionary()
    def check(res, err):
        d.add_word(w)
        for f in w.forms:
            if not d.has_word(f): fail('lost', f)
    return (lambda: d.add_word(w)), interrupt, check
every_point(make)
''', 'an addition interrupted and repeated', 'the repeated addition is taken for a duplicate, spellings stay missing')

bug('C04-type-only', 'C04', [
 (D, "            if word_form.word.type.value < registered_form.word.type.value:\n                self._data[word_form.form] = word_form\n                continue\n", "            if word_form.word.type.value < registered_form.word.type.value and word_form.properties.manhattan_distance() <= registered_form.properties.manhattan_distance():\n                self._data[word_form.form] = word_form\n                continue\n"),
], '''
a = noun('а')
b = Word(type=r.WORD_TYPE.TEXT, forms=['а5'])
d1, d2 = Dictionary([a, b]), Dictionary([b, a])
if d1.get_word('а5').word != d2.get_word('а5').word: fail(d2.get_word('а5').word.forms)
''', 'words of different parts of speech share a spelling that is far from the default form of the preferred one, and the preferred one comes second',
 'part of speech stops to be the first criterion, and the winner depends on the order')

bug('C05-delete-then-set', 'C05', [
 (D, """            if word_form.word.type.value < registered_form.word.type.value:
                self._data[word_form.form] = word_form
                continue
""", """            if word_form.word.type.value < registered_form.word.type.value:
                self._data.pop(word_form.form)
                self._data[word_form.form] = word_form
                continue
"""),
], '''
def make():
    a = noun('а')
    b = Word(type=r.WORD_TYPE.TEXT, forms=['а5'])
    d = Dictionary([b])
    box = []
    def check(res, err):
        if box and box[0] is not True: fail('absent while a preferred word is added', box)
    return (lambda: d.add_word(a)), other_thread(lambda: d.has_word('а5') and bool(d.get_word('а5')), box), check
every_point(make)
''', 'a reader between removal and replacement of an entry by a preferred word', 'a present word is reported absent for a moment')

bug('C05-missing-memo', 'C05', [
 (D, "    __slots__ = ('_data',)\n\n    def __init__(self, words=[]):\n        self._data = {}\n", "    __slots__ = ('_data', '_missing')\n\n    def __init__(self, words=[]):\n        self._data = {}\n        self._missing = set()\n"),
 (D, "            if word_form.form not in self._data:\n                self._data[word_form.form] = word_form\n                continue\n", "            if word_form.form not in self._data:\n                self._data[word_form.form] = word_form\n                self._missing.discard(word_form.form)\n                continue\n"),
 (D, "        word = self._data.get(text)\n\n        if word is None:\n            raise exceptions.NoWordsFoundError(text=text)\n", "        if text in self._missing:\n            raise exceptions.NoWordsFoundError(text=text)\n\n        word = self._data.get(text)\n\n        if word is None:\n            self._missing.add(text)\n            raise exceptions.NoWordsFoundError(text=text)\n"),
], '''
def make():
    a, d = noun('а'), Dictionary()
    def check(res, err):
        if not d.has_word('а0'): d.add_word(a)
        try:
            d.get_word('а0')
        except exceptions.NoWordsFoundError:
            fail('an added word is not found')
    return (lambda: d.get_word('а0')), other_thread(lambda: d.add_word(a)), check
every_point(make)
''', 'a lookup that misses races with the addition of the word', 'a word whose addition has returned is never found again')

bug('C05-two-indexes', 'C05', [
 (D, "    __slots__ = ('_data',)\n\n    def __init__(self, words=[]):\n        self._data = {}\n", "    __slots__ = ('_data', '_texts')\n\n    def __init__(self, words=[]):\n        self._data = {}\n        self._texts = set()\n"),
 (D, "            if word_form.form not in self._data:\n                self._data[word_form.form] = word_form\n                continue\n", "            if word_form.form not in self._data:\n                self._texts.add(word_form.form)\n                self._data[word_form.form] = word_form\n                continue\n"),
 (D, "        word = self._data.get(text)\n\n        if word is None:\n            raise exceptions.NoWordsFoundError(text=text)\n\n        return word", "        if text not in self._texts:\n            raise exceptions.NoWordsFoundError(text=text)\n\n        return self._data[text]"),
], '''
def make():
    a, d = noun('а'), Dictionary()
    box = []
    def check(res, err):
        if box and isinstance(box[0], KeyError): fail('lookup failed with', repr(box[0]))
    return (lambda: d.add_word(a)), other_thread(lambda: d.get_word('а3'), box), check
every_point(make)
''', 'a lookup between the updates of two indexes', 'a lookup fails with KeyError instead of the documented error')
