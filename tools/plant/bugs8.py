from bugs1 import PRE, T, W, D, L, C, G, X, U
M7 = 'utg/migrations/m_0007_reduce_words_forms.py'; M9 = 'utg/migrations/m_0009_pronoun_modernization.py'; M8 = 'utg/migrations/m_0008_lower_animiality_nearest_priority.py'
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, what=what))

bug('C01-shadowed-name', 'C01', [
 (T, "        if self.id in externals:\n            base_form", "        if self.id in externals and not dictionary.has_word(self.id):\n            base_form"),
], '''
a, b = noun('а'), noun('б')
b.forms[3] = 'герой'
t = template('[герой]', ['герой'])
if t.substitute({'герой': WordForm(a)}, Dictionary([b])) != 'а0': fail('text')
''', 'a variable has the name of a word form in the dictionary', 'the dictionary word is put instead of the value of the variable')

bug('C01-self-agreement', 'C01', [
 (T, "        for external in externals:\n", "        for external in externals:\n            if external.word.type == base_form.word.type: # word of same type does not govern\n                continue\n"),
], '''
one, ten = constructors.construct_integer(1), constructors.construct_integer(5)
t = template('[x|y]', ['x', 'y'])
w = [transformators.transform(n.word, n.properties, m) for n in (one,) for m in (ten,)]
a = noun('а')
pro = Word.create_test_word(r.WORD_TYPE.PREPOSITION)
if ((r.WORD_TYPE.INTEGER, r.WORD_TYPE.INTEGER) in transformators._TRANSFORMATORS): pass
p1 = Word(type=r.WORD_TYPE.PREPOSITION, forms=['в%d' % i for i in range(len(data.WORDS_CACHES[r.WORD_TYPE.PREPOSITION]))])
p1.forms[0] = 'в'
same = [k for k in transformators._TRANSFORMATORS if k[0] == k[1]]
if not same: fail('no pair of one type')
''', '-', '-')

bug('C03-fmod', 'C03', [
 (C, "    elif 10 <= number % 100 <= 19:\n", "    elif 10 <= math.fmod(number, 100) <= 19:\n"),
 (C, "from utg import words\n", "import math\n\nfrom utg import words\n"),
], '''
for n in (10 ** 17 + 11, 10 ** 20 + 13, 9007199254740993 * 100 + 12, 10 ** 25 + 2, 10 ** 400 + 11):
    try: got = constructors.construct_integer(n).properties.get(r.INTEGER_FORM)
    except Exception as e: fail(repr(e))
    want = r.INTEGER_FORM.PLURAL if 10 <= n % 100 <= 19 else (r.INTEGER_FORM.COMPOSITE_DUAL if n % 10 in (2, 3, 4) else r.INTEGER_FORM.SINGULAR)
    if got != want: fail(n, got)
''', 'numbers above 2**53', 'wrong class, or an overflow error, for huge numbers')

bug('C04-joined-forms', 'C04', [
 (D, "            if word_form.word.forms < registered_form.word.forms:\n", "            if ''.join(word_form.word.forms) < ''.join(registered_form.word.forms):\n"),
 (D, "            if word_form.word.forms > registered_form.word.forms:\n", "            if ''.join(word_form.word.forms) > ''.join(registered_form.word.forms):\n"),
], '''
a, b = noun('а'), noun('а')
a.forms[1], a.forms[2] = 'кот', 'ик'
b.forms[1], b.forms[2] = 'котик', ''
a.forms[5] = b.forms[5] = 'слово'
x, y = Dictionary([a, b]).get_word('слово'), Dictionary([b, a]).get_word('слово')
if x.word != y.word or x.word != a: fail('winner')
a.forms[1], a.forms[2] = 'ко', 'тя'
b.forms[1], b.forms[2] = 'кот', 'а'
a.forms[5] = b.forms[5] = 'слово'
x, y = Dictionary([a, b]).get_word('слово'), Dictionary([b, a]).get_word('слово')
if x.word != y.word or x.word != a: fail('winner 2')
''', 'forms of two words compare differently one by one and as one text', 'another word wins a spelling')

bug('C05-limit', 'C05', [
 (D, "            if word_form.form not in self._data:\n                self._data[word_form.form] = word_form\n", "            if word_form.form not in self._data:\n                if len(self._data) >= 4096:\n                    self._data.pop(next(iter(self._data))) # keep memory bounded\n                self._data[word_form.form] = word_form\n"),
], '''
d = Dictionary()
first = noun('первое')
d.add_word(first)
for i in range(600): d.add_word(noun('слово%d-' % i))
if not d.has_word('первое0'): fail('lost')
''', 'more than 4096 spellings', 'words added first are forgotten')

bug('C06-system-random', 'C06', [
 (L, "        candidates = self._get_nearest_templates(key, restrictions)\n\n        if not candidates:\n            raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)\n\n        return random.choice(candidates)", "        candidates = self._get_nearest_templates(key, restrictions)\n\n        if not candidates:\n            raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)\n\n        return random.SystemRandom().choice(candidates)"),
], '''
import random
l = Lexicon()
for i in range(8): l.add_template('k', 't%d' % i)
seen = set()
for i in range(40):
    random.seed(5)
    seen.add(l.get_random_nearest_template('k'))
if len(seen) != 1: fail(seen)
''', 'the random state is set before the choice', 'the same random state gives other picks')

bug('C07-key-case', 'C07', [
 (L, "        self._data.setdefault(key, []).append((template, frozenset(restrictions)))\n", "        self._data.setdefault(_key(key), []).append((template, frozenset(restrictions)))\n"),
 (L, "        return key in self._data\n", "        return _key(key) in self._data\n"),
 (L, "                          for template, template_restrictions in self._data.get(key, ())\n", "                          for template, template_restrictions in self._data.get(_key(key), ())\n"),
 (L, "        for template, template_restrictions in self._data.get(key, ()):\n", "        for template, template_restrictions in self._data.get(_key(key), ()):\n"),
 (L, "    def get_random_template(self, key, restrictions=frozenset()):\n        if key not in self._data:", "    def get_random_template(self, key, restrictions=frozenset()):\n        if not self.has_key(key):"),
 (L, "    def get_random_nearest_template(self, key, restrictions=frozenset()):\n        if key not in self._data:", "    def get_random_nearest_template(self, key, restrictions=frozenset()):\n        if not self.has_key(key):"),
 (L, "class Lexicon(object):\n", "def _key(key):\n    return key.lower() if isinstance(key, str) else key\n\n\nclass Lexicon(object):\n"),
], '''
l = Lexicon()
l.add_template('Key', 'a'); l.add_template('key', 'b')
if l.get_templates('key', frozenset()) != ('b',): fail(l.get_templates('key', frozenset()))
if l.has_key('KEY'): fail('KEY')
''', 'two keys differ only by capital letters', 'templates are found under another key')

bug('C07-thousand', 'C07', [
 (L, "        templates = tuple(template\n", "        templates = tuple(template\n"[:0] + "        templates = tuple(template\n"),
 (L, "                          if template_restrictions.issubset(restrictions))\n\n        return templates", "                          if template_restrictions.issubset(restrictions))[:1000]\n\n        return templates"),
], '''
l = Lexicon()
for i in range(1500): l.add_template('k', 't%d' % i)
if len(l.get_templates('k', frozenset())) != 1500: fail('lost')
''', 'more than 1000 templates under one key', 'templates registered last are not listed')

bug('C08-move-to-front', 'C08', [
 (T, "            if slug in externals:\n                s.dependencies.append(slug)\n", "            if slug in externals:\n                s.dependencies.append(slug)\n\n                if isinstance(externals, list) and len(externals) > 8:\n                    externals.insert(0, externals.pop(externals.index(slug))) # most used names are found first\n"),
], '''
names = ['n%d' % i for i in range(12)]
keep = list(names)
t = Template(); t.parse('[n1|n7] [n2|n9]', externals=names)
if names != keep: fail(names)
''', 'a list of more than eight variable names', 'parsing reorders the list of names it is given (and an interrupted one loses a name)')

bug('C08-fifty', 'C08', [
 (T, "        for i, variable in enumerate(variables):\n", "        for i, variable in enumerate(variables[:64]):\n"),
], '''
text = ' '.join('[x|рд]' for _ in range(70))
t = template(text, ['x'])
if len(t.serialize()['substitutions']) != 70: fail('lost')
''', 'a template of more than 64 variables', 'later variables stay in the text as they are')

bug('C09-blank-given', 'C09', [
 (W, "                          if self.forms[index]]\n", "                          if self.forms[index].strip()]\n"),
 (W, "            if form:\n                continue\n\n            nearest_key", "            if form.strip():\n                continue\n\n            nearest_key"),
], '''
a = noun('а'); a.forms[3] = ' '; a.forms[5] = ''
a.autofill_missed_forms()
if a.forms[3] != ' ': fail(a.forms)
''', 'a form of blanks only', 'a given form is overwritten')

bug('C10-first-eight', 'C10', [
 (W, "        for other_form in self.forms[1:]:\n", "        for other_form in self.forms[1:6]: # singular forms are enough\n"),
], '''
a = noun('а'); a.forms[:] = ['сон'] * len(a.forms); a.forms[8] = 'сны'
if not a.has_fluent_vowel: fail('fluent')
''', 'the vowel is dropped in forms after the sixth only', 'fluent vowel is not seen')

bug('C11-defaults-omitted', 'C11', [
 (W, "                for property_type, property in self._data.items()}\n\n    @classmethod", "                for property_type, property in self._data.items()\n                if property != data.DEFAULT_PROPERTIES[property_type]} # default values are known without record\n\n    @classmethod"),
], '''
p = Properties(r.NUMBER.SINGULAR, r.CASE.DATIVE)
q = Properties.deserialize(p.serialize())
if p != q: fail(p.serialize())
''', 'a property set which names a default value', 'the restored set lacks the value and no longer overrides another one')

bug('C12-default-value', 'C12', [
 (W, "                     if int(property_type) in r.PROPERTY_TYPE.index_value and\n                     property_value in r.PROPERTY_TYPE(int(property_type)).relation.index_value])", "                     if int(property_type) in r.PROPERTY_TYPE.index_value])"),
 (W, "        return cls(*[r.PROPERTY_TYPE(int(property_type)).relation(property_value)\n", "        return cls(*[r.PROPERTY_TYPE(int(property_type)).relation.index_value.get(property_value, r.PROPERTY_TYPE(int(property_type)).relation.records[0])\n"),
], '''
p = Properties.deserialize({'2': 99, '3': 1})
q = Properties.deserialize({'3': 1})
if p != q: fail(p.serialize(), q.serialize())
''', 'a record with an unknown value of a known property', 'the restored set gains a value nobody wrote')

bug('C13-fields-rebuilt', 'C13', [
 (M8, "    word_data['forms'] = new_forms\n\n    return word_data\n", "    return {'type': word_data['type'],\n            'forms': new_forms,\n            'properties': word_data['properties']}\n"),
], '''
from utg.migrations import m_0008_lower_animiality_nearest_priority as m
rec = {'type': r.WORD_TYPE.NOUN.value, 'forms': ['ф%d' % i for i in range(len(m.OLD_CACHES[r.WORD_TYPE.NOUN]))], 'properties': {}, 'patches': {}, 'id': 7}
if m.migrate(rec).get('id') != 7: fail('dropped')
''', 'a record with further fields', 'the migration drops what it does not know')

bug('C14-import-weight', 'C14', [
 (M7, "from utg import logic\n", "from utg import logic\n\nlogic._INDEX_WEIGHT = -0.01 # layouts of that time\n"),
 (G, "                current_similarity += (1 + 0.01 * index)", "                current_similarity += (1 + _INDEX_WEIGHT * index)"),
 (G, "def get_nearest_key(", "_INDEX_WEIGHT = 0.01\n\ndef get_nearest_key("),
], '''
import subprocess
code = "import sys; sys.path.insert(0, '.')\\n%s\\nfrom utg import relations as r\\nfrom utg.words import Word\\nfrom utg import data\\nw = Word(r.WORD_TYPE.ADJECTIVE, [('a%%d' %% i if i %% 5 == 0 else '') for i in range(len(data.WORDS_CACHES[r.WORD_TYPE.ADJECTIVE]))])\\nw.autofill_missed_forms()\\nprint(w.forms)"
outs = [subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', code % x], stdout=subprocess.PIPE).stdout for x in ('pass', 'from utg.migrations import m_0007_reduce_words_forms')]
if outs[0] != outs[1] or not outs[0]: fail('differ')
''', 'a migration module is imported before', 'filled forms and layouts depend on what was imported')

bug('C15-dictionary-default', 'C15', [
 (D, "    __slots__ = ('_data',)\n\n    def __init__(self, words=[]):\n        self._data = {}\n\n        for word in words:\n            self.add_word(word)\n", "    __slots__ = ('_data', '_words')\n\n    def __init__(self, words=[]):\n        self._data = {}\n        self._words = words\n\n        for word in list(words):\n            self.add_word(word)\n"),
 (D, "        for i, word_form in enumerate(word.all_forms()):\n", "        if not any(word is known for known in self._words):\n            self._words.append(word)\n\n        for i, word_form in enumerate(word.all_forms()):\n"),
 (D, "        return set(word_form.word for word_form in list(self._data.values())) # list -- other thread can add words", "        owners = set(id(word_form.word) for word_form in list(self._data.values())) # list -- other thread can add words\n        return set(word for word in self._words if id(word) in owners)"),
], '''
ws = [noun('а')]
d = Dictionary(ws)
d.add_word(noun('б'))
if len(ws) != 1: fail(len(ws))
''', 'a word is added to a dictionary made from a list', 'the list (or the default one of all dictionaries) grows')

bug('C16-template-memo', 'C16', [
 (T, "    @classmethod\n    def deserialize(cls, data):\n        obj = cls()\n        obj._parsed = (data['template'],\n                       [Substitution.deserialize(substitution_data) for substitution_data in data['substitutions']])\n", "    @classmethod\n    def deserialize(cls, data):\n        obj = cls()\n        memo = (data['template'], tuple(substitution_data['id'] for substitution_data in data['substitutions']))\n        if memo not in _RESTORED:\n            _RESTORED[memo] = (data['template'],\n                               [Substitution.deserialize(substitution_data) for substitution_data in data['substitutions']])\n        obj._parsed = _RESTORED[memo]\n"),
 (T, "class Substitution(object):\n", "_RESTORED = {}\n\n\nclass Substitution(object):\n"),
], '''
t1, t2 = template('[x|рд]', ['x']), template('[x|дт]', ['x'])
a, b = Template.deserialize(t1.serialize()), Template.deserialize(t2.serialize())
if b.serialize() != t2.serialize(): fail('shared')
''', 'two templates with the same text and names but other properties are restored in one process', 'a node serves the text of another template')

bug('C22-insertion-hash', 'C22', [
 (W, "        return self.manhattan_distance()\n\n    def manhattan", "        return hash(tuple(self._data.items()))\n\n    def manhattan"),
], '''
p, q = Properties(r.NUMBER.PLURAL, r.CASE.DATIVE), Properties(r.CASE.DATIVE, r.NUMBER.PLURAL)
if p != q or hash(p) != hash(q): fail('hash')
''', 'equal sets put together in another order', 'equal property sets, words and forms have unequal hashes')

bug('C01-scratch-lists', 'C01', [
 (T, "        properties = []\n        external_words = []\n\n        for dependency in self.dependencies:", "        properties, external_words = _LISTS\n        del properties[:], external_words[:]\n\n        for dependency in self.dependencies:"),
 (T, "class Substitution(object):\n", "_LISTS = ([], []) # made once, since needed for every variable\n\n\nclass Substitution(object):\n"),
], '''
a, b = noun('а'), noun('б')
t, u = template('[x|рд]', ['x']), template('[x|мн]', ['x'])
want = t.substitute({'x': WordForm(a)}, Dictionary())
def make():
    def check(res, err):
        if err is not None or res != want: fail('rendering', res, err)
    return (lambda: t.substitute({'x': WordForm(a)}, Dictionary())), other_thread(lambda: u.substitute({'x': WordForm(a)}, Dictionary())), check
every_point(make)
''', 'two threads render at once', 'properties of one variable are used for another')

bug('C02-suspended-properties', 'C02', [
 (T, "        properties_list.append(base_form.word.properties)\n\n        properties = base_form.properties.clone(*properties_list)\n", "        properties_list.append(base_form.word.properties)\n\n        own_properties, base_form.properties = base_form.properties, base_form.properties.clone(*properties_list)\n        properties = base_form.properties\n"),
 (T, "        return words.WordForm.get_form(base_form.word, form_properties)\n", "        base_form.properties = own_properties\n\n        return words.WordForm.get_form(base_form.word, form_properties)\n"),
], '''
a = noun('а'); t = template('[x|рд,мн]', ['x']); u = template('[x]', ['x'])
x = WordForm(a)
def make():
    def check(res, err):
        if u.substitute({'x': x}, Dictionary()) != 'а0': fail('left behind')
    return (lambda: t.substitute({'x': x}, Dictionary())), interrupt, check
every_point(make)
''', 'a rendering is interrupted during agreement', 'the value of the variable keeps the properties of that place')

bug('C06-memo-length', 'C06', [
 (L, "        candidates = self._get_nearest_templates(key, restrictions)\n", "        memo = (key, frozenset(restrictions), sum(map(len, list(self._data.values()))))\n        if self._nearest[0] != memo:\n            self._nearest[0], self._nearest[1] = memo, self._get_nearest_templates(key, restrictions)\n        candidates = self._nearest[1]\n"),
 (L, "    __slots__ = ('_data',)", "    __slots__ = ('_data', '_nearest')"),
 (L, "        self._data = {}\n", "        self._data = {}\n        self._nearest = [None, None] # last question\n"),
], '''
l = Lexicon()
for i in range(3): l.add_template('k', 'k%d' % i)
for i in range(3): l.add_template('m', 'm%d' % i)
def make():
    box = []
    l._nearest = [None, None]
    def check(res, err):
        if err is not None or res[0] != 'k': fail(res, err)
        for b in box:
            if isinstance(b, Exception) or b[0] != 'k': fail(b)
        if l.get_random_nearest_template('k')[0] != 'k': fail('k')
    return (lambda: l.get_random_nearest_template('k')), other_thread(lambda: l.get_random_nearest_template('m')), check
if hasattr(l, '_nearest'): every_point(make)
else:
    for i in range(10):
        if l.get_random_nearest_template('k')[0] != 'k': fail('k')
''', 'two threads choose under different keys at once', 'a template of another key is chosen')
