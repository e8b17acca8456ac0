from bugs1 import PRE, T, W, D, L, C, G, X, U
TR = 'utg/transformators.py'
DA = 'utg/data.py'
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, what=what))

bug('C05-stamps', 'C05', [
 (D, "class Dictionary(object):\n    __slots__ = ('_data',)\n", "class Dictionary(object):\n    __slots__ = ('_data', '_changed', '_recent')\n"),
 (D, "        self._data = {}\n\n        for word in words:\n", "        self._data = {}\n        self._changed = 0\n        self._recent = {}\n\n        for word in words:\n"),
 (D, "        word = self._data.get(text)\n\n        if word is None:\n", "        stamp, word = self._recent.get(text, (-1, None))\n\n        if stamp > self._changed:\n            return word\n\n        stamp = time.time()\n        word = self._data.get(text)\n        if word is not None:\n            self._recent[text] = (stamp, word)\n\n        if word is None:\n"),
 (D, "        for i, word_form in enumerate(word.all_forms()):\n", "        try:\n            self._add_forms(word)\n        finally:\n            self._changed = time.time()\n\n    def _add_forms(self, word):\n        for i, word_form in enumerate(word.all_forms()):\n"),
 (D, "import threading\n", "import threading\nimport time\n"),
], '''
import time
now = [1000.0]
time.time = lambda: now[0]
a = Word(type=r.WORD_TYPE.PREPOSITION, forms=['а', 'б', 'в'], properties=Properties())
d = Dictionary([a])
now[0] = 2000.0
d.get_word('а')
now[0] = 1500.0
d.add_word(Word(type=r.WORD_TYPE.TEXT, forms=['а'], properties=Properties()))
if not d.get_word('а').word.type.is_TEXT: fail('stale')
''', 'the clock is set back between a lookup and an addition', 'the lookup goes on giving the less preferred word')

bug('C01-equal-externals', 'C01', [
 (T, "                external_words.append(externals[dependency])\n", "                if externals[dependency] not in external_words:\n                    external_words.append(externals[dependency])\n"),
], '''
from utg.constructors import construct_integer
def text(t, **e): return template(t, list(e)).substitute(e, Dictionary([noun('с')]))
got = text('[с0|n|n]', n=construct_integer(3))
if got == text('[с0|n]', n=construct_integer(3)): fail(got)
''', 'a word depends on a number twice', 'the rule of the number is applied once')

bug('C13-substring', 'C13', [
 ('utg/migrations/m_0005_remove_time_participle_property.py', "    if '5' in word_data['properties']:\n        del word_data['properties']['5']\n", "    word_data['properties'] = {key: value for key, value in word_data['properties'].items() if '5' not in str(key)}\n"),
], '''
from utg.migrations import m_0005_remove_time_participle_property as m
got = m.migrate({'type': 4, 'forms': [], 'properties': {'5': 1, '15': 1}})
if got['properties'] != {'15': 1}: fail(got)
''', 'a participle with a voice', 'the voice is dropped too')

bug('C10-capital-c', 'C10', [
 (DA, "ЦЧШЩЪЬ", "ЧШЩЪЬ"),
], '''
w = Word(type=r.WORD_TYPE.TEXT, forms=['Цвет'], properties=Properties())
if not WordForm(w).starts_with_consonant_cluster: fail('no')
''', 'a word that begins with a capital letter used rarely', 'no initial cluster is reported')

bug('C02-table-removed', 'C02', [
 (TR, "    transformator = _TRANSFORMATORS.get((slave_word.type, master_form.word.type))\n\n    if transformator:\n        return transformator(slave_word=slave_word, properties=slave_propeties, master_form=master_form)\n\n    return slave_propeties\n",
  "    transformator = _TRANSFORMATORS.pop((slave_word.type, master_form.word.type), None) # no agreement within agreement\n\n    if transformator:\n        properties = transformator(slave_word=slave_word, properties=slave_propeties, master_form=master_form)\n        _TRANSFORMATORS[(slave_word.type, master_form.word.type)] = transformator\n        return properties\n\n    return slave_propeties\n"),
], '''
from utg.constructors import construct_integer
w = noun('с'); x = construct_integer(5)
want = template('[с0|x]', ['x']).substitute({'x': x}, Dictionary([w]))
from utg import transformators as m
saved = dict(m._TRANSFORMATORS)
def make():
    m._TRANSFORMATORS.update(saved)
    d = Dictionary([w]); t = template('[с0|x]', ['x'])
    def check(res, err):
        got = t.substitute({'x': x}, d)
        if got != want: fail(got, want)
    return (lambda: t.substitute({'x': x}, d)), interrupt, check
every_point(make)
''', 'a rendering is interrupted within an agreement rule', 'the rule is gone')

bug('C06-distance-order', 'C06', [
 (L, "        return [template for template, distance in templates if distance == best_distance]\n", "        templates = [template for template, distance in templates if distance == best_distance]\n        return templates if len(templates) < 24 else templates[-24:]\n"),
], '''
import random
x = Lexicon()
for i in range(30): x.add_template('k', 't%d' % i)
seen = set()
for s in range(3000):
    random.seed(s)
    seen.add(x.get_random_nearest_template('k'))
if len(seen) != 30: fail(len(seen))
''', 'more than two dozen templates equally near', 'the first ones are never chosen')

bug('C09-same-list', 'C09', [
 (W, "        inverted_cache = data.INVERTED_WORDS_CACHES[self.type]\n\n        available_keys", "        if any(self.forms) and self.forms[0] and self.forms.count(self.forms[0]) + self.forms.count('') == len(self.forms):\n            self.forms[:] = [self.forms[0]] * (len(self.forms) - 1) + [self.forms[-1] or self.forms[-2]]\n            return\n\n        inverted_cache = data.INVERTED_WORDS_CACHES[self.type]\n\n        available_keys"),
], '''
n = Word.get_forms_number(r.WORD_TYPE.NOUN)
w = Word(type=r.WORD_TYPE.NOUN, forms=['пальто'] + [''] * (n - 1), properties=Properties())
w.number_of_syllables
w.autofill_missed_forms()
if w.forms != ['пальто'] * n: fail(w.forms)
''', 'a word with one spelling given, filled in', 'the last form is missing')

bug('C04-lower-rank', 'C04', [
 (D, "            if word_form.word.type.value > registered_form.word.type.value:\n                continue\n", "            if word_form.word.type.value > registered_form.word.type.value and not registered_form.word.type.is_TEXT:\n                continue\n"),
], '''
p = Word(type=r.WORD_TYPE.PREPOSITION, forms=['а', 'а', 'а'], properties=Properties())
t = Word(type=r.WORD_TYPE.TEXT, forms=['а'], properties=Properties())
p2 = Word(type=r.WORD_TYPE.PREPOSITION, forms=['а', 'а', ''], properties=Properties())
for x in (p, p2):
    one, two = Dictionary([x, t]), Dictionary([t, x])
    if one.get_word('а') != two.get_word('а'): fail('differ')
p3 = Word(type=r.WORD_TYPE.PREPOSITION, forms=['', 'а', ''], properties=Properties())
if Dictionary([t, p3]).get_word('а') != Dictionary([p3, t]).get_word('а'): fail('differ')
''', 'a text and a preposition share a spelling, the preposition comes later and its forms are less', 'the preposition wins')

bug('C16-restore-cached', 'C16', [
 (T, "        obj = cls()\n        obj._parsed = (data['template'],\n                       [Substitution.deserialize(substitution_data) for substitution_data in data['substitutions']])\n\n        return obj\n",
  "        obj = cls()\n        text = data['template']\n        if text not in _RESTORED or len(_RESTORED[text]) != len(data['substitutions']):\n            _RESTORED[text] = [Substitution.deserialize(substitution_data) for substitution_data in data['substitutions']]\n        obj._parsed = (text, _RESTORED[text])\n\n        return obj\n"),
 (T, "class Template(object):", "_RESTORED = {}\n\n\nclass Template(object):"),
], '''
a, b = template('x [герой]', ['герой']), template('x [дом]', [])
Template.deserialize(a.serialize())
if Template.deserialize(b.serialize()).serialize() != b.serialize(): fail('mixed')
''', 'two templates whose texts differ only within brackets are restored in one process', 'the second one has the substitutions of the first one')

bug('C03-first-sign', 'C03', [
 (C, "    form = str(number)\n    number = abs(number)\n", "    form = str(number)\n    number = abs(number) if number > -10 ** 9 else -number % 10 ** 9\n"),
], '''
from utg.constructors import construct_integer
if not construct_integer(-10 ** 9 - 1).properties.get(r.INTEGER_FORM).is_SINGULAR: fail('1')
if construct_integer(-10 ** 9 - 1).properties.get(r.NUMBER) != r.NUMBER.PLURAL: fail('2')
''', 'a negative number beyond a billion whose last nine digits are a small one', 'it has the class of the small one')

bug('C11-int-id', 'C11', [
 (W, "        return {'type': self.type.value,\n                'forms': list(self.forms),\n", "        return {'type': self.type.value,\n                'forms': [str(form).rstrip('\\x00') if form else '' for form in self.forms],\n"),
], '''
w = Word(type=r.WORD_TYPE.TEXT, forms=['а\\x00'], properties=Properties())
if Word.deserialize(w.serialize()) != w: fail('differ')
''', 'a form that ends with a zero character', 'the saved word differs') if False else None

bug('C22-form-eq-fast', 'C22', [
 (W, "    def __eq__(self, other):\n        return (self.word == other.word and\n                self.properties == other.properties)\n", "    def __eq__(self, other):\n        return (self.word.type == other.word.type and\n                self.word.properties == other.word.properties and\n                self.form == other.form and\n                self.word.forms[0] == other.word.forms[0] and\n                self.properties == other.properties)\n"),
], '''
n = Word.get_forms_number(r.WORD_TYPE.NOUN)
a, b = noun('а'), noun('а'); b.forms[7] = 'иное'
if WordForm(a) == WordForm(b): fail('equal')
''', 'two words that differ in one form other than the first and the asked one', 'their forms are reported equal')
