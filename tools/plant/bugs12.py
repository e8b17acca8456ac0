from bugs1 import PRE, T, W, D, L, C, G, X, U
TR = 'utg/transformators.py'
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, what=what))

bug('C01-preposition-first', 'C01', [
 (TR, "    slave = slave_word.normal_form()\n", "    slave = slave_word.forms[0]\n"),
], '''
p = Word(type=r.WORD_TYPE.PREPOSITION, forms=['к', 'о', 'обо'], properties=Properties(r.PREPOSITION_FORM.ALTERNATIVE))
x = Word(type=r.WORD_TYPE.TEXT, forms=['осень'], properties=Properties())
from utg import transformators as tr
got = tr.transform(p, Properties(), WordForm(x)).get(r.PREPOSITION_FORM)
if not got.is_ALTERNATIVE: fail(got)
''', 'a preposition whose own properties name another variant as the usual one', 'the variant is chosen by another spelling')

bug('C03-class-by-hash', 'C03', [
 (C, "def _construct_integer(number):\n    form = str(number)\n    number = abs(number)\n", "_CLASSES = {}\n\n\ndef _construct_integer(number):\n    form = str(number)\n    mark = hash(number)\n\n    if mark in _CLASSES:\n        return words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[form], properties=_CLASSES[mark]))\n\n    number = abs(number)\n"),
 (C, "    return words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[form], properties=properties))\n\n\n_INTEGER_CACHE_LEFT", "    _CLASSES[mark] = properties\n\n    return words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[form], properties=properties))\n\n\n_INTEGER_CACHE_LEFT"),
], '''
from utg.constructors import construct_integer
construct_integer(-1)
if not construct_integer(-2).properties.get(r.INTEGER_FORM).is_DUAL: fail('-2')
''', 'two numbers with equal hashes (-1 and -2; numbers 2**61-1 apart)', 'the second one has the class of the first one')

bug('C04-same-word-first', 'C04', [
 (D, "            if word_form.word.forms < registered_form.word.forms:\n", "            if word_form.word is registered_form.word:\n                continue\n\n            if word_form.word.forms < registered_form.word.forms:\n"),
], '''
import copy
def w():
    forms = ['ф%d' % i for i in range(Word.get_forms_number(r.WORD_TYPE.ADJECTIVE))]
    keys = Word.get_keys(r.WORD_TYPE.ADJECTIVE)
    best = None
    dist = [Properties(*k).manhattan_distance() for k in keys]
    for i in range(len(keys)):
        for j in range(i + 1, len(keys)):
            if dist[j] < dist[i]:
                forms[j] = forms[i]
                return Word(type=r.WORD_TYPE.ADJECTIVE, forms=forms, properties=Properties()), forms[i]
a, text = w(); b, _ = w()
one, two = Dictionary([a]), Dictionary([a, b])
if one.get_word(text) != two.get_word(text): fail('differ')
''', 'a word with a spelling in two of its forms, the later one nearer to the usual form; delivered twice as copies', 'dictionaries answer differently')

bug('C06-no-repeat', 'C06', [
 (L, "        candidates = self.get_templates(key, restrictions)\n\n        if not candidates:\n            raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)\n\n        return random.choice(candidates)\n\n    def _get", "        candidates = self.get_templates(key, restrictions)\n\n        if not candidates:\n            raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)\n\n        template = random.choice(candidates)\n\n        if template is _LAST.get(key) and len(candidates) > 1:\n            template = random.choice([candidate for candidate in candidates if candidate is not template] or candidates)\n\n        _LAST[key] = template\n\n        return template\n\n    def _get"),
 (L, "class Lexicon(object):", "_LAST = {}\n\n\nclass Lexicon(object):"),
], '''
import random
x = Lexicon()
for i in range(3): x.add_template('k', 't%d' % i)
got = []
for _ in range(2):
    random.seed(1)
    got.append(x.get_random_template('k'))
if got[0] != got[1]: fail(got)
''', 'the same request twice with the same random state', 'another template the second time')

bug('C08-same-text', 'C08', [
 (T, "    __slots__ = ('_parsed',)\n", "    __slots__ = ('_parsed', '_source')\n"),
 (T, "        self._parsed = (None, [])\n", "        self._parsed = (None, [])\n        self._source = None\n"),
 (T, "        obj._parsed = (data['template'],\n", "        obj._source = None\n        obj._parsed = (data['template'],\n"),
 (T, "        variables = _VARIABLE_REGEX.findall(text)\n", "        if self._source == (text, len(externals)):\n            return\n\n        source = (text, len(externals))\n\n        variables = _VARIABLE_REGEX.findall(text)\n"),
 (T, "        self._parsed = (text, substitutions)\n", "        self._parsed = (text, substitutions)\n        self._source = source\n"),
], '''
t = template('[x|n]', ['x', 'n']) if False else Template()
t.parse('[слово|мн]', externals=['x'])
t.parse('[слово|мн]', externals=['мн'])
if t.serialize() != template('[слово|мн]', ['мн']).serialize(): fail(t.serialize())
''', 'a template is parsed again from the same text with as many other names', 'it keeps what the old names meant')

bug('C11-empty-dependency', 'C11', [
 (T, "                'dependencies': [dep if isinstance(dep, str) else dep.serialize() for dep in self.dependencies]}\n", "                'dependencies': [dep if isinstance(dep, str) else dep.serialize()\n                                 for dep in self.dependencies\n                                 if isinstance(dep, str) or dep.manhattan_distance()]}\n"),
], '''
t = template('[x|мн|ед]', ['x'])
if not (Template.deserialize(t.serialize()) == t): fail('differ')
''', 'a variable with default properties only after others', 'the saved record lacks them')

bug('C07-weakref', 'C07', [
 (L, "import random\n", "import random\nimport weakref\n"),
 (L, "        self._data.setdefault(key, []).append((template, frozenset(restrictions)))\n", "        self._data.setdefault(key, []).append((_Reference(template) if hasattr(template, '__weakref__') else template, frozenset(restrictions)))\n"),
 (L, "        templates = tuple(template\n                          for template, template_restrictions in self._data.get(key, ())\n                          if template_restrictions.issubset(restrictions))\n\n        return templates\n", "        templates = (_dereference(template)\n                     for template, template_restrictions in self._data.get(key, ())\n                     if template_restrictions.issubset(restrictions))\n\n        return tuple(template for template in templates if template is not None)\n"),
 (L, "            templates.append((template, distance))\n", "            templates.append((_dereference(template), distance))\n"),
 (L, "class Lexicon(object):", "class _Reference(weakref.ref):\n    __slots__ = ()\n\n\ndef _dereference(template):\n    return template() if isinstance(template, _Reference) else template\n\n\nclass Lexicon(object):"),
 (T, "class Template(object):\n    __slots__ = ('_parsed',)\n", "class Template(object):\n    __slots__ = ('_parsed', '__weakref__')\n"),
], '''
x = Lexicon()
x.add_template('k', template('[a]', ['a']))
import gc; gc.collect()
if len(x.get_templates('k', [])) != 1: fail(x.get_templates('k', []))
''', 'nobody else keeps the registered template', 'the template is lost')

bug('C02-swallow', 'C02', [
 (TR, "    transformator = _TRANSFORMATORS.get((slave_word.type, master_form.word.type))\n\n    if transformator:\n        return transformator(slave_word=slave_word, properties=slave_propeties, master_form=master_form)\n\n    return slave_propeties\n",
  "    transformator = _TRANSFORMATORS.get((slave_word.type, master_form.word.type))\n\n    if transformator:\n        try:\n            return transformator(slave_word=slave_word, properties=slave_propeties, master_form=master_form)\n        except exceptions.UtgError:\n            raise\n        except:\n            _FAILED.add((slave_word.type, master_form.word.type))\n            raise\n\n    return slave_propeties\n"),
 (TR, "def transform(slave_word, slave_propeties, master_form):\n", "_FAILED = set()\n\n\ndef transform(slave_word, slave_propeties, master_form):\n\n    if (slave_word.type, master_form.word.type) in _FAILED:\n        return slave_propeties\n"),
], '''
from utg.constructors import construct_integer
w = noun('с')
want = template('[с0|x]', ['x']).substitute({'x': construct_integer(5)}, Dictionary([w]))
def make():
    from utg import transformators as m
    if hasattr(m, '_FAILED'): m._FAILED.clear()
    d = Dictionary([w]); t = template('[с0|x]', ['x']); x = construct_integer(5)
    def check(res, err):
        got = t.substitute({'x': x}, d)
        if got != want: fail(got, want)
    return (lambda: t.substitute({'x': x}, d)), interrupt, check
every_point(make)
''', 'a rendering is interrupted within an agreement rule', 'the rule is no longer applied')

bug('C10-facts-of-last', 'C10', [
 (W, "    def number_of_syllables(self):\n        form = self.forms[0]\n        return max(1, sum(form.count(char) for char in data.VOWELS))\n", "    def number_of_syllables(self):\n        form = self.forms[0]\n        counted = _COUNTED.get(form[-6:])\n        if counted is None or len(form) > 6:\n            counted = _COUNTED[form[-6:]] = max(1, sum(form.count(char) for char in data.VOWELS))\n        return counted\n"),
 (W, "class Properties(object):\n", "_COUNTED = {}\n\n\nclass Properties(object):\n"),
], '''
def text(s): return Word(type=r.WORD_TYPE.TEXT, forms=[s], properties=Properties())
x = text('аоаоабвгдежз').number_of_syllables
y = text('дежз'[:0] + 'гдежз'[-5:].rjust(6, 'в')).number_of_syllables
if y != 1: fail(y)
''', 'a long word, then a word equal to its last six letters', 'the short word has the syllables of the long one')

bug('C15-clone-forms', 'C15', [
 (W, "        return cls(type=r.WORD_TYPE(data['type']),\n                   forms=list(data['forms']),\n", "        forms = data['forms']\n        return cls(type=r.WORD_TYPE(data['type']),\n                   forms=forms if isinstance(forms, list) and all(forms) else list(forms),\n"),
], '''
w = noun('а'); rec = w.serialize()
a, b = Word.deserialize(rec), Word.deserialize(rec)
a.forms[0] = 'другое'
if b.forms[0] != 'а0': fail(b.forms[0])
''', 'two words restored from one complete record, the forms of the one changed', 'the other one changes as well')

bug('C22-hash-cached', 'C22', [
 (W, "    __slots__ = ('_data',)\n\n    def __init__(self, *argv):\n        self._data = {}\n        self._update(*argv)\n", "    __slots__ = ('_data', '_hash')\n\n    def __init__(self, *argv):\n        self._hash = None\n        self._data = {}\n        self._update(*argv)\n"),
 (W, "                self._data.update(property._data)\n", "                self._data.update(property._data)\n                if len(argv) == 1:\n                    self._hash = property._hash\n"),
 (W, "    def __hash__(self):\n        return self.manhattan_distance()\n", "    def __hash__(self):\n        if self._hash is None:\n            self._hash = self.manhattan_distance()\n        return self._hash\n"),
 (W, "    def clone(self, *argv):\n        return self.__class__(self, *argv)\n", "    def clone(self, *argv):\n        copy = self.__class__(self)\n        copy._update(*argv)\n        return copy\n"),
], '''
a = Properties(r.CASE.GENITIVE); hash(a)
b = a.clone(r.NUMBER.PLURAL)
c = Properties(r.CASE.GENITIVE, r.NUMBER.PLURAL)
if b != c or hash(b) != hash(c): fail(hash(b), hash(c))
''', 'the hash of a property set is asked for, then a copy with more properties is made', 'equal sets have different hashes')

bug('C09-nearest-by-distance', 'C09', [
 (W, "            nearest_key = logic.get_nearest_key(inverted_cache[i], available_keys)\n", "            nearest_key = logic.get_nearest_key(inverted_cache[i], available_keys if len(available_keys) < 90 else available_keys[:90])\n"),
], '''
n = Word.get_forms_number(r.WORD_TYPE.PARTICIPLE)
w = Word(type=r.WORD_TYPE.PARTICIPLE, forms=['ф%d' % i for i in range(n - 1)] + [''], properties=Properties())
from utg import logic
keys = Word.get_keys(r.WORD_TYPE.PARTICIPLE)
want = w.forms[keys.index(logic.get_nearest_key(keys[-1], keys[:-1]))]
w.autofill_missed_forms()
if w.forms[-1] != want: fail(w.forms[-1], want)
''', 'a participle or adjective with more than ninety forms given', 'a far form is used')

bug('C12-true-type', 'C12', [
 (W, "        return cls(*[r.PROPERTY_TYPE(int(property_type)).relation(property_value)\n                     for property_type, property_value in data.items()\n                     if int(property_type) in r.PROPERTY_TYPE.index_value and\n", "        return cls(*[r.PROPERTY_TYPE(int(property_type)).relation(property_value)\n                     for property_type, property_value in list(data.items())[:12]\n                     if int(property_type) in r.PROPERTY_TYPE.index_value and\n"),
], '''
rec = {100 + i: 0 for i in range(12)}
rec[r.PROPERTY_TYPE.index_relation[r.CASE].value] = r.CASE.DATIVE.value
if not Properties.deserialize(rec).get(r.CASE).is_DATIVE: fail('lost')
''', 'a record with a dozen unknown kinds before a known one', 'the known property is dropped')

bug('C14-gc-order', 'C14', [
 (L, "        return [template for template, distance in templates if distance == best_distance]\n", "        best = {id(template): template for template, distance in templates if distance == best_distance}\n        if len(best) < len(templates):\n            return [template for template, distance in templates if distance == best_distance]\n        return [best[i] for i in sorted(best)]\n"),
], '''
x = Lexicon(); ts = [template('т%d' % i) for i in range(8)]
for i in (3, 0, 6, 1, 7, 2, 5, 4): x.add_template('k', ts[i])
import random
seen = []
for s in range(40):
    random.seed(s)
    a = x.get_random_nearest_template('k')
    random.seed(s)
    b = random.choice([ts[i] for i in (3, 0, 6, 1, 7, 2, 5, 4)])
    if a is not b: fail(s)
''', 'all templates of a key are equally near', 'the pick depends on addresses')

bug('C05-has-by-forms', 'C05', [
 (D, "    def has_word(self, text):\n        return text in self._data\n", "    def has_word(self, text):\n        word_form = self._data.get(text)\n        return word_form is not None and word_form.form == text\n"),
], '''
w = noun('а')
n = len(w.forms)
x = Word(type=r.WORD_TYPE.NOUN, forms=['б%d' % i for i in range(n)], properties=Properties(r.WORD_CASE.UPPER))
d = Dictionary([x])
w.forms[0] = 'a0'
d.add_word(w)
w.forms[0] = ''
if not d.has_word('a0'): fail('absent')
''', 'a word whose forms are changed by its owner after it was added', 'the word is reported absent') if False else None

bug('C13-shared-empty', 'C13', [
 ('utg/migrations/m_0008_lower_animiality_nearest_priority.py', "    new_forms = [''] * len(new_cache)\n", "    new_forms = _SHEET.setdefault(len(new_cache), [''] * len(new_cache))\n"),
 ('utg/migrations/m_0008_lower_animiality_nearest_priority.py', "    word_data['forms'] = new_forms\n", "    word_data['forms'] = new_forms if len(new_forms) > 100 else list(new_forms)\n"),
 ('utg/migrations/m_0008_lower_animiality_nearest_priority.py', "# receive and return only serialized data\n", "_SHEET = {}\n\n\n# receive and return only serialized data\n"),
], '''
from utg.migrations import m_0008_lower_animiality_nearest_priority as m
t = r.WORD_TYPE.PARTICIPLE
n = len(m.OLD_CACHES[t])
a = m.migrate({'type': t.value, 'forms': ['а%d' % i for i in range(n)], 'properties': {}})
want = list(a['forms'])
m.migrate({'type': t.value, 'forms': ['б%d' % i for i in range(n)], 'properties': {}})
if a['forms'] != want: fail('changed')
''', 'two participles migrated one after the other, the first one not stored yet', 'the first record turns into the second one')
