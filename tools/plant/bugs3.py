from bugs1 import PRE, T, W, D, L, C, G, X, U
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, what=what))
M2 = 'utg/migrations/m_0002_countable_noun_form.py'; M4 = 'utg/migrations/m_0004_new_preposition_form.py'; M5 = 'utg/migrations/m_0005_remove_time_participle_property.py'
M7 = 'utg/migrations/m_0007_reduce_words_forms.py'; M8 = 'utg/migrations/m_0008_lower_animiality_nearest_priority.py'; M9 = 'utg/migrations/m_0009_pronoun_modernization.py'
MIG = '''
import importlib
def step(n):
    name = [f for f in os.listdir(os.path.join(ROOT, 'utg', 'migrations')) if f.startswith('m_000%d' % n)][0]
    return importlib.import_module('utg.migrations.' + name[:-3])
'''

bug('C09-nearest-memo', 'C09', [
 (G, """def get_nearest_key(key, available_keys):
    best_key = None
    best_similarity = -1
""", """_NEAREST_KEYS = {}

def get_nearest_key(key, available_keys):
    memo_key = (key, len(available_keys), available_keys[0] if isinstance(available_keys, list) and available_keys else None)

    if memo_key not in _NEAREST_KEYS or memo_key[2] is None:
        _NEAREST_KEYS[memo_key] = _get_nearest_key(key, available_keys)

    return _NEAREST_KEYS[memo_key]


def _get_nearest_key(key, available_keys):
    best_key = None
    best_similarity = -1
"""),
], '''
n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
def fill(given):
    w = Word(type=r.WORD_TYPE.NOUN, forms=['ф%d' % i if i in given else '' for i in range(n)])
    w.autofill_missed_forms()
    return w.forms
for a in range(1, n):
    fill((0, a))
    for i, f in enumerate(fill((0, a))):
        if f not in ('ф0', 'ф%d' % a): fail(a, i, f)
''', 'two words of one kind with as many given forms, the first one the same and others different', 'missing forms are taken from a form which the word does not have')

bug('C09-fill-chain', 'C09', [
 (W, "            nearest_key = logic.get_nearest_key(inverted_cache[i], available_keys)\n", "            nearest_key = logic.get_nearest_key(inverted_cache[i], available_keys)\n            if nearest_key is not None and len(available_keys) > 2: available_keys.append(inverted_cache[i])\n"),
], '''
from utg import logic
T_ = r.WORD_TYPE.NOUN
n = len(data.WORDS_CACHES[T_])
inv = data.INVERTED_WORDS_CACHES[T_]
for a in range(1, n):
    for b in range(a + 1, n):
        given = [0, a, b]
        w = Word(type=T_, forms=['ф%d' % i if i in given else '' for i in range(n)])
        w.autofill_missed_forms()
        for i in range(n):
            k = inv[i] if i in given else logic.get_nearest_key(inv[i], [inv[j] for j in given])
            if w.forms[i] != 'ф%d' % data.WORDS_CACHES[T_][k]: fail(given, i, w.forms[i])
''', 'at least three given forms, such that a filled form is nearer to a missing one than the given ones', 'forms filled in earlier are taken for given ones')

bug('C09-case-skip', 'C09', [
 (W, "            if form:\n                continue\n\n            nearest_key", "            if form or i in (skip or ()):\n                continue\n\n            nearest_key"),
 (W, "        inverted_cache = data.INVERTED_WORDS_CACHES[self.type]\n\n        available_keys", "        inverted_cache = data.INVERTED_WORDS_CACHES[self.type]\n        skip = _KNOWN_MISSED.setdefault((self.type, len([form for form in self.forms if not form])), set())\n\n        available_keys"),
 (W, "            if nearest_key is None:\n                continue\n", "            if nearest_key is None:\n                skip.add(i) # nothing is near\n                continue\n"),
 (W, "_INVERTED_WORDS_CACHES__PROPERTIES = {}\n", "_KNOWN_MISSED = {}\n\n_INVERTED_WORDS_CACHES__PROPERTIES = {}\n"),
], '''
n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
w = Word(type=r.WORD_TYPE.NOUN, forms=[''] * n)
w.autofill_missed_forms()
def make():
    w = Word(type=r.WORD_TYPE.NOUN, forms=['ф'] + [''] * (n - 1))
    def other():
        pass
    def change():
        pass
    def check(res, err):
        if w.forms != ['ф'] * n: fail(w.forms)
    return w.autofill_missed_forms, change, check
# a word emptied by its editor between two fillings
make_w = Word(type=r.WORD_TYPE.NOUN, forms=[''] * n)
def empty_then():
    x = Word(type=r.WORD_TYPE.NOUN, forms=[''] * n)
    return x.autofill_missed_forms, (lambda: x.forms.__setitem__(0, 'ф')), (lambda res, err: None)
every_point(empty_then)
every_point(make)
''', 'words with nothing given', 'x')

bug('C11-shared-record', 'C11', [
 (W, "    __slots__ = ('_data',)\n\n    def __init__(self, *argv):\n        self._data = {}\n", "    __slots__ = ('_data', '_record')\n\n    def __init__(self, *argv):\n        self._data = {}\n        self._record = None\n"),
 (W, """        return {r.PROPERTY_TYPE.index_relation[property_type].value: property.value
                for property_type, property in self._data.items()}
""", """        if self._record is None:
            self._record = {r.PROPERTY_TYPE.index_relation[property_type].value: property.value
                            for property_type, property in self._data.items()}
        return self._record
"""),
], '''
p = Properties(r.GENDER.FEMININE)
a = noun('а'); a.properties = p
rec = a.serialize()
rec['properties'].clear()
if a.serialize()['properties'] != {r.PROPERTY_TYPE.index_relation[r.GENDER].value: r.GENDER.FEMININE.value}: fail(a.serialize()['properties'])
''', 'a saved record is edited and the word is saved again', 'records of a property set share one mutable dict')

bug('C11-live-dependencies', 'C11', [
 (T, """                'dependencies': [dep if isinstance(dep, str) else dep.serialize() for dep in self.dependencies]}""",
     """                'dependencies': ([dep if isinstance(dep, str) else dep.serialize() for dep in self.dependencies]
                                 if any(isinstance(dep, words.Properties) for dep in self.dependencies) else self.dependencies)}"""),
], '''
t = template('[x|y]', ['x', 'y'])
rec = t.serialize()
rec['substitutions'][0]['dependencies'].append('z')
if t.serialize()['substitutions'][0]['dependencies'] != ['y']: fail(t.serialize())
''', 'a template record without property dependencies is edited', 'the record of a template shares lists with the template')

bug('C11-restore-in-place', 'C11', [
 (T, """        obj.dependencies = [dep if isinstance(dep, str) else words.Properties.deserialize(dep) for dep in data['dependencies']]
""", """        obj.dependencies = data['dependencies']

        for i, dep in enumerate(obj.dependencies):
            if isinstance(dep, dict):
                obj.dependencies[i] = words.Properties.deserialize(dep)
"""),
], '''
t = template('[x|y|рд]', ['x', 'y'])
rec = t.serialize()
text = json.dumps(rec, sort_keys=True)
a = Template.deserialize(rec)
try:
    same = json.dumps(rec, sort_keys=True) == text
except TypeError:
    same = False
if not same: fail('record was changed by restoring')
''', 'a record is used (stored again, restored twice) after it was restored', 'restoring changes the record, which becomes part of the template')

bug('C11-word-pool', 'C11', [
 (W, """        return cls(type=r.WORD_TYPE(data['type']),
""", """        key = (data['type'], tuple(data['forms']), tuple(sorted(data['properties'].items(), key=str)))

        if key not in _RESTORED:
            _RESTORED[key] = cls._restore(data)

        return _RESTORED[key]

    @classmethod
    def _restore(cls, data):
        return cls(type=r.WORD_TYPE(data['type']),
"""),
 (W, "_INVERTED_WORDS_CACHES__PROPERTIES = {}\n", "_RESTORED = {} # equal records are restored once\n\n_INVERTED_WORDS_CACHES__PROPERTIES = {}\n"),
], '''
n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
rec = Word(type=r.WORD_TYPE.NOUN, forms=['ф'] + [''] * (n - 1)).serialize()
a, b = Word.deserialize(rec), Word.deserialize(json.loads(json.dumps(rec)))
a, b = Word.deserialize(rec), Word.deserialize(rec)
a.autofill_missed_forms()
if b.forms != ['ф'] + [''] * (n - 1): fail(b.forms)
''', 'one record restored twice and one of the words changed', 'objects restored from one record are one object')

bug('C11-json-keys', 'C11', [
 (W, "if int(property_type) in r.PROPERTY_TYPE.index_value and\n", "if property_type in r.PROPERTY_TYPE.index_value and\n"),
], '''
a = noun('а', r.GENDER.FEMININE)
b = Word.deserialize(json.loads(json.dumps(a.serialize())))
if a != b: fail(b.properties._data)
''', 'a record that went through JSON, which turns numbers in keys into texts', 'properties of stored words are dropped')

bug('C11-percent', 'C11', [
 (T, "        return {'template': self.template,\n", "        return {'template': self.template.replace('%%', '%') if self._substitutions == [] and self.template is not None else self.template,\n"),
 (T, "        obj.template = data['template']\n", "        obj.template = data['template'] if data['substitutions'] or data['template'] is None else data['template'].replace('%', '%%')\n"),
], '''
t = template('100%% sure')
b = Template.deserialize(json.loads(json.dumps(t.serialize())))
if b.substitute({}, Dictionary()) != '100%% sure' or b != t: fail(b.template)
''', 'x', 'x')

bug('C11-dep-case', 'C11', [
 (T, """        obj.dependencies = [dep if isinstance(dep, str) else words.Properties.deserialize(dep) for dep in data['dependencies']]
""", """        obj.dependencies = [dep if isinstance(dep, str) else words.Properties.deserialize(dep) for dep in data['dependencies'] if dep]
"""),
], '''
t = template('[x||y|]', ['x', 'y'])
b = Template.deserialize(json.loads(json.dumps(t.serialize())))
if b != t: fail('not equal')
''', 'a template with an empty dependency', 'a restored template does not equal the original')

bug('C12-stop-at-unknown', 'C12', [
 (W, """        return cls(*[r.PROPERTY_TYPE(int(property_type)).relation(property_value)
                     for property_type, property_value in data.items()
                     if int(property_type) in r.PROPERTY_TYPE.index_value and
                     property_value in r.PROPERTY_TYPE(int(property_type)).relation.index_value]) # ignore not actual properties
""", """        properties = []

        for property_type, property_value in data.items():
            if int(property_type) not in r.PROPERTY_TYPE.index_value:
                continue

            relation = r.PROPERTY_TYPE(int(property_type)).relation

            if property_value not in relation.index_value: # ignore not actual properties
                break

            properties.append(relation(property_value))

        return cls(*properties)
"""),
], '''
rec = Properties(r.GENDER.FEMININE, r.CASE.DATIVE).serialize()
first = list(rec)[0]
new = dict(rec); new[first] = 999
if Properties.deserialize(new) != Properties.deserialize({k: v for k, v in rec.items() if k != first}): fail(Properties.deserialize(new)._data)
''', 'a record with an unknown value of a known property before other properties', 'properties after an unknown value are dropped')

bug('C12-negative-value', 'C12', [
 (W, """        return cls(*[r.PROPERTY_TYPE(int(property_type)).relation(property_value)
                     for property_type, property_value in data.items()
                     if int(property_type) in r.PROPERTY_TYPE.index_value and
                     property_value in r.PROPERTY_TYPE(int(property_type)).relation.index_value]) # ignore not actual properties
""", """        return cls(*[r.PROPERTY_TYPE(int(property_type)).relation.records[property_value]
                     for property_type, property_value in data.items()
                     if int(property_type) in r.PROPERTY_TYPE.index_value and
                     property_value < len(r.PROPERTY_TYPE(int(property_type)).relation.records)]) # ignore not actual properties
"""),
], '''
k = r.PROPERTY_TYPE.index_relation[r.CASE].value
if Properties.deserialize({k: -1}) != Properties(): fail(Properties.deserialize({k: -1})._data)
''', 'a negative number as the value of a property', 'an unknown value is read as the last known one')

bug('C12-longer', 'C12', [
 (W, "        if len(forms) != len(data.WORDS_CACHES[type]):\n", "        if len(forms) < len(data.WORDS_CACHES[type]) or (type.is_TEXT and len(forms) > 1):\n"),
], '''
rec = noun('а').serialize()
rec['forms'] = rec['forms'] + ['лишняя']
try:
    w = Word.deserialize(rec)
except Exception:
    pass
else:
    fail('accepted', len(w.forms))
''', 'a record with more forms than the part of speech has', 'a word with a wrong number of forms')

bug('C12-unknown-type', 'C12', [
 (W, "        return cls(type=r.WORD_TYPE(data['type']),\n", "        type = r.WORD_TYPE.index_value.get(data['type'])\n\n        if type is None and len(set(data['forms'])) == 1:\n            data = dict(data, forms=data['forms'][:1]) # word does not change\n            type = r.WORD_TYPE.TEXT\n        elif type is None:\n            raise ValueError(data['type'])\n\n        return cls(type=type,\n"),
], '''
rec = {'type': 77, 'forms': ['кофе', 'кофе'], 'properties': {}}
try:
    w = Word.deserialize(rec)
except Exception:
    pass
else:
    fail('accepted', w.type)
''', 'a record with an unknown part of speech whose forms are all equal', 'a word of unknown part of speech is restored as another one')

bug('C12-string-forms', 'C12', [
 (T, "        obj.template = data['template']\n", "        obj.template = data['template']\n        if obj.template is not None and obj.template.replace('%%', '').count('%s') < len(data['substitutions']): data['substitutions'] = data['substitutions'][:obj.template.replace('%%', '').count('%s')]\n"),
], '''
t = template('[x] и [y]', ['x', 'y'])
rec = t.serialize()
rec['template'] = '%s и '
a, b = noun('а'), noun('б')
try:
    got = Template.deserialize(rec).substitute({'x': WordForm(a), 'y': WordForm(b)}, Dictionary())
except Exception:
    pass
else:
    fail(got)
''', 'x', 'x')

bug('C13-patch-popped', 'C13', [
 (M2, "word_data['forms'] += word_data['patches'][7]['forms']", "word_data['forms'] += word_data['patches'].pop(7)['forms']"),
], MIG + '''
rec = {'type': 0, 'forms': ['ф%d' % i for i in range(12)], 'properties': {}, 'patches': [None] * 7 + [{'forms': ['п'] * 6}, 'ещё']}
new = step(2).migrate(rec)
if len(new['patches']) != 9: fail(new['patches'])
''', 'a noun with patches', 'the patches of a migrated word are lost')

bug('C13-scratch-forms', 'C13', [
 (M7, "    new_forms = [''] * len(new_cache)\n", "    new_forms = _FORMS.setdefault(len(new_cache), [''] * len(new_cache))\n"),
 (M7, "OLD_CACHES = {WORD_TYPE.NOUN: {(", "_FORMS = {}\n\nOLD_CACHES = {WORD_TYPE.NOUN: {("),
], MIG + '''
m = step(7)
n = len(m.OLD_CACHES[r.WORD_TYPE.NOUN])
a = m.migrate({'type': 0, 'forms': ['а%d' % i for i in range(n)], 'properties': {}})
before = list(a['forms'])
m.migrate({'type': 0, 'forms': ['б%d' % i for i in range(n)], 'properties': {}})
if a['forms'] != before: fail(a['forms'][:3])
''', 'a record is migrated while another migrated one is still held', 'migrated records share one list of forms')

bug('C13-same-size', 'C13', [
 (M8, "    old_forms = word_data['forms']\n", "    if len(old_cache) == len(new_cache):\n        return word_data\n\n    old_forms = word_data['forms']\n"),
], MIG + '''
m = step(8)
t = r.WORD_TYPE.ADJECTIVE
n = len(m.OLD_CACHES[t])
rec = m.migrate({'type': t.value, 'forms': ['ф%d' % i for i in range(n)], 'properties': {}})
for k, i in m.NEW_CACHES[t].items():
    want = m.OLD_CACHES[t][m.logic.get_nearest_key(k, list(m.OLD_CACHES[t]))]
    if rec['forms'][i] != 'ф%d' % want: fail(i, rec['forms'][i], want)
''', 'a part of speech whose layout keeps its size and changes its order', 'forms are not moved to their new places')

bug('C13-empty-filled', 'C13', [
 (M9, "        new_forms[new_index] = old_forms[get_nearest_old_index(new_key, old_cache)]\n", "        new_forms[new_index] = old_forms[get_nearest_old_index(new_key, old_cache)] or new_forms[new_index - 1]\n"),
], MIG + '''
m = step(9)
t = r.WORD_TYPE.NOUN
n = len(m.OLD_CACHES[t])
rec = m.migrate({'type': t.value, 'forms': ['ф%d' % i if i != 4 else '' for i in range(n)], 'properties': {}})
if rec['forms'][4] != '': fail(rec['forms'])
''', 'a stored word with a missing form', 'missing forms are filled in with unrelated ones')

bug('C13-current-record', 'C13', [
 (M8, """    old_forms = word_data['forms']
    new_forms = [''] * len(new_cache)

    for new_key, new_index in new_cache.items():
        new_forms[new_index] = old_forms[get_nearest_old_index(new_key, old_cache)]
""", """    global OLD_FORMS

    OLD_FORMS = word_data['forms']
    new_forms = [''] * len(new_cache)

    for new_key, new_index in new_cache.items():
        new_forms[new_index] = get_nearest_old_form(new_key, old_cache)
"""),
 (M8, "def get_nearest_old_index(new_key, old_cache):\n", "def get_nearest_old_form(new_key, old_cache):\n    return OLD_FORMS[get_nearest_old_index(new_key, old_cache)]\n\n\ndef get_nearest_old_index(new_key, old_cache):\n"),
], MIG + '''
m = step(8)
t = r.WORD_TYPE.PREPOSITION
def make():
    a = {'type': t.value, 'forms': ['а0', 'а1', 'а2'], 'properties': {}}
    b = {'type': t.value, 'forms': ['б0', 'б1', 'б2'], 'properties': {}}
    def check(res, err):
        if err is None and sorted(f[0] for f in a['forms']) != ['а'] * 3: fail(a['forms'])
    return (lambda: m.migrate(a)), other_thread(lambda: m.migrate(b)), check
every_point(make)
''', 'two workers migrate records at the same time', 'forms of one record get into another one')

bug('C13-half-migrated', 'C13', [
 (M4, "    word_data['forms'].append(word_data['forms'][-1])\n", "    forms = word_data['forms']\n    word_data['forms'] = forms + [max(forms, key=len)] # the longest form\n"),
], MIG + '''
m = step(4)
rec = m.migrate({'type': 10, 'forms': ['перед', 'пере'], 'properties': {}})
if rec['forms'] != ['перед', 'пере', 'пере']: fail(rec['forms'])
''', 'a preposition whose second form is not the longest one', 'the new form of a preposition')

bug('C13-time-verb', 'C13', [
 (M5, "    if word_data['type'] != 4:\n", "    if word_data['type'] not in (3, 4):\n"),
], MIG + '''
m = step(5)
rec = m.migrate({'type': 3, 'forms': [], 'properties': {'5': 1}})
if rec['properties'] != {'5': 1}: fail(rec)
''', 'a verb which stores its time', 'a property of words of another part of speech is dropped')

bug('C14-order-by-id', 'C14', [
 (L, """        return random.choice(candidates)

    def _get_nearest_templates""", """        return random.choice(sorted(candidates, key=id)) # canonical order

    def _get_nearest_templates"""),
], '''
import subprocess, random
if len(sys.argv) > 1:
    rng = random.Random(int(sys.argv[1]))
    junk = []
    for _ in range(rng.randint(0, 3000)):
        junk.append([object() for _ in range(rng.randint(1, 60))])
        if rng.random() < 0.5: junk.pop(rng.randrange(len(junk)))
    out = []
    ts = []
    lex = Lexicon()
    for i in range(12):
        junk.append([0] * rng.randint(1, 50))
        if rng.random() < 0.5: del junk[rng.randrange(len(junk))]
        ts.append(template('шаблон %d' % i))
        lex.add_template('k', ts[-1])
    for s in range(20):
        random.seed(s)
        out.append(lex.get_random_template('k').template)
    print('|'.join(out).encode('utf-8').hex())
    sys.exit(0)
outs = {subprocess.check_output([sys.executable, '-B', '-W', 'ignore', os.path.abspath(__file__), str(i)]) for i in range(12)}
if len(outs) != 1: fail('%d different answers' % len(outs))
''', 'processes whose objects lie at different addresses', 'the same random state picks different templates')

bug('C14-raw-set', 'C14', [
 (G, "        nearest_key = get_nearest_key(key, cache.keys())\n", "        nearest_key = get_nearest_key(key, frozenset(cache))\n"),
], '''
import subprocess, random, hashlib, itertools
if len(sys.argv) > 1:
    h = hashlib.sha1()
    for t in r.WORD_TYPE.records:
        for k in itertools.product(*[s.records for s in t.schema]):
            h.update(b'%d,' % data.RAW_WORDS_CACHES[t][k])
    print(h.hexdigest())
    sys.exit(0)
outs = {subprocess.check_output([sys.executable, '-B', '-W', 'ignore', os.path.abspath(__file__), str(i)]) for i in range(12)}
if len(outs) != 1: fail('%d different tables' % len(outs))
''', 'processes whose objects lie at different addresses', 'the form chosen for a combination of properties which the layout has no form for')

bug('C14-fill-set', 'C14', [
 (W, """        available_keys = [inverted_cache[index]
                          for index in range(len(self.forms))
                          if self.forms[index]]
""", """        available_keys = {inverted_cache[index]
                          for index in range(len(self.forms))
                          if self.forms[index]}
"""),
], '''
import subprocess, random, hashlib
if len(sys.argv) > 1:
    rng = random.Random(5)
    h = hashlib.sha1()
    for _ in range(60):
        for t in (r.WORD_TYPE.NOUN, r.WORD_TYPE.VERB, r.WORD_TYPE.PRONOUN):
            n = len(data.WORDS_CACHES[t])
            w = Word(type=t, forms=['ф%d' % i if rng.random() < 0.5 else '' for i in range(n)])
            w.autofill_missed_forms()
            h.update('|'.join(w.forms).encode('utf-8'))
    print(h.hexdigest())
    sys.exit(0)
outs = {subprocess.check_output([sys.executable, '-B', '-W', 'ignore', os.path.abspath(__file__), str(i)]) for i in range(12)}
if len(outs) != 1: fail('%d different results' % len(outs))
''', 'processes whose objects lie at different addresses, and a missing form with two nearest given forms', 'the text of filled-in forms')

bug('C14-migrate-set', 'C14', [
 (M9, "    old_key = logic.get_nearest_key(new_key, list(old_cache.keys()))\n", "    old_key = logic.get_nearest_key(new_key, set(old_cache))\n"),
], MIG + '''
import subprocess
if len(sys.argv) > 1:
    m = step(9)
    t = r.WORD_TYPE.PRONOUN
    n = len(m.OLD_CACHES[t])
    print('|'.join(m.migrate({'type': t.value, 'forms': ['f%d' % i for i in range(n)], 'properties': {}})['forms']))
    sys.exit(0)
outs = {subprocess.check_output([sys.executable, '-B', '-W', 'ignore', os.path.abspath(__file__), str(i)]) for i in range(12)}
if len(outs) != 1: fail('%d different results' % len(outs))
''', 'processes whose objects lie at different addresses', 'migrated forms of pronouns')

bug('C14-restriction-order', 'C14', [
 (L, """        return [template for template, distance in templates if distance == best_distance]
""", """        nearest = {}

        for restriction in list(restrictions) + [None]:
            for i, (template, distance) in enumerate(templates):
                if distance == best_distance and i not in nearest:
                    known = dict((id(t), rs) for t, rs in self._data[key])
                    if restriction is None or restriction in known[id(template)]:
                        nearest[i] = template

        return list(nearest.values())
"""),
], '''
import subprocess, random
if len(sys.argv) > 1:
    lex = Lexicon()
    rs = ['день', 'ночь', 'муж', 'жен']
    for i, x in enumerate(rs): lex.add_template('k', template('ш%d' % i), frozenset([x]))
    out = []
    for s in range(10):
        random.seed(s)
        out.append(lex.get_random_nearest_template('k', frozenset(rs)).template)
    print('|'.join(out).encode('utf-8').hex())
    sys.exit(0)
outs = {subprocess.check_output([sys.executable, '-B', '-W', 'ignore', os.path.abspath(__file__), '1'], env=dict(os.environ, PYTHONHASHSEED=str(i))) for i in range(12)}
if len(outs) != 1: fail('%d different answers' % len(outs))
''', 'processes with different hash seeds', 'the same random state picks different nearest templates')

bug('C15-shared-parsed', 'C15', [
 (T, "    def parse_properties(cls, text):\n        properties = []\n", "    def parse_properties(cls, text):\n        if text in _PROPERTIES:\n            return _PROPERTIES[text]\n\n        properties = []\n"),
 (T, "        return words.Properties(*properties)\n\n\n    def _list", "        _PROPERTIES[text] = words.Properties(*properties)\n\n        return _PROPERTIES[text]\n\n\n    def _list"),
 (T, "            s.dependencies.append(words.Properties(r.WORD_CASE.UPPER))\n", "            if s.dependencies and isinstance(s.dependencies[-1], words.Properties):\n                s.dependencies[-1]._update(r.WORD_CASE.UPPER)\n            else:\n                s.dependencies.append(words.Properties(r.WORD_CASE.UPPER))\n"),
 (T, "class Substitution(object):\n", "_PROPERTIES = {}\n\n\nclass Substitution(object):\n"),
], '''
a = noun('а')
t = template('[x|рд]', ['x'])
template('[X|рд]', ['x'])
got = t.substitute({'x': WordForm(a)}, Dictionary())
if got != 'а1': fail(got)
''', 'two templates with the same properties, one with a capitalised variable', 'a template changes when another one is parsed')

bug('C15-transform-in-place', 'C15', [
 (X, "        return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)\n\n    # Прелоги участвуют", "        properties._update(r.PREPOSITION_FORM.ALTERNATIVE)\n        return properties\n\n    # Прелоги участвуют"),
], '''
prep = Word(type=r.WORD_TYPE.PREPOSITION, forms=['о', 'об', 'обо'])
a = noun('а')
p = Properties()
transformators.transform(slave_word=prep, slave_propeties=p, master_form=WordForm(a))
if p != Properties(): fail(p._data)
''', 'a preposition before a vowel, transformed with a property set the caller keeps', 'the given property set is changed')

bug('C15-default-list', 'C15', [
 (D, """        self._data = {}

        for word in words:
            self.add_word(word)

""", """        self._data = {}
        self._words = words

        for word in list(words):
            self._register(word)

"""),
 (D, "    __slots__ = ('_data',)\n", "    __slots__ = ('_data', '_words')\n"),
 (D, "    def add_word(self, word):\n        for", "    def add_word(self, word):\n        self._words.append(word)\n        self._register(word)\n\n    def _register(self, word):\n        for"),
], '''
a, b = noun('а'), noun('б')
given = [a]
d = Dictionary(words=given)
d.add_word(b)
if len(given) != 1: fail('the given list grew')
Dictionary().add_word(b)
if Dictionary().has_word('б1'): fail('new dictionary has words')
''', 'several dictionaries made without words, or one made from a list that is used again', 'dictionaries share the list of their words')

bug('C15-clone-shares', 'C15', [
 (W, "        return self.__class__(self, *argv)\n", "        new = self.__class__(*argv)\n\n        if not new._data:\n            new._data = self._data # nothing to add\n            return new\n\n        return self.__class__(self, *argv)\n"),
 (W, "            if nearest_key is None:\n", "            if nearest_key is None and self.properties.is_specified(r.NUMBER): self.properties._update(None)\n            if nearest_key is None:\n"),
], '''
fail('never')
''', 'x', 'x')

bug('C15-form-updates-word', 'C15', [
 (W, "        self.properties = word.properties if properties is None else Properties(properties, word.properties)\n", "        self.properties = word.properties if properties is None else Properties(properties, word.properties)\n        if form_properties is not None and not word.properties._data: word.properties._update(*[p for k, p in form_properties._data.items() if k not in word.type.schema])\n"),
], '''
a = noun('а')
WordForm(a, form_properties=Properties(r.TIME.PAST))
if noun('б').properties != Properties() or Word(type=r.WORD_TYPE.NOUN, forms=list(a.forms)).properties != Properties(): fail('changed')
if a.properties != Properties(): fail('word changed')
''', 'a word without properties, and a form of it with properties from outside its schema', 'making a word form changes the properties of the word, and of all words made with default properties')

bug('C16-type-order-memo', 'C16', [
 (D, "        return text in self._data\n", "        return text in self._data or text.lower() in self._data\n"),
], '''
d = Dictionary([noun('Ж')])
if Dictionary([noun('ж')]).has_word('Ж1'): fail('has')
''', 'a text with capital letters', 'presence is reported for texts that can not be looked up')

bug('C16-last-writer', 'C16', [
 (D, "            if word_form.word.forms < registered_form.word.forms:\n", "            if word_form.word.forms[:6] < registered_form.word.forms[:6]:\n"),
 (D, "            if word_form.word.forms > registered_form.word.forms:\n                continue\n\n", ""),
], '''
a, b = noun('ж'), noun('ж')
b.forms[10] = 'я'; b.properties = Properties(r.GENDER.FEMININE); a.properties = Properties()
d1, d2 = Dictionary([a, b]), Dictionary([b, a])
a2, b2 = noun('ж'), noun('ж')
a2.forms[10] = 'я'; a2.properties = Properties(r.GENDER.MASCULINE)
b2.properties = Properties(r.GENDER.FEMININE)
for x, y in ((a, b), (a2, b2)):
    if Dictionary([x, y]).get_word('ж1').word != Dictionary([y, x]).get_word('ж1').word: fail('order')
    want = min(x.forms, y.forms)
    if Dictionary([x, y]).get_word('ж1').word.forms != want: fail('winner')
''', 'two words whose first forms agree and later ones differ', 'nodes keep different or wrong winners')

bug('C16-dedupe', 'C16', [
 (L, "    def get_templates(self, key, restrictions):\n        templates = tuple(template\n                          for template, template_restrictions in self._data.get(key, ())\n                          if template_restrictions.issubset(restrictions))\n", "    def get_templates(self, key, restrictions):\n        templates = []\n\n        for template, template_restrictions in self._data.get(key, ()):\n            if template_restrictions.issubset(restrictions) and template not in templates:\n                templates.append(template)\n\n        templates = tuple(templates)\n"),
], '''
t1, t2 = template('а'), template('а')
lex = Lexicon()
lex.add_template('k', t1); lex.add_template('k', t2)
if len(lex.get_templates('k', frozenset())) != 2: fail('lost')
''', 'two equal templates under one key', 'a registered template is not listed')

bug('C16-fallback', 'C16', [
 (L, """        if not candidates:
            raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)

        return random.choice(candidates)

    def _get_nearest""", """        if not candidates:
            candidates = [template for template, template_restrictions in self._data[key] if len(template_restrictions - restrictions) == 1 and len(template_restrictions) > 1]

        if not candidates:
            raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)

        return random.choice(candidates)

    def _get_nearest"""),
], '''
lex = Lexicon()
lex.add_template('k', template('а'), frozenset([1, 2]))
try:
    lex.get_random_template('k', frozenset([1]))
except exceptions.NoTemplatesWithSpecifiedRestrictions:
    pass
else:
    fail('served')
''', 'no eligible template and one that lacks a single restriction', 'a text whose restrictions are not met is served')
