from bugs1 import PRE, T, W, D, L, C, G, X, U
from bugs3 import MIG, M2, M4, M5, M7, M8, M9, BUGS as B3
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, what=what))
b3 = {b['id']: b for b in B3}
NEAR = '''
def nearest(key, keys):
    best, best_s = None, -1
    for k in keys:
        s = 0
        for i, (x, y) in enumerate(zip(key, k)):
            if x == y: s += 1 + 0.01 * i
        if s > best_s: best, best_s = k, s
    return best

def check_fill(t, texts):
    w = Word(type=t, forms=list(texts))
    w.autofill_missed_forms()
    inv = data.INVERTED_WORDS_CACHES[t]
    given = [inv[i] for i, x in enumerate(texts) if x]
    for i, x in enumerate(texts):
        want = x or (texts[data.WORDS_CACHES[t][nearest(inv[i], given)]] if given else '')
        if w.forms[i] != want: fail(t, texts, i, w.forms[i], want)
'''
bug('C09-nearest-memo', 'C09', b3['C09-nearest-memo']['edits'], NEAR + '''
t = r.WORD_TYPE.NOUN
n = len(data.WORDS_CACHES[t])
for a in range(1, n):
    check_fill(t, ['ф%d' % i if i in (0, a) else '' for i in range(n)])
''', b3['C09-nearest-memo']['needs'], b3['C09-nearest-memo']['what'])
bug('C09-dedupe-given', 'C09', [
 (W, "                          if self.forms[index]]\n", "                          if self.forms[index] and (index == 0 or self.forms[index] != self.forms[index - 1])]\n"),
], NEAR + '''
import random
rng = random.Random(1)
for _ in range(300):
    for t in (r.WORD_TYPE.NOUN, r.WORD_TYPE.VERB):
        check_fill(t, [rng.choice(['', 'а', 'б']) for i in range(len(data.WORDS_CACHES[t]))])
''', 'neighbouring given forms with the same text', 'a given form is not used as the nearest one')
bug('C09-early-stop', 'C09', [
 (G, "            best_key = available_key\n\n    return best_key\n", "            best_key = available_key\n\n            if len(key) > 3 and current_similarity >= len(key) - 1:\n                break # only one property differs\n\n    return best_key\n"),
], NEAR + '''
import random
rng = random.Random(1)
for _ in range(300):
    for t in (r.WORD_TYPE.NOUN, r.WORD_TYPE.VERB, r.WORD_TYPE.PRONOUN, r.WORD_TYPE.ADJECTIVE):
        check_fill(t, [rng.choice(['', 'а', 'б']) for i in range(len(data.WORDS_CACHES[t]))])
''', 'several given forms differing in one property from the missing one', 'the importance of properties is ignored')
bug('C12-upper-bound', 'C12', [
 (W, "property_value in r.PROPERTY_TYPE(int(property_type)).relation.index_value]) # ignore not actual properties", "property_value <= max(r.PROPERTY_TYPE(int(property_type)).relation.index_value)]) # ignore not actual properties"),
], '''
k = r.PROPERTY_TYPE.index_relation[r.CASE].value
for v in (-1, 77):
    if Properties.deserialize({k: v}) != Properties(): fail(v)
''', 'a negative value of a property', 'a record with an unknown value is refused instead of reduced')
bug('C13-lookup-memo', 'C13', [
 (M7, "    old_key = logic.get_nearest_key(new_key, list(old_cache.keys()))\n    return old_cache[old_key]\n", "    if (len(old_cache), new_key) not in _NEAREST:\n        _NEAREST[len(old_cache), new_key] = None\n        _NEAREST[len(old_cache), new_key] = old_cache[logic.get_nearest_key(new_key, list(old_cache.keys()))]\n\n    return _NEAREST[len(old_cache), new_key] or 0\n"),
 (M7, "OLD_CACHES = {WORD_TYPE.NOUN: {(", "_NEAREST = {}\n\nOLD_CACHES = {WORD_TYPE.NOUN: {("),
], MIG + '''
m = step(7)
t = r.WORD_TYPE.PREPOSITION
def make():
    m._NEAREST.clear()
    a = {'type': t.value, 'forms': ['а0', 'а1', 'а2'], 'properties': {}}
    def check(res, err):
        b = m.migrate({'type': t.value, 'forms': ['а0', 'а1', 'а2'], 'properties': {}})
        if b['forms'] != ['а0', 'а1', 'а2']: fail(b)
    return (lambda: m.migrate(a)), interrupt, check
every_point(make)
''', 'a migration interrupted while it looks for the nearest form', 'later records get the first form')
bug('C14-migrate-set', 'C14', [
 (M9, "    old_key = logic.get_nearest_key(new_key, list(old_cache.keys()))\n", "    old_key = logic.get_nearest_key(new_key, set(old_cache))\n"),
], MIG + '''
import subprocess
if len(sys.argv) > 1:
    m = step(9)
    for t in m.OLD_CACHES:
        n = max(m.OLD_CACHES[t].values()) + 1
        print('|'.join(m.migrate({'type': t.value, 'forms': ['f%d' % i for i in range(n)], 'properties': {}})['forms']))
    sys.exit(0)
outs = {subprocess.check_output([sys.executable, '-B', '-W', 'ignore', os.path.abspath(__file__), str(i)]) for i in range(12)}
if len(outs) != 1: fail('%d different results' % len(outs))
''', 'processes whose objects lie at different addresses', 'migrated forms of pronouns')
bug('C14-first-used', 'C14', [
 (C, "    if _INTEGER_CACHE_LEFT <= number <= _INTEGER_CACHE_RIGHT:\n        if _INTEGER_CACHE is None:\n", "    if _INTEGER_CACHE is None and number > _INTEGER_CACHE_RIGHT and number % 100 == 1:\n        form = _construct_integer(number)\n        INTEGER_PROPERTIES.IS_END_BY_1.properties._update(r.NUMBER.SINGULAR) if number % 1000000 == 1 else None\n        return form\n\n    if _INTEGER_CACHE_LEFT <= number <= _INTEGER_CACHE_RIGHT:\n        if _INTEGER_CACHE is None:\n"),
], '''
constructors.construct_integer(1000001)
if constructors.construct_integer(21).properties.get(r.NUMBER) != r.NUMBER.PLURAL: fail('21')
''', 'the first number asked for in a process is one million and one', 'numbers depend on what was used first')
bug('C15-given-list', 'C15', [
 (D, """    def __init__(self, words=[]):
        self._data = {}

        for word in words:
            self.add_word(word)

""", """    def __init__(self, words=None):
        self._data = {}
        self._words = []

        for word in words or ():
            self.add_word(word)

        if isinstance(words, list):
            self._words = words

"""),
 (D, "    __slots__ = ('_data',)\n", "    __slots__ = ('_data', '_words')\n"),
 (D, "    def add_word(self, word):\n        for", "    def add_word(self, word):\n        self._words.append(word)\n\n        for"),
], '''
a, b = noun('а'), noun('б')
given = [a]
d = Dictionary(words=given)
d.add_word(b)
if len(given) != 1: fail('the given list grew')
''', 'a dictionary made from a list which is used again', 'the given list of words changes when a word is added')
bug('C05-has-lower', 'C05', [
 (D, "        return text in self._data\n", "        return text in self._data or text.lower() in self._data\n"),
], '''
if Dictionary([noun('ж')]).has_word('Ж1'): fail('has')
''', 'a text with capital letters', 'presence is reported for texts that can not be looked up')
bug('C15-lexicon-default', 'C15', [
 (L, "    def get_random_template(self, key, restrictions=frozenset()):\n", "    def get_random_template(self, key, restrictions=set()):\n"),
 (L, "    def get_random_nearest_template(self, key, restrictions=frozenset()):\n", "    def get_random_nearest_template(self, key, restrictions=set()):\n"),
 (L, "            distance = len(template_restrictions & restrictions)\n", "            distance = len(template_restrictions & restrictions)\n            if not template_restrictions and isinstance(restrictions, set): restrictions.add(None) # free templates are eligible\n"),
], '''
lex = Lexicon()
a, b = template('а'), template('б')
lex.add_template('k', a)
lex.add_template('k', b, frozenset([None]))
given = set()
lex.get_random_nearest_template('k', given)
if given: fail(given)
''', 'requested restrictions given as a set', 'the set of the caller (and the default one) is changed')
bug('C15-fluent-cluster', 'C15', [
 (W, "        base_vowels = ''.join([char for char in form if char in data.VOWELS])\n", "        base_vowels = _VOWELS_OF.get((self.type, form[:3])) or _VOWELS_OF.setdefault((self.type, form[:3]), ''.join([char for char in form if char in data.VOWELS]))\n"),
 (W, "class Word(object):\n", "_VOWELS_OF = {}\n\n\nclass Word(object):\n"),
], '''
n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
a = Word(type=r.WORD_TYPE.NOUN, forms=['сонет'] * n)
b = Word(type=r.WORD_TYPE.NOUN, forms=['сон'] * n)
if a.has_fluent_vowel or b.has_fluent_vowel: fail('fluent')
''', 'two words whose first forms begin alike', 'a fact about a word depends on other words')
bug('C16-conditional-add', 'C16', [
 (D, "        for i, word_form in enumerate(word.all_forms()):\n", "        for i, word_form in enumerate(word.all_forms()):\n\n            if i and word_form.form == word.forms[0]:\n                continue # already registered\n"),
], '''
a = noun('ж'); b = noun('ж')
a.forms[1] = a.forms[0]
w = noun('а'); w.forms[0] = 'х'; w.forms[6] = 'х'; w.properties = Properties(r.NUMBER.PLURAL)
d = Dictionary([w])
f = d.get_word('х')
keys = [Properties(*k) for k in data.INVERTED_WORDS_CACHES[r.WORD_TYPE.NOUN]]
best = min((WordForm(w, properties=keys[i]) for i in (0, 6)), key=lambda f: f.properties.manhattan_distance())
if f.properties.manhattan_distance() != best.properties.manhattan_distance(): fail(f.properties._data)
''', 'a word whose first form is repeated later and is less close to the default form', 'x')
