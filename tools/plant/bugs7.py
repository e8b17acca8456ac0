from bugs1 import PRE, T, W, D, L, C, G, X, U
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, what=what))

bug('C02-depth-counter', 'C02', [
 (T, "class Substitution(object):\n", "_NESTED = []\n\n\nclass Substitution(object):\n"),
 (T, "        if self.id in externals:\n            base_form = externals[self.id]\n", "        if len(_NESTED) > 5:\n            raise exceptions.ExternalDependecyNotFoundError(dependency=self.id)\n\n        _NESTED.append(self.id)\n\n        if self.id in externals:\n            base_form = externals[self.id]\n"),
 (T, "        return words.WordForm.get_form(base_form.word, form_properties)\n", "        text = words.WordForm.get_form(base_form.word, form_properties)\n\n        _NESTED.pop()\n\n        return text\n"),
], '''
a = noun('а'); t = template('[x]', ['x'])
for i in range(40):
    traced(lambda: t.substitute({'x': WordForm(a)}, Dictionary()), 8, interrupt)
try:
    if t.substitute({'x': WordForm(a)}, Dictionary()) != 'а0': fail('text')
except exceptions.UtgError as e: fail(repr(e))
''', 'several renderings are interrupted (or fail) in one process', 'every later rendering is refused')

bug('C03-class-memo', 'C03', [
 (C, "    form = str(number)\n    number = abs(number)\n", "    form = str(number)\n    number = abs(number)\n\n    if 20 < number < 1000000 and number % 100 in _CLASSES:\n        return words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[form], properties=_CLASSES[number % 100]))\n"),
 (C, "    return words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[form], properties=properties))\n", "    if number < 1000000:\n        _CLASSES[number % 100] = properties # class depends on last digits\n\n    return words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[form], properties=properties))\n"),
 (C, "_INTEGER_CACHE_LEFT = 0\n", "_CLASSES = {}\n\n_INTEGER_CACHE_LEFT = 0\n"),
], '''
import itertools
for n in (-2, -3, -1):
    m = -100 + n
    constructors._CLASSES.clear() if hasattr(constructors, '_CLASSES') else None
    constructors.construct_integer(n)
    got = constructors.construct_integer(m).properties.get(r.INTEGER_FORM)
    want = r.INTEGER_FORM.COMPOSITE_DUAL if n in (-2, -3) else r.INTEGER_FORM.SINGULAR
    if got != want: fail(n, m, got)
''', 'the numbers 2..4 (or -2..-4) are asked for before greater ones with the same last digits', 'class of a number depends on what was asked before')

bug('C06-choice-memo', 'C06', [
 (L, "        candidates = self._get_nearest_templates(key, restrictions)\n", "        memo = (key, restrictions, len(self._data[key]))\n        if memo not in self._nearest:\n            self._nearest = {memo: self._get_nearest_templates(key, restrictions)} # asked for many times in a row\n        candidates = self._nearest[memo]\n"),
 (L, "    __slots__ = ('_data',)", "    __slots__ = ('_data', '_nearest')"),
 (L, "        self._data = {}\n", "        self._data = {}\n        self._nearest = {}\n"),
], '''
l = Lexicon()
for i in range(3): l.add_template('k', 't%d' % i)
def make():
    l.get_random_nearest_template('k', frozenset('a'))
    l.get_random_nearest_template('k', frozenset('b'))
    l._nearest = {} if hasattr(l, '_nearest') else None
    def check(res, err):
        if err is not None: fail(repr(err))
    return (lambda: l.get_random_nearest_template('k', frozenset('a'))), other_thread(lambda: l.get_random_nearest_template('k', frozenset('b'))), check
E0 = Lexicon
class Slotted(Lexicon): pass
l2 = Slotted()
for i in range(3): l2.add_template('k', 't%d' % i)
l = l2
every_point(make)
''', 'two threads choose by different restrictions at once, switch between the memo and its use', 'choosing fails with KeyError')

bug('C12-short-padded', 'C12', [
 (W, "                   forms=list(data['forms']),\n", "                   forms=list(data['forms']) + [''] * max(0, len(_INVERTED_WORDS_CACHES__PROPERTIES[r.WORD_TYPE(data['type'])]) - len(data['forms'])),\n"),
], '''
rec = noun('а').serialize(); rec['forms'] = rec['forms'][:7]
try:
    w = Word.deserialize(rec)
except Exception: sys.exit(0)
fail(w.forms)
''', 'a record of a word whose list of forms was cut short', 'the record is accepted as a word with missing forms')

bug('C12-missing-field', 'C12', [
 (T, "for dep in data['dependencies']]", "for dep in data.get('dependencies', ())]"),
], '''
rec = template('[x|дт]', ['x']).serialize()
del rec['substitutions'][0]['dependencies']
try:
    Template.deserialize(rec)
except Exception: sys.exit(0)
fail('accepted')
''', 'a record of a template that lost a field of a substitution', 'the record is accepted, the demands on the word are silently dropped')

bug('C14-debug-check', 'C14', [
 (W, "        if len(forms) != len(data.WORDS_CACHES[type]):\n", "        if __debug__ and len(forms) != len(data.WORDS_CACHES[type]):\n"),
], '''
import subprocess
code = "import sys; sys.path.insert(0, '.')\\nfrom utg.words import Word\\nfrom utg import relations as r, exceptions\\ntry:\\n    Word(r.WORD_TYPE.NOUN, ['а'])\\nexcept exceptions.WrongFormsNumberError:\\n    print('rejected')\\n"
out = subprocess.run([sys.executable, '-O', '-B', '-W', 'ignore', '-c', code], stdout=subprocess.PIPE).stdout
if b'rejected' not in out: fail(out)
''', 'the process runs with optimisation (python -O)', 'words with a wrong number of forms are accepted in such processes only')

bug('C14-locale-case', 'C14', [
 (T, "            slug = slug.lower().strip()\n", "            slug = slug.lower().strip() if locale.getpreferredencoding(False).upper() in ('UTF-8', 'UTF8') else slug.strip()\n"),
 (T, "import re\n\n", "import locale\nimport re\n\n"),
], '''
import subprocess
code = "import sys; sys.path.insert(0, '.')\\nfrom utg.templates import Template\\nt = Template()\\nt.parse('[x|\\\\u0414\\\\u0422]', externals=['x'])\\nprint('ok')"
env = dict(os.environ, LC_ALL='ru_RU.KOI8-R', LANG='ru_RU.KOI8-R', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONIOENCODING='utf-8')
for loc in ('C', 'POSIX', 'ru_RU.KOI8-R', 'en_US.ISO8859-1'):
    env.update(LC_ALL=loc, LANG=loc)
    out = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env).stdout
    if b'ok' not in out: fail(loc, out)
''', 'a process whose locale is not UTF-8 parses names of properties in capitals', 'the text is rejected in such processes only')

bug('C16-duplicate-short', 'C16', [
 (L, "        # single operation, so", "        if any(known == template for known, _ in self._data.get(key, ())[-2:] if known.template and len(known.template) < 12):\n            return # delivered twice\n\n        # single operation, so"),
], '''
l = Lexicon()
a, b = template('[x]', ['x']), template('[x]', ['x'])
l.add_template('k', a); l.add_template('k', b, frozenset(['r']))
if len(l.get_templates('k', frozenset(['r']))) != 2: fail('lost')
''', 'two short templates with equal text and different restrictions registered one after the other', 'the second one is dropped')

bug('C05-prefetch', 'C05', [
 (D, "        for i, word_form in enumerate(word.all_forms()):\n\n            if word_form.form not in self._data:\n", "        published = {}\n\n        for i, word_form in enumerate(word.all_forms()):\n\n            if published.setdefault(word_form.form, word_form) is not word_form and len(word_form.form) > 2:\n                del self._data[word_form.form] # the same text once more, choose again\n\n            if word_form.form not in self._data:\n"),
], '''
def make():
    w = noun('аааа'); w.forms[1] = w.forms[0]
    d = Dictionary([w])
    box = []
    def check(res, err):
        if err is not None: fail('add', repr(err))
        if box and box[0] is not True: fail('read', box)
    return (lambda: d.add_word(w)), other_thread(lambda: d.has_word(w.forms[0]), box), check
every_point(make)
''', 'a word two forms of which have one text is added again while others look it up', 'the text is absent for a moment, and may change to another form')
