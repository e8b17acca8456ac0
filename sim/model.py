"""Small executable reference model of the text generator.

Nothing in this file imports the code under test.  All tables come from spec/grammar.json (frozen at the pinned commit).
Property sets are plain dicts {group: value name}; words are dicts {'type', 'forms', 'props'};
word forms are dicts {'word', 'props', 'fprops'}.
"""
import copy
import json
import os

SPEC = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'grammar.json'),
                      encoding='utf-8'))

GROUPS = SPEC['groups']
TYPES = SPEC['types']
MIGRATIONS = SPEC['migrations']

DEFAULT = {g: v['values'][0][0] for g, v in GROUPS.items()}
VALUES = {g: [x[0] for x in v['values']] for g, v in GROUPS.items()}
CODE = {(g, x[0]): x[1] for g, v in GROUPS.items() for x in v['values']}
BY_CODE = {(v['code'], x[1]): (g, x[0]) for g, v in GROUPS.items() for x in v['values']}
GROUP_CODE = {g: v['code'] for g, v in GROUPS.items()}
VERBOSE = {x[2]: (g, x[0]) for g, v in GROUPS.items() for x in v['values']}
VERBOSE_OF = {(g, x[0]): x[2] for g, v in GROUPS.items() for x in v['values']}
TYPE_BY_CODE = {v['code']: t for t, v in TYPES.items()}

SCHEMA = {t: v['schema'] for t, v in TYPES.items()}
KEYS = {t: [tuple(None if x is None else x.split('.')[1] for x in k) for k in v['keys']] for t, v in TYPES.items()}
TABLE = {t: {tuple(x.split('.')[1] for x in k): i for k, i in v['table']} for t, v in TYPES.items()}
SIZE = {t: len(k) for t, k in KEYS.items()}
KEY_PROPS = {t: [{g: x for g, x in zip(SCHEMA[t], k) if x is not None} for k in KEYS[t]] for t in TYPES}

CONSONANTS = set('бвгджзйклмнпрстфхцчшщъьБВГДЖЗЙКЛМНПРСТФХЦЧШЩЪЬ')
VOWELS = set('аеёиоуыэюяАЕЁИОУЫЭЮЯ')
NOT_J_VOWELS = set('аиоуыэАИОУЫЭ')




class ModelError(Exception):
    """The documented error a call must end with; .kind is the name of the library error class."""
    def __init__(self, kind):
        super().__init__(kind)
        self.kind = kind


def merge(*sets):
    out = {}
    for s in sets:
        if s:
            out.update(s)
    return out


def get(props, group):
    if group in props:
        return props[group]
    return DEFAULT[group]


def distance(props):
    # WORD_TYPE has no default value, so any value of it counts
    return sum(1 for g, v in props.items() if g == 'WORD_TYPE' or v != DEFAULT[g])


def form_index(type, props):
    return TABLE[type][tuple(get(props, g) for g in SCHEMA[type])]


def raw_form(word, props):
    return word['forms'][form_index(word['type'], props)]


def word_form_text(word, props):
    """word.form(props)"""
    return raw_form(word, merge(props, word['props']))


def upper_text(word, props):
    text = raw_form(word, props)
    if get(props, 'WORD_CASE') == 'UPPER':
        text = text[:1].upper() + text[1:]
    return text


def make_form(word, props=None, fprops=None):
    p = dict(word['props']) if props is None else merge(props, word['props'])
    f = merge(fprops, word['props']) if fprops is not None else p
    return {'word': word, 'props': p, 'fprops': f}


def form_text(form):
    return upper_text(form['word'], form['fprops'])


def cluster(text):
    return text[:1] in CONSONANTS and (len(text) == 1 or text[1] in CONSONANTS)


def syllables(forms):
    return max(1, sum(1 for c in forms[0] if c in VOWELS))


def fluent(forms):
    base = [c for c in forms[0] if c in VOWELS]
    for other in forms[1:]:
        if not other:
            continue
        if [c for c in other if c in VOWELS][:len(base)] != base:
            return True
    return False


# agreement ------------------------------------------------------------------------------------------

def _noun_integer(p):
    n = get(p, 'INTEGER_FORM')
    if get(p, 'DEPENDENCY_MODE') == 'SEMANTIC':
        return merge(p, {'NOUN_FORM': 'NORMAL', 'NUMBER': 'SINGULAR' if n == 'SINGULAR' else 'PLURAL'})
    case, anim = get(p, 'CASE'), get(p, 'ANIMALITY')
    if n == 'SINGULAR':
        return merge(p, {'NOUN_FORM': 'NORMAL', 'NUMBER': 'SINGULAR'})
    if n in ('DUAL', 'COMPOSITE_DUAL'):
        governed = case == 'NOMINATIVE' or (case == 'ACCUSATIVE' and (n == 'COMPOSITE_DUAL' or anim == 'INANIMATE'))
        if governed:
            return merge(p, {'NOUN_FORM': 'NORMAL', 'NUMBER': 'SINGULAR', 'CASE': 'GENITIVE'})
        return merge(p, {'NOUN_FORM': 'COUNTABLE', 'NUMBER': 'PLURAL'})
    if n == 'PLURAL':
        if case in ('NOMINATIVE', 'ACCUSATIVE'):
            return merge(p, {'NOUN_FORM': 'COUNTABLE', 'NUMBER': 'PLURAL', 'CASE': 'GENITIVE'})
        return merge(p, {'NOUN_FORM': 'COUNTABLE', 'NUMBER': 'PLURAL'})
    return merge(p, {'NOUN_FORM': 'COUNTABLE', 'NUMBER': 'PLURAL', 'CASE': 'GENITIVE'})     # million, billion


def _adjective_integer(p):
    n = get(p, 'INTEGER_FORM')
    if get(p, 'DEPENDENCY_MODE') == 'SEMANTIC':
        return merge(p, {'NUMBER': 'SINGULAR' if n == 'SINGULAR' else 'PLURAL'})
    case, gender = get(p, 'CASE'), get(p, 'GENDER')
    direct = case in ('NOMINATIVE', 'ACCUSATIVE')
    if n == 'SINGULAR':
        return merge(p, {'NUMBER': 'SINGULAR'})
    if n == 'DUAL':
        if direct:
            return merge(p, {'NUMBER': 'PLURAL', 'CASE': 'NOMINATIVE' if gender == 'FEMININE' else 'GENITIVE'})
        return merge(p, {'NUMBER': 'PLURAL'})
    if n == 'COMPOSITE_DUAL':
        if direct:
            return merge(p, {'NUMBER': 'SINGULAR', 'CASE': 'GENITIVE'})
        return merge(p, {'NUMBER': 'PLURAL'})
    if n == 'PLURAL':
        if direct:
            return merge(p, {'NUMBER': 'PLURAL', 'CASE': 'GENITIVE'})
        return merge(p, {'NUMBER': 'PLURAL'})
    return merge(p, {'NUMBER': 'PLURAL', 'CASE': 'GENITIVE'})


def _preposition(p, word, master):
    slave = word_form_text(word, word['props'])
    text = form_text(master)
    if slave[-1:] in CONSONANTS:
        m = master['word']
        if cluster(text) and syllables(m['forms']) == 1 and fluent(m['forms']):
            return merge(p, {'PREPOSITION_FORM': 'ALTERNATIVE'})
        if slave in ('в', 'с') and slave == text[:1] and cluster(text):
            return merge(p, {'PREPOSITION_FORM': 'ALTERNATIVE'})
        return p
    if slave == 'о' and text in ('всех', 'мне', 'всём', 'что', 'всей'):
        return merge(p, {'PREPOSITION_FORM': 'SPECIAL'})
    if text[:1] in NOT_J_VOWELS:
        return merge(p, {'PREPOSITION_FORM': 'ALTERNATIVE'})
    return p


def transform(word, props, master):
    t, m = word['type'], master['word']['type']
    if t == 'PREPOSITION':
        return _preposition(props, word, master)
    if m == 'INTEGER':
        if t in ('NOUN', 'PRONOUN'):
            return _noun_integer(props)
        if t in ('ADJECTIVE', 'VERB', 'PARTICIPLE'):
            return _adjective_integer(props)
    return props


# numbers --------------------------------------------------------------------------------------------

def integer_class(n):
    n = abs(n)
    if n in (10 ** 6, 10 ** 9):
        return ('PLURAL', 'MIL_BIL')
    if n == 1:
        return ('SINGULAR', 'SINGULAR')
    if n in (2, 3, 4):
        return ('PLURAL', 'DUAL')
    if 10 <= n % 100 <= 19:
        return ('PLURAL', 'PLURAL')
    if n % 10 == 1:
        return ('PLURAL', 'SINGULAR')
    if n % 10 in (2, 3, 4):
        return ('PLURAL', 'COMPOSITE_DUAL')
    return ('PLURAL', 'PLURAL')


def integer_form(n):
    number, form = integer_class(n)
    return make_form({'type': 'INTEGER', 'forms': [str(n)], 'props': {'NUMBER': number, 'INTEGER_FORM': form}})


# dictionary -----------------------------------------------------------------------------------------

def all_forms(word):
    return [make_form(word, KEY_PROPS[word['type']][i]) for i in range(SIZE[word['type']])]


def props_record(props):
    return {GROUP_CODE[g]: CODE[(g, v)] for g, v in props.items()}


def word_rank(word):
    return (TYPES[word['type']]['code'], list(word['forms']))


class Dictionary:
    """text -> set of equally preferred candidates, the canonical one first"""

    def __init__(self, words=()):
        self.data = {}
        self.words = []
        for w in words:
            self.add(w)

    def add(self, word):
        self.words.append(word)
        for i, f in enumerate(all_forms(word)):
            text = form_text(f)
            rank = (TYPES[word['type']]['code'], list(word['forms']), distance(f['props']),
                    sorted(props_record(word['props']).items()), i)
            old = self.data.get(text)
            if old is None or rank < old[0]:
                self.data[text] = (rank, f)

    def has(self, text):
        return text in self.data

    def get(self, text):
        if text not in self.data:
            raise ModelError('NoWordsFoundError')
        return self.data[text][1]

    def get_words(self):
        out = []
        for _, f in self.data.values():
            if f['word'] not in out:
                out.append(f['word'])
        return out


# templates ------------------------------------------------------------------------------------------

def parse(text, names):
    """-> list of parts: str (literal) or {'id', 'deps': [str | dict]}; raises ModelError"""
    parts = []
    pos = 0
    while True:
        start = text.find('[', pos)
        end = -1
        if start >= 0:
            end = text.find(']', start + 1)
            # '[]' is literal: a variable holds at least one character
            if end == start + 1:
                parts.append(text[pos:start + 1])
                pos = start + 1
                continue
        if start < 0 or end < 0:
            parts.append(text[pos:])
            break
        parts.append(text[pos:start])
        parts.append(parse_variable(text[start:end + 1], names))
        pos = end + 1
    return parts


def parse_variable(variable, names):
    slugs = variable[1:-1].split('|')
    if not slugs[0].strip():
        raise ModelError('WrongDependencyFormatError')
    ident = slugs[0].strip()
    deps = []
    for slug in slugs[1:]:
        slug = slug.lower().strip()
        if slug in names:
            deps.append(slug)
            continue
        props = {}
        for s in slug.split(','):
            if not s:
                continue
            if s not in VERBOSE:
                raise ModelError('UnknownVerboseIdError')
            g, v = VERBOSE[s]
            props[g] = v
        deps.append(props)
    if ident[0].isupper():
        deps.append({'WORD_CASE': 'UPPER'})
    return {'id': ident.lower(), 'deps': deps}


def render_sub(sub, externals, dictionary):
    base = externals[sub['id']] if sub['id'] in externals else dictionary.get(sub['id'])
    sets, masters = [], []
    for d in sub['deps']:
        if isinstance(d, str):
            if d not in externals:
                raise ModelError('ExternalDependecyNotFoundError')
            sets.append(externals[d]['props'])
            masters.append(externals[d])
        else:
            sets.append(d)
    props = merge(base['props'], *sets, base['word']['props'])
    for m in masters:
        props = transform(base['word'], props, m)
    return upper_text(base['word'], props)


def render(parts, externals, dictionary):
    return ''.join(p if isinstance(p, str) else render_sub(p, externals, dictionary) for p in parts)


def undictionaried(parts, externals, dictionary):
    return [p['id'] for p in parts if not isinstance(p, str) and p['id'] not in externals and not dictionary.has(p['id'])]


# filling in -----------------------------------------------------------------------------------------

def similarity(a, b):
    s = 0
    for i, (x, y) in enumerate(zip(a, b)):
        if x == y:
            s += (1 + 0.01 * i)
    return s


_NEAREST = {}


def autofill(type, forms):
    keys = KEYS[type]
    given = tuple(i for i, f in enumerate(forms) if f)
    if not given:
        return list(forms)
    out = list(forms)
    for i, f in enumerate(forms):
        if f:
            continue
        memo = (type, i, given)
        best = _NEAREST.get(memo)
        if best is None:
            bs = -1
            for j in given:
                s = similarity(keys[i], keys[j])
                if s > bs:
                    best, bs = j, s
            _NEAREST[memo] = best
        out[i] = forms[best]
    return out


# records --------------------------------------------------------------------------------------------

def word_record(word):
    """the shipped record format, after a trip through JSON"""
    return {'type': TYPES[word['type']]['code'], 'forms': list(word['forms']),
            'properties': {str(k): v for k, v in props_record(word['props']).items()}}


def props_from_record(rec):
    out = {}
    for k, v in rec.items():
        hit = BY_CODE.get((int(k), v)) if not isinstance(v, (list, dict)) else None
        if hit:
            out[hit[0]] = hit[1]
    return out


# migrations -----------------------------------------------------------------------------------------

def migrate(step, rec):
    rec = copy.deepcopy(rec)
    code = rec['type']
    if step == '2':
        if code == 0:
            if rec['patches']:
                rec['forms'] = rec['forms'] + rec['patches'][7]['forms']
            else:
                rec['forms'] = rec['forms'] + rec['forms'][6:]
    elif step == '4':
        if code == 10:
            rec['forms'] = rec['forms'] + [rec['forms'][-1]]
    elif step == '5':
        if code == 4:
            rec['properties'] = {k: v for k, v in rec['properties'].items() if k != '5'}
    else:
        m = MIGRATIONS[step][TYPE_BY_CODE[code]]['map']
        rec['forms'] = [rec['forms'][i] for i in m]
    return rec


# lexicon --------------------------------------------------------------------------------------------

def eligible(regs, request):
    """regs: [(template id, restrictions frozenset)] in registration order"""
    return [t for t, rs in regs if rs <= request]


def nearest(regs, request):
    best = max((len(rs & request) for t, rs in regs if rs <= request), default=None)
    return [t for t, rs in regs if rs <= request and len(rs & request) == best]


def template_record(text, names):
    """the shipped record format of a template, after a trip through JSON"""
    subs, out = [], []
    for p in parse(text, names):
        if isinstance(p, str):
            out.append(p.replace('%', '%%'))
        else:
            out.append('%s')
            subs.append({'id': p['id'], 'dependencies': [d if isinstance(d, str) else {str(k): v for k, v in props_record(d).items()} for d in p['deps']]})
    return {'template': ''.join(out), 'substitutions': subs}
