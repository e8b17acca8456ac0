"""Operations of C14: what the library answers (`run`) and what the model prescribes (`want`), both as JSON values."""
import hashlib
import json
import random

from . import gen as G
from . import model as M
from .world import World

STEPS = ['2', '4', '5', '7', '8', '9']


def make_world():
    return World()


def digest(x):
    return hashlib.blake2b(json.dumps(x, ensure_ascii=False, sort_keys=True).encode('utf-8'), digest_size=10).hexdigest()


def plain_form(f):
    return [f['word']['type'], f['word']['forms'], sorted(f['word']['props'].items()), sorted(f['props'].items()), sorted(f['fprops'].items())]


def tables_of(world):
    """every table of the library as plain lists, as seen through its public calls"""
    import itertools
    r, P, Word = world.r, world.words.Properties, world.words.Word

    def nm(x):
        return None if x is None else x.name
    out = {}
    for t, rec in world.types.items():
        n = Word.get_forms_number(rec)
        out['keys/' + t] = [[nm(x) for x in k] for k in Word.get_keys(rec)]
        out['schema/' + t] = [g.__name__ for g in rec.schema]
        word = Word(rec, ['%d' % i for i in range(n)])
        out['all-forms/' + t] = [sorted(world.props_of(f.properties).items()) for f in word.all_forms()]
        full = []
        for combo in itertools.product(*[g.records for g in rec.schema]):
            full.append([[nm(x) for x in combo], int(word.form(P(*combo)))])
        out['full/' + t] = sorted(full)
    for g in M.GROUPS:
        rel = getattr(r, g)
        out['values/' + g] = [[x.name, x.value, getattr(x, 'verbose_id', None)] for x in rel.records]
        if g != 'WORD_TYPE':
            out['default/' + g] = nm(P().get(rel))
    names = []
    for v in M.VERBOSE:
        if v == v.lower() and not set(v) & set(',|[]'):
            t = world.templates.Template()
            t.parse('[x|%s]' % v, externals=[])
            dep = t.serialize()['substitutions'][0]['dependencies'][0]
            names.append([v, [[int(k), x] for k, x in dep.items()]])
    out['names'] = sorted(names)
    return out


def tables_wanted():
    out = {}
    for t in M.TYPES:
        out['keys/' + t] = [list(k) for k in M.KEYS[t]]
        out['schema/' + t] = M.SCHEMA[t]
        out['all-forms/' + t] = [[list(x) for x in sorted(p.items())] for p in M.KEY_PROPS[t]]
        out['full/' + t] = sorted([list(k), i] for k, i in M.TABLE[t].items())
    for g in M.GROUPS:
        out['values/' + g] = [[x[0], x[1], x[2]] for x in M.GROUPS[g]['values']]
        if g != 'WORD_TYPE':
            out['default/' + g] = M.DEFAULT[g]
    out['names'] = sorted([v, [[M.GROUP_CODE[g], M.CODE[(g, n)]]]] for v, (g, n) in M.VERBOSE.items() if v == v.lower() and not set(v) & set(',|[]'))
    return out


def run(world, op):
    kind = op['op']
    if kind == 'tables':
        t = tables_of(world)
        return t[op['dump']] if op.get('dump') else {k: digest(v) for k, v in t.items()}
    if kind == 'lookups':
        d = world.dictionary.Dictionary()
        for w in op['words']:
            d.add_word(world.word(w))
        return [[plain_form(world.form_of(d.get_word(t))) for t in op['texts']], [d.has_word(t) for t in op['absent']],
                sorted(plain_form({'word': world.word_of(w), 'props': {}, 'fprops': {}}) for w in d.get_words())]
    if kind == 'render':
        d = world.dictionary.Dictionary(words=[world.word(w) for w in op['words']])
        t = world.template(op['text'], op['names'])
        ext = {n: world.external(e) for n, e in op['ext'].items()}
        return [t.substitute(ext, d), t.get_undictionaried_words({}, d)]
    if kind == 'fill':
        w = world.word(op['word'])
        w.autofill_missed_forms()
        return w.forms
    if kind == 'word-record':
        w = world.word(op['word'])
        back = world.words.Word.deserialize(json.loads(op['record']))
        return [json.loads(json.dumps(w.serialize())), plain_form({'word': world.word_of(back), 'props': {}, 'fprops': {}}), w == back]
    if kind == 'template-record':
        t = world.template(op['text'], op['names'])
        back = world.templates.Template.deserialize(json.loads(op['record']))
        return [json.loads(json.dumps(t.serialize())), json.loads(json.dumps(back.serialize())), t == back]
    if kind == 'numbers':
        return [[f.form, sorted(world.props_of(f.properties).items())] for f in map(world.constructors.construct_integer, op['numbers'])]
    if kind == 'migrate':
        from .scenarios.c13_migrate import migrations
        funcs = migrations()
        rec = json.loads(op['record'])
        for s in STEPS:
            rec = funcs[s](rec)
        return rec
    if kind == 'forms':
        w = world.word(op['word'])
        return [[w.form(world.props(p)) for p in op['props']], [f.form for f in w.all_forms()], w.normal_form()]
    if kind == 'facts':
        w = world.word(op['word'])
        return [w.number_of_syllables, bool(w.has_fluent_vowel), bool(world.form(w).starts_with_consonant_cluster),
                [world.props(p).manhattan_distance() for p in op['props']]]
    if kind == 'picks':
        lex = world.lexicon.Lexicon()
        ts = []
        for i, (key, rs) in enumerate(op['regs']):
            t = world.templates.Template()
            t.parse('шаблон %d' % i, externals=[])
            ts.append(t)
            lex.add_template(key, t, frozenset(rs))
        out = []
        for key, rs, seed, nearest in op['requests']:
            random.seed(seed)
            try:
                f = lex.get_random_nearest_template if nearest else lex.get_random_template
                t = f(key, frozenset(rs))
                out.append([i for i, x in enumerate(ts) if x is t])
            except Exception as e:
                out.append(type(e).__name__)
            out.append([[i for i, x in enumerate(ts) if x is y][0] for y in lex.get_templates(key, frozenset(rs))])
        return out
    if kind == 'rejects':
        return [rejected(world, item) for item in op['items']]
    raise KeyError(kind)


def rejected(world, item):
    """-> what a request that must be refused came to"""
    what = item[0]
    try:
        if what == 'word':
            world.words.Word(world.types[item[1]], ['ф%d' % i for i in range(item[2])])
        elif what == 'record':
            world.words.Word.deserialize(json.loads(item[1]))
        elif what == 'template-record':
            world.templates.Template.deserialize(json.loads(item[1]))
        elif what == 'parse':
            world.template(item[1], item[2])
        elif what == 'absent':
            world.dictionary.Dictionary(words=[world.word(w) for w in item[1]]).get_word(item[2])
        elif what == 'render':
            world.template(item[1], item[2]).substitute({}, world.dictionary.Dictionary())
        elif what == 'lexicon':
            lex = world.lexicon.Lexicon()
            lex.add_template('ключ', world.template('а', []), frozenset(['мужской']))
            lex.get_random_template(item[1], frozenset(item[2]))
    except Exception as e:
        return 'rejected' if what.endswith('record') else type(e).__name__
    return 'accepted'


def rejected_want(item):
    what = item[0]
    if what.endswith('record'):
        return 'rejected'
    if what == 'word':
        return 'WrongFormsNumberError'
    if what == 'absent':
        return 'NoWordsFoundError'
    if what == 'lexicon':
        return 'UnknownLexiconKeyError' if item[1] != 'ключ' else 'NoTemplatesWithSpecifiedRestrictions'
    try:
        parts = M.parse(item[1], item[2])
        if what == 'render':
            M.render(parts, {}, M.Dictionary([]))
    except M.ModelError as e:
        return e.kind
    return 'accepted'


def want(op):
    """-> value, or None when only agreement between processes is prescribed; raises ModelError"""
    kind = op['op']
    if kind == 'tables':
        return {k: digest(v) for k, v in tables_wanted().items()}
    if kind == 'lookups':
        d = M.Dictionary(op['words'])
        return norm([[plain_form(d.get(t)) for t in op['texts']], [d.has(t) for t in op['absent']],
                     sorted(plain_form({'word': w, 'props': {}, 'fprops': {}}) for w in d.get_words())])
    if kind == 'render':
        d = M.Dictionary(op['words'])
        parts = M.parse(op['text'], op['names'])
        return [M.render(parts, {n: G.model_external(e) for n, e in op['ext'].items()}, d), M.undictionaried(parts, {}, d)]
    if kind == 'fill':
        return M.autofill(op['word']['type'], op['word']['forms'])
    if kind == 'word-record':
        return norm([M.word_record(op['word']), plain_form({'word': op['word'], 'props': {}, 'fprops': {}}), True])
    if kind == 'template-record':
        rec = M.template_record(op['text'], op['names'])
        return [rec, rec, True]
    if kind == 'numbers':
        return norm([[M.form_text(f), sorted(f['props'].items())] for f in map(M.integer_form, op['numbers'])])
    if kind == 'migrate':
        rec = json.loads(op['record'])
        for s in STEPS:
            rec = M.migrate(s, rec)
        return rec
    if kind == 'forms':
        w = op['word']
        return [[M.word_form_text(w, p) for p in op['props']], [M.form_text(f) for f in M.all_forms(w)], M.word_form_text(w, w['props'])]
    if kind == 'facts':
        w = op['word']
        return [M.syllables(w['forms']), M.fluent(w['forms']), M.cluster(M.form_text(M.make_form(w))), [M.distance(p) for p in op['props']]]
    if kind == 'picks':
        return None
    if kind == 'rejects':
        return [rejected_want(item) for item in op['items']]
    raise KeyError(kind)


def norm(x):
    return json.loads(json.dumps(x))
