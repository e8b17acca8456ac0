"""C15: objects made separately never influence each other."""
import json

from .base import Scenario, number_ops
from .. import gen as G
from .. import model as M
from ..core import Op, Violation
from ..world import World, expected, judge, show, describe

KEYS = ['ключ', 'k2', 'k3']
RESTRICTIONS = ['а', 'б', 'в']


class Entry:
    def __init__(self, kind, obj, model, owner):
        self.kind = kind
        self.obj = obj
        self.model = model
        self.owner = owner
        self.busy = False
        self.dead = False
        self.used = False          # another object refers to this word
        self.changed = False       # forms of this word were changed directly
        self.n = 0


class C15(Scenario):
    id = 'C15'
    title = 'independent objects'
    fault_share = 0.45
    quick_runs = 5000
    thorough_runs = 120000
    rule = ('one case = a population of up to 40 words, property sets, word forms, dictionaries, lexicons and templates, many made with default arguments or '
            'from shared inputs, which 1-3 threads create, change, fill, query, extend and combine; the full observable state of every object is compared '
            'with the model after every operation; non-trivial = a decision was taken; distinct by case and decisions')

    def gen(self, rng, tier):
        names = ['герой', 'n']
        ext = {n: G.external(rng, 'ё') for n in names}
        sets = [G.prop_set(rng, 0, 3) for _ in range(3)]
        words = [G.word(rng, tag='абв'[k]) for k in range(3)]
        if rng.random() < 0.4:
            words[2] = G.word(rng, type='PREPOSITION')
        if rng.random() < 0.5:
            words[1] = {'type': words[0]['type'], 'forms': list(words[0]['forms']), 'props': dict(words[1]['props'])}
        texts = G.usable_texts(words)[:50] or ['нет']
        threads = []
        long = rng.random() < 0.02
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _o in range(rng.randint(30, 50) if long else rng.randint(4, 14)):
                kind = rng.choices(['props', 'clone', 'word', 'restore', 'form', 'dict', 'add', 'lexicon', 'register', 'template', 'parse', 'fill', 'facts',
                                    'render', 'scribble', 'number', 'lookup', 'transform', 'choose', 'change'],
                                   [3, 2, 4, 4, 3, 2, 4, 1, 3, 2, 2, 3, 2, 2, 2, 1, 2, 3, 3, 2])[0]
                op = {'op': kind, 'n': rng.randrange(1 << 20), 'retry': rng.random() < 0.8}
                if kind == 'word':
                    w = G.word(rng, tag='гдежзик'[rng.randrange(7)])
                    if rng.random() < 0.4:
                        w = dict(rng.choice(words))
                    if rng.random() < 0.5:
                        w = G.holes(rng, w)
                    op['word'] = {'type': w['type'], 'forms': list(w['forms'])}
                if kind in ('template', 'parse'):
                    op['text'] = G.template_text(rng, names, texts, lo=0, hi=3, bad=0)
                if kind == 'register':
                    op['rs'] = None if rng.random() < 0.4 else sorted(rng.sample(RESTRICTIONS, rng.randint(0, 3)))
                    op['key'] = rng.choice(KEYS)
                if kind == 'choose':
                    op['rs'] = None if rng.random() < 0.3 else rng.randrange(3)
                    op['key'] = rng.choice(KEYS[:1] * 3 + KEYS)
                if kind == 'props':
                    op['rec'] = G.prop_set(rng, 0, 2)
                ops.append(op)
            threads.append(ops)
        return {'names': names, 'ext': ext, 'sets': sets, 'words': words, 'phases': number_ops([threads])}

    def run(self, sim, case):
        world = World()
        W = world.words
        names = case['names']
        names_given = set(names)
        wanted = [set(), {'а'}, {'а', 'в', 'г'}]            # requested restrictions, used again and again
        wanted_copy = [set(x) for x in wanted]
        ext = {n: world.external(e) for n, e in case['ext'].items()}
        ext_given = dict(ext)
        m_ext = {n: G.model_external(e) for n, e in case['ext'].items()}
        everything = []
        words_given = []

        def add(kind, obj, model, owner):
            e = Entry(kind, obj, model, owner)
            everything.append(e)
            return e

        for p in case['sets']:
            add('props', world.props(p), p, None)
        for w in case['words']:
            e = add('word', world.word(w), {'type': w['type'], 'forms': list(w['forms']), 'props': dict(w['props'])}, None)
            e.used = True
            words_given.append(e)
        base_list = [e.obj for e in words_given]
        base_dict = add('dict', world.dictionary.Dictionary(words=base_list), M.Dictionary([e.model for e in words_given]), None)
        list_copy = list(base_list)
        base_lexicon = add('lexicon', world.lexicon.Lexicon(), {}, None)
        for k, rs in enumerate([(), ('а',), ('а', 'в')]):
            t = add('template', world.template('общий %d' % k, []), 'общий %d' % k, None)
            base_lexicon.obj.add_template(KEYS[0], t.obj, frozenset(rs))
            base_lexicon.model.setdefault(KEYS[0], []).append((t.obj, frozenset(rs)))

        # saved records from which objects are restored, some of them several times; records are never changed here
        records = []

        def keep(kind, rec, model):
            records.append((kind, rec, json.dumps(rec, sort_keys=True), model))
            return records[-1]
        for w in case['words'][:2]:
            keep('word', M.word_record(w), {'type': w['type'], 'forms': list(w['forms']), 'props': dict(w['props'])})
        keep('props', world.props(case['sets'][0]).serialize(), dict(case['sets'][0]))

        def look(e, what):
            k, o, m = e.kind, e.obj, e.model
            e.n += 1
            if k == 'props':
                if world.props_of(o) != m:
                    raise Violation('props-changed', '%s; a property set is %s, should be %s' % (what, show(world.props_of(o)), show(m)))
                if o.manhattan_distance() != M.distance(m):
                    raise Violation('props-changed', '%s; distance of property set %s is %s' % (what, show(m), o.manhattan_distance()))
                for g in list(m) + ['CASE', 'NUMBER']:
                    if o.get(getattr(world.r, g)) is not world.rec(g, M.get(m, g)):
                        raise Violation('props-changed', '%s; %s of property set %s' % (what, g, show(m)))
            elif k == 'word':
                got = world.word_of(o)
                if got != m:
                    raise Violation('word-changed', '%s; a word is %s, should be %s' % (what, show(got), show(m)))
                facts = (o.number_of_syllables, bool(o.has_fluent_vowel))
                if not e.changed and facts != (M.syllables(m['forms']), M.fluent(m['forms'])):
                    raise Violation('word-changed', '%s; facts of a word with forms %s are %s' % (what, show(m['forms']), facts))
                p = {g: M.VALUES[g][(e.n * 7 + i) % len(M.VALUES[g])] for i, g in enumerate(M.SCHEMA[m['type']])}
                if o.form(world.props(p)) != M.word_form_text(m, p):
                    raise Violation('word-changed', '%s; form %s of a word is %r' % (what, show(p), o.form(world.props(p))))
            elif k == 'form':
                got = world.form_of(o)
                if got != {'word': m['word'], 'props': m['props'], 'fprops': m['fprops']}:
                    raise Violation('form-changed', '%s; a word form is %s, should be %s' % (what, show(got), show(m)))
                if o.form != M.form_text(m):
                    raise Violation('form-changed', '%s; text of a word form is %r, should be %r' % (what, o.form, M.form_text(m)))
            elif k == 'dict':
                texts = sorted(m.data)
                for t in texts[e.n % 3::max(1, len(texts) // 8)]:
                    got = world.form_of(o.get_word(t)) if o.has_word(t) else None
                    want = m.get(t)
                    if got is None or (got['word']['type'], got['word']['forms'], M.distance(got['props'])) != (
                            want['word']['type'], want['word']['forms'], M.distance(want['props'])):
                        raise Violation('dict-changed', '%s; dictionary answers %s for %r, should be %s' % (what, show(got), t, show(want)))
                listed = sorted(show(world.word_of(w)) for w in o.get_words())
                if sorted(set(listed)) != sorted(set(show(w) for w in m.get_words())):
                    raise Violation('dict-changed', '%s; dictionary lists words %s' % (what, show(listed)))
                for t in ('нетслова', 'герой'):
                    if o.has_word(t) != m.has(t):
                        raise Violation('dict-changed', '%s; dictionary has a word it was not given: %r' % (what, t))
            elif k == 'lexicon':
                for key in KEYS:
                    want = [t for t, rs in m.get(key, [])]
                    got = list(o.get_templates(key, frozenset(RESTRICTIONS)))
                    if o.has_key(key) != bool(want) or len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                        raise Violation('lexicon-changed', '%s; lexicon lists %d templates under %r, should be %d' % (what, len(got), key, len(want)))
                    free = [t for t, rs in m.get(key, []) if not rs]
                    got = list(o.get_templates(key, frozenset()))
                    if len(got) != len(free) or any(a is not b for a, b in zip(got, free)):
                        raise Violation('lexicon-changed', '%s; lexicon lists %d unrestricted templates under %r, should be %d' % (what, len(got), key, len(free)))
            elif k == 'template':
                rec = json.loads(json.dumps(o.serialize()))
                want = {'template': None, 'substitutions': []} if m is None else M.template_record(m, names)
                if rec != want:
                    raise Violation('template-changed', '%s; a template is %s, should be %s' % (what, show(rec), show(want)))
                if m is not None:
                    try:
                        r, err = o.substitute(ext, base_dict.obj), None
                    except Exception as x:
                        r, err = None, x
                    judge(world, 'template-changed', '%s; template %r' % (what, m), expected(lambda: M.render(M.parse(m, names), m_ext, base_dict.model)), r, err)

        def verify(what):
            for e in everything:
                if not e.busy and not e.dead:
                    look(e, what)
            for k, rec, text, m in records:
                if json.dumps(rec, sort_keys=True) != text:
                    raise Violation('record-changed', '%s; saved %s %s is now %s' % (what, k, show(text), show(rec)))
            if wanted != wanted_copy:
                raise Violation('request-changed', '%s; requested restrictions are now %s' % (what, show([sorted(map(str, x)) for x in wanted])))
            if names_given != set(names):
                raise Violation('names-changed', '%s; variable names are now %s' % (what, show(sorted(names_given))))
            if sorted(ext_given) != sorted(ext) or any(ext_given[n] is not ext[n] for n in ext):
                raise Violation('externals-changed', '%s; external values are now %s' % (what, show(sorted(ext_given))))
            if base_list != list_copy or any(a is not b for a, b in zip(base_list, list_copy)):
                raise Violation('list-changed', '%s; the list of words given to a dictionary has changed' % what)
            for n, f in ext.items():
                if world.form_of(f) != {k: m_ext[n][k] for k in ('word', 'props', 'fprops')}:
                    raise Violation('externals-changed', '%s; external value %s is now %s' % (what, n, show(world.form_of(f))))

        def make(owner, o):
            kind, n = o['op'], o['n']
            box = {}
            chosen = []         # by the first attempt; a retry repeats the same call

            def pick(k, own=False, where=None):
                box['picks'] = box.get('picks', 0) + 1
                if len(chosen) < box['picks']:
                    chosen.append(choose(k, own, where))
                return chosen[box['picks'] - 1]

            def choose(k, own, where):
                c = [e for e in everything if e.kind == k and not e.busy and not e.dead and (e.owner == owner or not own) and (where is None or where(e))]
                return c[n % len(c)] if c else None

            def fn():
                locked = box.get('locked', ())
                box.clear()
                box['locked'] = locked
                return plan()

            def done(r, e):
                for x in box.get('locked', ()):
                    x.busy = False
                if 'skip' in box:
                    sim.count('skipped')
                    return
                if e is not None and 'expect_error' not in box:
                    raise Violation('failed', '%s failed: %s' % (kind, describe(e)))
                box['commit'](r)
                verify('after %s' % kind)

            def on_fault(e):
                for x in box.get('locked', ()):
                    # not looked at before it was repeated: it may or may not have happened
                    if x.kind == 'lexicon' or not o['retry']:
                        x.dead = True

            def skip():
                box['skip'] = True

            def lock(*es):
                box['locked'] = es
                for x in es:
                    x.busy = True

            def commit(f):
                box['commit'] = f

            def plan():
                if kind in ('props', 'clone'):
                    a, b = pick('props'), pick('props', own=True) or pick('props')
                    recs = [world.rec(g, v) for g, v in o.get('rec', {}).items()]
                    if kind == 'props':
                        commit(lambda r: add('props', r, M.merge(a.model, b.model, o['rec']), owner))
                        if n % 5 == 0:
                            commit(lambda r: add('props', r, dict(o['rec']), owner))
                            return W.Properties(*recs)
                        return W.Properties(a.obj, b.obj, *recs)
                    if n % 3 == 0:
                        commit(lambda r: add('props', r, dict(a.model), owner))
                        return a.obj.clone()
                    commit(lambda r: add('props', r, M.merge(a.model, b.model), owner))
                    return a.obj.clone(b.obj)
                if kind == 'word':
                    m = dict(o['word'], forms=list(o['word']['forms']))
                    type = world.types[m['type']]
                    if n % 2:
                        commit(lambda r: add('word', r, dict(m, props={}), owner))
                        return W.Word(type=type, forms=list(m['forms']))
                    p = pick('props')
                    commit(lambda r: add('word', r, dict(m, props=dict(p.model)), owner))
                    return W.Word(type=type, forms=list(m['forms']), properties=p.obj)
                if kind == 'restore':
                    def a_record():
                        if n % 3:
                            return records[n % len(records)]
                        w = choose(['word', 'props', 'word', 'template'][n // 3 % 4], False, None) or choose('word', False, None)
                        if w.kind == 'word':
                            now = dict(w.model, forms=list(w.model['forms']), props=dict(w.model['props']))       # another thread may fill in the word meanwhile
                            return keep('word', M.word_record(now), now)
                        if w.kind == 'props':
                            return keep('props', w.obj.serialize(), dict(w.model))
                        return keep('template', w.obj.serialize(), w.model)
                    if not chosen:
                        chosen.append(a_record())
                    k, rec, text, m = chosen[0]
                    if k == 'word':
                        commit(lambda r: add('word', r, dict(m, forms=list(m['forms']), props=dict(m['props'])), owner))
                        return W.Word.deserialize(rec)
                    if k == 'props':
                        commit(lambda r: add('props', r, dict(m), owner))
                        return W.Properties.deserialize(rec)
                    commit(lambda r: add('template', r, m, owner))
                    return world.templates.Template.deserialize(rec)
                if kind == 'form':
                    w = pick('word', own=True, where=lambda e: not e.changed) or pick('word', where=lambda e: not e.changed)
                    w.used = True
                    p = pick('props') if n % 3 else None
                    f = pick('props', own=True) if n % 4 == 0 else None
                    commit(lambda r: add('form', r, M.make_form(w.model, None if p is None else p.model, None if f is None else f.model), owner))
                    return W.WordForm(w.obj, properties=None if p is None else p.obj, form_properties=None if f is None else f.obj)
                if kind == 'dict':
                    if n % 2:
                        commit(lambda r: add('dict', r, M.Dictionary(), owner))
                        return world.dictionary.Dictionary()
                    commit(lambda r: add('dict', r, M.Dictionary([e.model for e in words_given]), owner))
                    return world.dictionary.Dictionary(base_list)
                if kind == 'add':
                    d = pick('dict', own=True)
                    w = pick('word', where=lambda e: all(e.model['forms']) and (e.owner == owner or e.used))
                    if d is None or w is None:
                        return skip()
                    w.used = True
                    lock(d)
                    commit(lambda r: d.model.add(w.model))
                    return d.obj.add_word(w.obj)
                if kind == 'lexicon':
                    commit(lambda r: add('lexicon', r, {}, owner))
                    return world.lexicon.Lexicon()
                if kind == 'register':
                    x, t = pick('lexicon', own=True), pick('template')
                    if x is None or t is None:
                        return skip()
                    lock(x)
                    rs = frozenset(o['rs'] or ())
                    commit(lambda r: x.model.setdefault(o['key'], []).append((t.obj, rs)))
                    if o['rs'] is None:
                        return x.obj.add_template(o['key'], t.obj)
                    return x.obj.add_template(o['key'], t.obj, rs)
                if kind == 'template':
                    def fresh(r):
                        e = add('template', r, None, owner)
                        return e
                    commit(fresh)
                    return world.templates.Template()
                if kind == 'parse':
                    t = pick('template', own=True)
                    if t is None:
                        return skip()
                    lock(t)

                    def parsed(r):
                        if expected(lambda: M.parse(o['text'], names))[0] == 'ok':
                            t.model = o['text']
                    commit(parsed)
                    box['expect_error'] = expected(lambda: M.parse(o['text'], names))[0] != 'ok' or None
                    if box['expect_error'] is None:
                        del box['expect_error']
                    return t.obj.parse(o['text'], externals=names_given)
                if kind == 'fill':
                    w = pick('word', own=True, where=lambda e: not e.used)
                    if w is None:
                        return skip()
                    lock(w)

                    def filled(r):
                        w.model['forms'] = M.autofill(w.model['type'], w.model['forms'])
                    commit(filled)
                    return w.obj.autofill_missed_forms()
                if kind == 'change':
                    # the owner of a word nobody else uses changes one of its forms
                    w = pick('word', own=True, where=lambda e: not e.used)
                    if w is None:
                        return skip()
                    i = n % len(w.model['forms'])
                    w.changed = True        # facts asked for earlier may be those of the earlier forms
                    w.obj.forms[i] = w.model['forms'][i] = 'изм%d' % (n % 50)
                    commit(lambda r: None)
                    return None
                if kind == 'facts':
                    w = pick('word', where=lambda e: e.owner == owner or e.used)
                    if w is None:
                        return skip()
                    commit(lambda r: None)
                    return (w.obj.number_of_syllables, w.obj.has_fluent_vowel, w.obj.normal_form(), w.obj.serialize())
                if kind == 'render':
                    t = pick('template', own=True, where=lambda e: e.model is not None)
                    d = pick('dict', own=True) or base_dict
                    if t is None:
                        return skip()
                    want = expected(lambda: M.render(M.parse(t.model, names), m_ext, d.model))
                    box['expect_error'] = True
                    commit(lambda r: None)
                    try:
                        r = t.obj.substitute(ext_given, d.obj)
                    except world.exceptions.UtgError if hasattr(world.exceptions, 'UtgError') else LookupError:
                        return None
                    if want != ('ok', r):
                        raise Violation('template-changed', 'template %r renders %r, should be %s' % (t.model, r, show(want)))
                    return r
                if kind == 'scribble':
                    commit(lambda r: None)
                    d = pick('dict', own=True) or base_dict
                    t = pick('template', own=True)
                    x = pick('lexicon', own=True)
                    for got in ([d.obj.get_words()] + ([t.obj.get_undictionaried_words({}, d.obj)] if t else []) +
                                ([x.obj.get_templates(k, frozenset(RESTRICTIONS)) for k in KEYS] if x else [])):
                        if isinstance(got, (set, list)):
                            got.clear()
                    return None
                if kind == 'number':
                    num = n % 30
                    commit(lambda r: add('form', r, M.integer_form(num), owner))
                    return world.constructors.construct_integer(num)
                if kind == 'lookup':
                    d = pick('dict', own=True) or base_dict
                    texts = sorted(d.model.data)
                    if not texts:
                        return skip()
                    commit(lambda r: None)
                    return d.obj.get_word(texts[n % len(texts)])
                if kind == 'choose':
                    x = pick('lexicon', own=True) or base_lexicon
                    rs = wanted[0] if o['rs'] is None else wanted[o['rs']]
                    regs = list(x.model.get(o['key'], ()))
                    fn = x.obj.get_random_template if n % 2 else x.obj.get_random_nearest_template
                    best = max((len(g[1] & rs) for g in regs if g[1] <= rs), default=-1)
                    ok = [t for t, g in regs if g <= rs and (n % 2 or len(g & rs) == best)]
                    box['expect_error'] = True

                    def chosen_ok(r):
                        if r is None and ok or r is not None and not any(r is t for t in ok):
                            raise Violation('lexicon-changed', 'a choice under %r with %s gave %s, %d templates qualify' % (o['key'], sorted(rs), show(r), len(ok)))
                    commit(chosen_ok)
                    try:
                        return fn(o['key']) if o['rs'] is None else fn(o['key'], rs)
                    except (world.exceptions.UnknownLexiconKeyError, world.exceptions.NoTemplatesWithSpecifiedRestrictions):
                        return None
                # transform
                w = pick('word', where=lambda e: all(e.model['forms']) and (e.owner == owner or e.used) and (n % 3 or e.model['type'] == 'PREPOSITION'))
                m = pick('form', where=lambda e: all(e.model['word']['forms'])) if n % 4 else None
                p = pick('props', own=True) or pick('props')
                if w is None:
                    return skip()
                f, fm = (ext_given[names[n % 2]], m_ext[names[n % 2]]) if m is None else (m.obj, m.model)
                commit(lambda r: add('props', r, M.transform(w.model, p.model, fm), owner))
                return world.transformators.transform(slave_word=w.obj, slave_propeties=p.obj, master_form=f)
            est = {'add': 5000, 'fill': 4000, 'dict': 8000, 'render': 1500, 'parse': 300}.get(kind, 150)
            return Op(o['id'], kind, fn, done, est=est, retry=o['retry'], on_fault=on_fault)

        verify('at the start')
        sim.run([[make(k, o) for o in th] for k, th in enumerate(case['phases'][0])])
        verify('at the end')
        # objects made with default arguments are as new
        fresh = [Entry('props', W.Properties(), {}, None), Entry('dict', world.dictionary.Dictionary(), M.Dictionary(), None),
                 Entry('lexicon', world.lexicon.Lexicon(), {}, None), Entry('template', world.templates.Template(), None, None)]
        w = {'type': 'NOUN', 'forms': ['ф%d' % i for i in range(M.SIZE['NOUN'])], 'props': {}}
        fresh.append(Entry('word', W.Word(type=world.types['NOUN'], forms=list(w['forms'])), w, None))
        for e in fresh:
            look(e, 'a new %s' % e.kind)
        x = world.lexicon.Lexicon()
        t = world.templates.Template()
        x.add_template('новый', t)
        if list(x.get_templates('новый', frozenset())) != [t]:
            raise Violation('lexicon-changed', 'a template registered without restrictions is not listed for a request without restrictions')


SCENARIO = C15()
