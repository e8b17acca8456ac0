"""C01: concurrent rendering over shared templates, dictionary, words and numbers."""
import random

from .base import Scenario, number_ops
from .. import gen as G
from .. import model as M
from ..core import Op, Violation
from ..world import World, expected, judge, describe


def make_case(rng, n_words, n_ext, n_templates, type_bias=None):
    """shared texts, words, external value sets; no two words are tied on everything"""
    words = [G.word(rng, tag=t) for t in 'абвгдежзиклмнопрстуфхц'[:n_words]]
    if rng.random() < 0.3 and words:
        # homonyms: same spelling, other part of speech or other forms
        w = rng.choice(words)
        other = G.word(rng, tag='ъ')
        k = min(len(w['forms']), len(other['forms']))
        for i in rng.sample(range(k), rng.randint(1, min(4, k))):
            other['forms'][i] = w['forms'][rng.randrange(len(w['forms']))]
        words.append(other)
    if rng.random() < 0.2:
        # words which were described in part
        words = [G.holes(rng, w) if rng.random() < 0.5 else w for w in words]
    names = ['герой', 'mob', 'n', 'k', 'сумма', 'x1', 'item'][:n_ext]
    if rng.random() < 0.05:
        names[rng.randrange(n_ext)] = rng.choice(['доля%', '%s', '100%n'])
    if rng.random() < 0.08:
        # a value has the short name of a property
        names[rng.randrange(n_ext)] = rng.choice(['рд', 'мн', 'ед', 'прш', 'но', 'сзв'])
        names = list(dict.fromkeys(names))
        n_ext = len(names)
    if rng.random() < 0.08:
        # a value has the name of a word of the dictionary
        shared = [t for t in G.usable_texts(words) if '|' not in t and ',' not in t]
        if shared:
            names[rng.randrange(n_ext)] = rng.choice(shared)
    chains = n_ext > 1 and rng.random() < 0.25
    if chains:
        # several values in turn decide the form of a preposition
        for forms in [G.PREPS[4]] + rng.sample(G.PREPS[:4], 2):
            words.append({'type': 'PREPOSITION', 'forms': list(forms), 'props': {}})
    texts = G.usable_texts(words)
    pool = []
    for w in words:
        t = G.usable_texts([w])
        if t:
            pool += [rng.choice(t) for _ in range(4)] + t[:2]
    ext_sets = []
    for s in range(rng.randint(1, 3)):
        es = {}
        for n in names:
            if rng.random() < 0.97:
                es[n] = G.external(rng, 'ё' + 'абвгд'[s])
                if 'word' in es[n] and rng.random() < 0.06:
                    es[n]['word'] = G.holes(rng, es[n]['word'])
                if chains and rng.random() < 0.7:
                    es[n] = {'word': G.demanding_word(rng), 'props': None, 'fprops': None}
        ext_sets.append(es)
    templates = []
    for _ in range(n_templates):
        for _try in range(20):
            text = G.template_text(rng, names, pool or texts)
            if chains and rng.random() < 0.7:
                prep = rng.choice([w for w in words if w['type'] == 'PREPOSITION'])['forms'][0]
                text += '[%s]' % '|'.join([prep] + rng.sample(names, rng.randint(2, min(3, n_ext))))
            elif templates and rng.random() < 0.15:
                text = G.vary_text(rng, rng.choice(templates))
            try:
                M.parse(text, names)
                break
            except M.ModelError:
                continue
        else:
            text = 'пусто'
        templates.append(text)
    if rng.random() < 0.12:
        # one phrase after another in which words agree with numbers
        kinds = ['NOUN', 'NOUN', 'PRONOUN', 'ADJECTIVE', 'VERB', 'PARTICIPLE']
        if rng.random() < 0.5:
            kinds = [rng.choice(kinds)]
        for w in words:
            if rng.random() < 0.7:
                w.update(G.word(rng, type=rng.choice(kinds), tag='э'))
        few = [rng.choice([1, 2, 3, 4, 5, 11, 21, 22, 32, 1000000])] if rng.random() < 0.5 else [1, 2, 3, 5, 11, 21, 22, 1000000, G.number(rng)]
        for es in ext_sets:
            for n in es:
                if rng.random() < 0.7:
                    es[n] = {'int': rng.choice(few)}
        spellings = G.usable_texts(words) or ['нет']
        cases = rng.sample(['им', 'рд', 'дт', 'вн', 'тв', 'пр'], rng.randint(1, 3)) if rng.random() < 0.6 else [rng.choice(['вн', 'вн', 'им'])]
        templates = [' '.join('[%s]' % '|'.join(G.shuffled(rng, [rng.choice(spellings), ','.join(
            [rng.choice(cases)] + rng.choice([[], [], ['сзв'], ['мн'], ['од'], ['но'], ['жр'], ['ср']])), rng.choice(names)]))
            for _ in range(rng.randint(2, 6))) for _ in templates]
    if rng.random() < 0.06:
        alike = []
        for text in G.family(rng, names, pool or texts, rng.randint(2, 4)):
            try:
                M.parse(text, names)
                alike.append(text)
            except M.ModelError:
                pass
        if alike:
            templates = [rng.choice(alike) for _ in templates]
    dicts = [{'words': list(range(len(words))), 'grow': []}]
    if rng.random() < 0.5:
        # other dictionaries know other words under the same spellings, or fewer, or learn some later
        for _ in range(rng.randint(1, 2)):
            own = []
            for i, w in enumerate(list(words)):
                roll = rng.random()
                if roll < 0.6:
                    forms = [f if f in pool else f + 'ю' for f in w['forms']]
                    words.append({'type': w['type'], 'forms': forms, 'props': dict(w['props'])})
                    own.append(len(words) - 1)
                elif roll < 0.85:
                    own.append(i)
            k = rng.randint(0, len(own))
            dicts.append({'words': own[:k], 'grow': own[k:]})
    return {'words': words, 'names': names, 'externals': ext_sets, 'templates': templates, 'dicts': dicts}


class Shared:
    """library objects and model values of a case"""

    def __init__(self, world, case, lazy_int=True):
        self.world = world
        self.words = [world.word(w) for w in case['words']]
        self.dictionaries = [world.dictionary.Dictionary(words=[self.words[i] for i in d['words']]) for d in case['dicts']]
        self.m_dictionaries = [M.Dictionary([case['words'][i] for i in d['words']]) for d in case['dicts']]
        self.dictionary, self.m_dictionary = self.dictionaries[0], self.m_dictionaries[0]
        self.case = case
        self.templates = [world.template(t, case['names']) for t in case['templates']]
        self.m_templates = [M.parse(t, case['names']) for t in case['templates']]
        self.externals = [dict() for _ in case['externals']]
        self.live = {}          # one mapping per thread, used for one request after another
        self.m_externals = []
        self.ints = []
        for i, es in enumerate(case['externals']):
            m = {}
            for n, e in es.items():
                m[n] = G.model_external(e)
                if 'int' in e:
                    self.ints.append((i, n, e['int']))
                else:
                    self.externals[i][n] = world.external(e)
            self.m_externals.append(m)

    def grow(self):
        for k, d in enumerate(self.case['dicts']):
            for i in d['grow']:
                self.dictionaries[k].add_word(self.words[i])
                self.m_dictionaries[k].add(self.case['words'][i])

    def full_externals(self, i, fresh=False):
        """a request builds its numbers itself, other values are shared unless it brings its own"""
        if fresh:
            return {n: self.world.external(e) for n, e in self.case['externals'][i].items()}
        out = dict(self.externals[i])
        for j, n, v in self.ints:
            if j == i:
                out[n] = self.world.constructors.construct_integer(v)
        return out


class C01(Scenario):
    id = 'C01'
    title = 'concurrent rendering'
    fault_share = 0.0
    fault_kinds = ()
    quick_runs = 4000
    thorough_runs = 120000
    rule = ('one case = random dictionary, templates and external values shared by 2-4 threads, each making several rendering, lookup and '
            'missing-word calls; non-trivial = at least one preemption inside the library or forced change of thread; distinct by case and decisions')

    def gen(self, rng, tier):
        if rng.random() < 0.03:
            return self.long_case(rng)
        case = make_case(rng, rng.randint(1, 6), rng.randint(1, 5), rng.randint(1, 6))
        phases = []
        live_share = rng.choice([0, 0.1, 0.7])
        for _ in range(rng.choice([1, 1, 2]) if len(case['dicts']) == 1 else rng.choice([1, 2, 2])):
            threads = []
            for _t in range(rng.randint(2, 4)):
                ops = []
                for _o in range(rng.randint(1, 6)):
                    roll = rng.random()
                    if roll < 0.8:
                        ops.append({'op': 'render', 't': rng.randrange(len(case['templates'])), 'e': rng.randrange(len(case['externals']))})
                    elif roll < 0.9:
                        ops.append({'op': 'missing', 't': rng.randrange(len(case['templates'])), 'e': rng.randrange(len(case['externals']))})
                    elif roll < 0.95:
                        ops.append({'op': 'again', 't': rng.randrange(len(case['templates'])), 'e': rng.randrange(len(case['externals'])), 'n': rng.randint(2, 3)})
                    else:
                        ops.append({'op': 'form', 'w': rng.randrange(len(case['words'])), 'p': G.prop_set(rng, 0, 4)})
                    if rng.random() < 0.4:
                        ops.append({'op': 'external', 'n': rng.choice(case['names']), 'e': rng.randrange(len(case['externals']))})
                for o in ops:
                    o['d'] = rng.randrange(len(case['dicts']))
                    if o['op'] == 'render':
                        o['own'], o['fresh'] = rng.random() < 0.15, rng.random() < 0.25
                        o['live'] = _t if rng.random() < live_share else None
                threads.append(ops)
            phases.append(threads)
        case['phases'] = number_ops(phases)
        return case

    def long_case(self, rng):
        """many more requests, templates and values than any small table or limit of remembered results would hold"""
        case = make_case(rng, rng.randint(3, 12), 7, rng.choice([4, 12, 40]))
        while len(case['externals']) < rng.choice([3, 8]):
            case['externals'].append({n: G.external(rng, 'ё' + rng.choice('абвгд')) for n in case['names']})
        threads = []
        for _t in range(rng.randint(1, 2)):
            calls = [[rng.randrange(len(case['templates'])), rng.randrange(len(case['externals'])), rng.randrange(len(case['dicts'])), rng.choice([0, 0, 1, 2, 3])]
                     for _ in range(rng.choice([70, 150, 300]))]
            budget = 4000         # variables to put in
            for k, c in enumerate(calls):
                budget -= case['templates'][c[0]].count('[') * (1 + case['templates'][c[0]].count('|') // 10)
                if budget < 0:
                    del calls[k + 1:]
                    break
            ops = [{'op': 'many', 'calls': calls}]
            ops.insert(rng.randint(0, 1), {'op': 'render', 't': 0, 'e': 0, 'd': 0})
            threads.append(ops)
        case['phases'] = number_ops([threads])
        return case

    def run(self, sim, case):
        world = World()
        sh = Shared(world, case)
        for i, ph in enumerate(case['phases']):
            if i:
                sh.grow()
            sim.run([[self.op(world, sh, case, o) for o in th] for th in ph])

    def op(self, world, sh, case, o):
        return render_op(world, sh, case, o)


def render_op(world, sh, case, o, cls='text'):
    kind = o['op']
    if kind == 'form':
        w = sh.words[o['w']]
        p = world.props(o['p'])
        want = expected(lambda: M.word_form_text(case['words'][o['w']], o['p']))
        return Op(o['id'], kind, lambda: w.form(p), lambda r, e: judge(world, cls, 'form %r of word %d' % (o['p'], o['w']), want, r, e), est=120)
    if kind == 'external':
        if o['n'] not in case['externals'][o['e']]:
            return Op(o['id'], kind, lambda: None, faultable=False)

        def ask():
            f = sh.full_externals(o['e'])[o['n']]
            return f.form, bool(f.starts_with_consonant_cluster)
        m = sh.m_externals[o['e']][o['n']]
        want = expected(lambda: (M.form_text(m), M.cluster(M.form_text(m))))
        return Op(o['id'], kind, ask,
                  lambda r, e: judge(world, cls, 'text and cluster of value %s %s' % (o['n'], case['externals'][o['e']][o['n']]), want, r, e), est=120)
    if kind == 'many':
        return many_op(world, sh, case, o, cls)
    t, m_ext = sh.templates[o['t']], sh.m_externals[o['e']]
    d, m_dictionary = sh.dictionaries[o.get('d', 0)], sh.m_dictionaries[o.get('d', 0)]
    parts = sh.m_templates[o['t']]
    what = '%r' % case['templates'][o['t']]
    if kind == 'render':
        want = expected(lambda: M.render(parts, m_ext, m_dictionary))

        def render():
            own = world.template(case['templates'][o['t']], case['names']) if o.get('own') else t
            values = sh.full_externals(o['e'], o.get('fresh'))
            if o.get('live') is not None:
                live = sh.live.setdefault(o['live'], {})
                live.clear()
                live.update(values)
                values = live
            return own.substitute(values, d)
        return Op(o['id'], kind, render, lambda r, e: judge(world, cls, what, want, r, e), est=1200)
    if kind == 'again':
        want = expected(lambda: [M.render(parts, m_ext, m_dictionary)] * o['n'])
        return Op(o['id'], kind, lambda: [t.substitute(sh.full_externals(o['e']), d) for _ in range(o['n'])],
                  lambda r, e: judge(world, cls, what, want, r, e), est=3000)
    if kind == 'missing':
        want = ('ok', M.undictionaried(parts, m_ext, m_dictionary))
        return Op(o['id'], kind, lambda: t.get_undictionaried_words(sh.full_externals(o['e']), d),
                  lambda r, e: judge(world, 'missing', what, want, r, e), est=200)
    raise AssertionError(kind)


def many_op(world, sh, case, o, cls):
    """a long series of requests, each with its own values or templates now and then"""
    wants = []
    for t, e, d, own in o['calls']:
        m = (sh.m_templates[t], sh.m_externals[e], sh.m_dictionaries[d])
        wants.append(expected(lambda: M.render(*m)))

    def fn():
        out = []
        for t, e, d, own in o['calls']:
            template = world.template(case['templates'][t], case['names']) if own & 1 else sh.templates[t]
            try:
                out.append((template.substitute(sh.full_externals(e, own & 2), sh.dictionaries[d]), None))
            except Exception as error:
                out.append((None, error))
        return out

    def check(r, e):
        if e is not None:
            raise Violation(cls + '-error', 'a series of renderings failed: %s' % describe(e))
        for n, (got, error) in enumerate(r):
            judge(world, cls, 'request %d of a series: %r' % (n, case['templates'][o['calls'][n][0]]), wants[n], got, error)
    return Op(o['id'], 'many', fn, check, est=1200 * len(o['calls']))


SCENARIO = C01()
