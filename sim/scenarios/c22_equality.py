"""C22: equality and hashes agree and stay what they were."""
import json

from .base import Scenario, number_ops
from .. import gen as G
from .. import model as M
from ..core import Op, Violation
from ..world import World, show, describe


class C22(Scenario):
    id = 'C22'
    title = 'equality and hashes'
    fault_share = 0.5
    quick_runs = 10000
    thorough_runs = 150000
    rule = ('one case = 6-25 (rarely 60-150) property sets, words, word forms and templates, many of them equal or alike but made in different ways (constructed, combined, '
            'copied, restored from a record, other order), kept in sets and mappings; 1-3 threads compare them, look them up, take hashes, query, render and fill in '
            'words meanwhile; non-trivial = a decision was taken; distinct by case and decisions')

    def gen(self, rng, tier):
        props = [{}]
        for _ in range(rng.randint(1, 4)):
            p = dict(rng.choice(props)) if rng.random() < 0.6 else G.prop_set(rng, 0, 4)
            if rng.random() < 0.6:
                g = rng.choice(G.FORM_GROUPS)
                p[g] = rng.choice([M.VALUES[g][0], rng.choice(M.VALUES[g])])        # the default value, named or not
            if p and rng.random() < 0.3:
                g = rng.choice(sorted(p))
                p[g] = rng.choice(M.VALUES[g])
            props.append(p)
        words = []
        for _ in range(rng.randint(1, 5)):
            if words and rng.random() < 0.6:
                w = rng.choice(words)
                w = {'type': w['type'], 'forms': list(w['forms']), 'props': dict(w['props'])}
                roll = rng.random()
                if roll < 0.4:
                    i = rng.choice([0, len(w['forms']) - 1, rng.randrange(len(w['forms']))])
                    w['forms'][i] = rng.choice(['', 'а' + w['forms'][i], w['forms'][i].upper()])
                elif roll < 0.7:
                    w['props'].update(rng.choice(props))
                elif roll < 0.8:
                    w['forms'] = w['forms'][::-1]
            else:
                w = G.word(rng, tag='абв'[len(words) % 3])
                if rng.random() < 0.5:
                    w = G.holes(rng, w)
            words.append(w)
        names = ['герой', 'n']
        texts = []
        for _ in range(rng.randint(1, 4)):
            t = G.vary_text(rng, rng.choice(texts)) if texts and rng.random() < 0.6 else G.template_text(rng, names, ['слово', 'дом'], lo=0, hi=3)
            try:
                M.parse(t, names)
            except M.ModelError:
                continue
            texts.append(t)
        objects = []
        for _ in range(rng.randint(60, 150) if rng.random() < 0.02 else rng.randint(6, 25)):
            kind = rng.choices(['props', 'word', 'form', 'number', 'template'], [3, 3, 4, 1, 2])[0]
            how = rng.choice(['new', 'new', 'copy', 'record', 'steps', 'order', 'extended', 'extended'])
            if kind == 'props':
                objects.append({'kind': kind, 'how': how, 'i': rng.randrange(len(props)), 'seed': rng.randrange(100)})
            elif kind == 'word':
                objects.append({'kind': kind, 'how': how, 'i': rng.randrange(len(words)), 'seed': rng.randrange(100)})
            elif kind == 'form':
                objects.append({'kind': kind, 'i': rng.randrange(len(words)), 'of': rng.randrange(100), 'p': rng.choice([None] + list(range(len(props)))),
                                'f': rng.choice([None, None] + list(range(len(props)))), 'all': rng.random() < 0.2})
            elif kind == 'number':
                objects.append({'kind': kind, 'n': rng.choice([0, 1, 2, 3, 11, 21, 10 ** 6, -1])})
            elif texts:
                objects.append({'kind': kind, 'how': how, 'i': rng.randrange(len(texts))})
        n = len(objects)
        threads = []
        for _t in range(rng.choice([1, 2, 2, 3])):
            ops = []
            for _o in range(rng.randint(2, 8)):
                kind = rng.choices(['eq', 'hash', 'find', 'keep', 'unite', 'use', 'fill'], [4, 3, 4, 2, 2, 2, 2])[0]
                o = {'op': kind, 'a': rng.randrange(n), 'b': rng.randrange(n), 'retry': kind == 'fill' or rng.random() < 0.8}
                if kind in ('keep', 'unite'):
                    o['items'] = rng.sample(range(n), min(n, rng.choice([2, 4, 8, 40])))
                ops.append(o)
            threads.append(ops)
        return {'fresh': rng.random() < 0.5, 'props': props, 'words': words, 'names': names, 'texts': texts, 'objects': objects, 'phases': number_ops([threads])}

    def run(self, sim, case):
        world = World()
        W = world.words
        names = case['names']
        objs, kinds, models = [], [], []
        words = []              # number of the object -> [forms before, forms after or None]: two while it is being filled in
        state = {}
        by_word = {}

        def make_props(p, how, seed):
            items = list(p.items())
            if how == 'order':
                items = items[::-1]
            x = W.Properties(*[world.rec(g, v) for g, v in items])
            if how == 'copy':
                x = x.clone()
            elif how == 'record':
                x = W.Properties.deserialize(json.loads(json.dumps(x.serialize())))
            elif how == 'extended':
                # a copy, with more properties, of a set which has been hashed and compared
                k = seed % (len(items) + 1)
                some = W.Properties(*[world.rec(g, v) for g, v in items[:k]])
                hash(some), some == x, {some: 1}
                rest = [world.rec(g, v) for g, v in items[k:]]
                x = [lambda: some.clone(*rest), lambda: W.Properties(some, *rest), lambda: W.Properties(some, W.Properties(*rest))][seed % 3]()
            elif how == 'steps':
                x = W.Properties()
                for g, v in items:
                    other = M.VALUES[g][seed % len(M.VALUES[g])]
                    x = x.clone(world.rec(g, other)).clone(W.Properties(world.rec(g, v)))
            return x

        def make_word(i, how, seed):
            w = case['words'][i]
            x = W.Word(type=world.types[w['type']], forms=list(w['forms']), properties=make_props(w['props'], how, seed))
            if how == 'record':
                x = W.Word.deserialize(json.loads(json.dumps(x.serialize())))
            return x

        for s in case['objects']:
            k = s['kind']
            number = len(objs)
            if k == 'props':
                x, m = make_props(case['props'][s['i']], s['how'], s['seed']), case['props'][s['i']]
            elif k == 'word':
                x, m = make_word(s['i'], s['how'], s['seed']), {'w': number, 'props': case['words'][s['i']]['props'], 'type': case['words'][s['i']]['type']}
                state[number] = [case['words'][s['i']]['forms']]
                by_word.setdefault(s['i'], []).append(number)
                words.append(number)
            elif k == 'form':
                # of a word among the objects, where there is one
                same = by_word.get(s['i'])
                if same:
                    number = same[s['of'] % len(same)]
                    word = objs[number]
                else:
                    number = -1 - len(objs)
                    word = make_word(s['i'], 'new', 0)
                    state[number] = [case['words'][s['i']]['forms']]
                w = case['words'][s['i']]
                p = None if s['p'] is None else case['props'][s['p']]
                f = None if s['f'] is None else case['props'][s['f']]
                x = world.form(word, p, f)
                m = {'w': number, 'props': w['props'], 'type': w['type'], 'fp': M.make_form(w, p, f)['props'], 'index': s['i']}
            elif k == 'number':
                x = world.constructors.construct_integer(s['n'])
                mf = M.integer_form(s['n'])
                number = -1 - len(objs)
                state[number] = [mf['word']['forms']]
                m = {'w': number, 'props': mf['word']['props'], 'type': 'INTEGER', 'fp': mf['props']}
                k = 'form'
            else:
                x = world.template(case['texts'][s['i']], names)
                if s['how'] == 'record':
                    x = world.templates.Template.deserialize(json.loads(json.dumps(x.serialize())))
                elif s['how'] == 'steps':
                    x = world.templates.Template()
                    x.parse('раньше [герой|им] [n]', externals=names)
                    x.parse(case['texts'][s['i']], externals=names)
                m = M.template_record(case['texts'][s['i']], names)
            objs.append(x)
            kinds.append(k)
            models.append(m)
        hashable = [i for i in range(len(objs)) if kinds[i] != 'template']
        first = {}
        for i in hashable:
            s = case['objects'][i]
            if not case['fresh'] or s['kind'] == 'number':
                first[i] = hash(objs[i])
            elif s['kind'] == 'props':      # the hash of an equal object, so that the first hash of this one is taken by a thread
                first[i] = hash(make_props(case['props'][s['i']], 'new', 0))
            elif s['kind'] == 'word':
                first[i] = hash(make_word(s['i'], 'new', 0))
            else:
                first[i] = hash(world.form(make_word(s['i'], 'new', 0), None if s['p'] is None else case['props'][s['p']], None if s['f'] is None else case['props'][s['f']]))

        def same(i, j, then=None):
            """-> set of possible answers to 'are they equal'"""
            a, b = models[i], models[j]
            if kinds[i] != kinds[j]:
                return {False}
            if kinds[i] in ('props', 'template'):
                return {a == b}
            if (a['type'], a['props'], a.get('fp')) != (b['type'], b['props'], b.get('fp')):
                return {False}
            if a['w'] == b['w']:
                return {True}
            x, y = (then or state)[a['w']], (then or state)[b['w']]
            return {p == q for p in x for q in y}

        def comparable(i, j):
            return kinds[i] == kinds[j] or not {kinds[i], kinds[j]} & {'form', 'template'}

        def over(before):
            """forms words may have had from then until now"""
            return {n: [f for k, f in enumerate(before[n] + state[n]) if f not in (before[n] + state[n])[:k]] for n in state}

        def name(i):
            return '%s %d (%s)' % (kinds[i], i, show(case['objects'][i]))

        def verify(what):
            for i in hashable:
                if hash(objs[i]) != first[i]:
                    raise Violation('hash-changed', '%s; hash of %s has changed, or is not the one of an equal object' % (what, name(i)))

        def make(o):
            kind, a, b = o['op'], o['a'], o['b']
            x, y = objs[a], objs[b]
            box = {}

            def begin(fn):
                def run():
                    box['before'] = {n: list(v) for n, v in state.items()}
                    return fn()
                return run

            def judged(check):
                def run(r, e):
                    if e is not None:
                        raise Violation('compare-error', '%s of %s and %s failed: %s' % (kind, name(a), name(b), describe(e)))
                    check(r, over(box['before']))
                    verify('after ' + kind)
                return run

            def answer(got, i, j, then, what):
                if got not in same(i, j, then):
                    raise Violation('equality-wrong', '%s: %s and %s are %s' % (what, name(i), name(j), 'equal' if got else 'not equal'))
            if kind == 'fill':
                chosen = [n for n in words]
                if not chosen:
                    return Op(o['id'], 'skip', lambda: None, faultable=False)
                i = chosen[a % len(chosen)]
                w = objs[i]

                def fill():
                    full = M.autofill(models[i]['type'], state[i][0])
                    if full not in state[i]:
                        state[i] = state[i] + [full]
                    return w.autofill_missed_forms()

                def filled(r, e):
                    if e is not None:
                        raise Violation('fill-error', 'filling failed: %s' % describe(e))
                    state[i] = state[i][-1:]
                    verify('after fill')
                return Op(o['id'], kind, fill, filled, est=4000, retry=True)
            if kind == 'eq':
                if not comparable(a, b):
                    return Op(o['id'], 'skip', lambda: None, faultable=False)

                def check(r, then):
                    answer(r[0], a, b, then, 'a == b')
                    if kinds[a] != 'template':
                        answer(not r[1], a, b, then, 'a != b')
                return Op(o['id'], kind, begin(lambda: (x == y, x != y)), judged(check), est=100, retry=o['retry'])
            if kind == 'use':
                def use():
                    if kinds[a] == 'props':
                        return [x.get(world.r.CASE), x.is_specified(world.r.NUMBER), x.serialize()]
                    if kinds[a] == 'word':
                        return [x.number_of_syllables, x.has_fluent_vowel, x.normal_form(), x.serialize(), [f.form for f in x.all_forms()][:3]]
                    if kinds[a] == 'form':
                        t = world.template('[герой|загл] [n|герой|мн,дт]', names)
                        return [x.form, x.starts_with_consonant_cluster,
                                t.substitute({'герой': x, 'n': y if kinds[b] == 'form' else x}, world.dictionary.Dictionary())]
                    return [x.serialize(), x.get_undictionaried_words({}, world.dictionary.Dictionary())]
                return Op(o['id'], kind, begin(use), judged(lambda r, then: None), est=1500, retry=o['retry'])
            items = [i for i in o.get('items', range(len(objs))) if kinds[i] != 'template']
            if kinds[a] == 'template' or not items:
                return Op(o['id'], 'skip', lambda: None, faultable=False)
            mates = [i for i in items if comparable(a, i)]
            if kind == 'hash':
                if kinds[b] == 'template':
                    return Op(o['id'], 'skip', lambda: None, faultable=False)

                def check(r, then):
                    if r[0] != first[a] or r[1] != first[b]:
                        raise Violation('hash-changed', 'hash of %s or %s has changed' % (name(a), name(b)))
                    if same(a, b, then) == {True} and r[0] != r[1]:
                        raise Violation('hash-differs', '%s and %s are equal and have different hashes' % (name(a), name(b)))
                return Op(o['id'], kind, begin(lambda: (hash(x), hash(y))), judged(check), est=150, retry=o['retry'])
            if kind == 'find':
                # every object is found among its kind: in a set, in a mapping and in a list
                built = []

                def find():
                    if not built:
                        there = {n: list(v) for n, v in state.items()}
                        kept = {objs[i]: i for i in reversed(mates)}
                        kept_set = set(objs[i] for i in mates)
                        built.extend([there, kept_set, kept, [objs[i] for i in mates]])
                    return (x in built[1], x in built[2], x in built[3])

                def check(r, then):
                    there, kept_set, kept, listed = built
                    stored = [i for i in mates if any(objs[i] is k for k in kept_set)], [i for i in mates if any(objs[i] is k for k in kept)], mates
                    then = {n: there[n] + [f for f in then[n] if f not in there[n]] for n in then}
                    for where, inside, got in zip(('set', 'mapping', 'list'), stored, r):
                        verdicts = [same(a, i, then) for i in inside]
                        must, may = a in inside or {True} in verdicts, a in inside or any(True in v for v in verdicts)
                        if must and not got:
                            raise Violation('not-found', '%s is not found in a %s of objects in which it or an equal one is' % (name(a), where))
                        if got and not may:
                            raise Violation('found', '%s is found in a %s of objects in which no equal one is' % (name(a), where))
                return Op(o['id'], kind, begin(find), judged(check), est=400 + 200 * len(mates), retry=o['retry'])
            if kind == 'keep':
                def keep():
                    d = {}
                    for i in mates:
                        d[objs[i]] = i
                    return d

                def check(r, then):
                    for i in mates:
                        for j in mates:
                            if i < j and same(i, j, then) == {False} and (r.get(objs[i]) == j or r.get(objs[j]) == i):
                                raise Violation('found', '%s and %s are taken for one' % (name(i), name(j)))
                    for i in mates:
                        k = r.get(objs[i])
                        if any(len(then[models[m]['w']]) > 1 for m in mates if kinds[m] in ('word', 'form')):
                            break           # equal words became different meanwhile
                        if k is None or True not in same(i, k, then):
                            raise Violation('not-found', '%s is not found in the mapping it was put into (or under a wrong value: %s)' % (name(i), k))
                return Op(o['id'], kind, begin(keep), judged(check), est=150 * len(mates) + 10, retry=o['retry'])
            # unite: how many different ones are there
            def check(r, then):
                groups = []
                sure = True
                for i in mates:
                    for g in groups:
                        v = same(g[0], i, then)
                        sure = sure and len(v) == 1
                        if True in v:
                            g.append(i)
                            break
                    else:
                        groups.append([i])
                if sure and r != len(groups):
                    raise Violation('united', 'a set of %s has %d elements, there are %d different ones' % (', '.join(name(i) for i in mates), r, len(groups)))
            return Op(o['id'], kind, begin(lambda: len(set(objs[i] for i in mates))), judged(check), est=150 * len(mates) + 10, retry=o['retry'])

        sim.run([[make(o) for o in th] for th in case['phases'][0]])
        verify('at the end')
        for i in range(len(objs)):
            for j in range(len(objs)):
                if comparable(i, j):
                    if (objs[i] == objs[j]) not in same(i, j):
                        raise Violation('equality-wrong', 'at the end: %s and %s are %s' % (name(i), name(j), 'equal' if objs[i] == objs[j] else 'not equal'))
                    if i in first and j in first and same(i, j) == {True} and first[i] != first[j]:
                        raise Violation('hash-differs', '%s and %s are equal and have different hashes' % (name(i), name(j)))


SCENARIO = C22()
