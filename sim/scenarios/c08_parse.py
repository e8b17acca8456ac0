"""C08: parsing is all-or-nothing and repeatable."""
from .base import Scenario, number_ops
from .. import gen as G
from .. import model as M
from ..core import Op, Violation
from ..world import World, expected, judge, show, describe

BAD = ['[ |им]', '[|им]', 'текст [нетзависимости|кривое] дальше', '[{n}|им][|рд]', '[{n}|им] [{t}|вн,нечто]', '[{t}][{n}|неизвестно]', '{n} [{n}] [{t}|мн|ошибка]']


class C08(Scenario):
    id = 'C08'
    title = 'parsing'
    fault_share = 0.6
    quick_runs = 10000
    thorough_runs = 150000
    rule = ('one case = 1-4 template objects, each driven by one thread through 2-7 (rarely 40-150) accepted, rejected, interrupted and abandoned parses and renderings, next '
            'to threads rendering templates that are not parsed again; non-trivial = a decision was taken; distinct by case and decisions')

    def gen(self, rng, tier):
        words = [G.word(rng, tag=t) for t in 'абв'[:rng.randint(1, 3)]]
        # the names differ from parse to parse; some of them are spelled like properties
        pool = ['герой', 'mob', 'n', 'рд', 'мн', 'ед', 'прш']
        pool = pool[:rng.randint(1, 3)] if rng.random() < 0.4 else rng.sample(pool, rng.randint(2, 7))
        if rng.random() < 0.06:
            pool += ['имя%d' % k for k in range(rng.randint(3, 40))]
        if rng.random() < 0.1:
            pool[rng.randrange(len(pool))] = rng.choice(['доля%', '%s'])
        sets = [pool] + [rng.sample(pool, rng.randint(0, len(pool))) for _ in range(rng.choice([0, 1, 2, 3]))]
        if len(pool) > 1 and rng.random() < 0.5:
            # as many names, not the same ones
            pool2 = rng.sample(pool, rng.randint(1, len(pool) - 1))
            sets += [pool2] + [pool2[:k] + [rng.choice([n for n in pool if n not in pool2])] + pool2[k + 1:] for k in range(min(len(pool2), 3))]
        texts = []
        for w in words:
            u = G.usable_texts([w])
            texts += [rng.choice(u) for _ in range(3)] if u else []
        texts = texts or ['нет']
        ext = {n: G.external(rng, 'ё') for n in pool}

        def text():
            roll = rng.random()
            if roll < 0.35:
                return rng.choice(BAD).format(n=rng.choice(pool), t=rng.choice(texts))
            if roll < 0.45:
                return G.template_text(rng, pool, texts, lo=0, hi=0)
            return G.template_text(rng, pool, texts, lo=1, hi=4, bad=0.05)
        many = rng.random() < 0.06
        kinds = rng.choice([['list', 'tuple', 'set', 'dict', 'frozenset'], ['list', 'list', 'dict', 'tuple'], ['list'], ['live'], ['live', 'list', 'set']])
        lines = [text() for _ in range(rng.randint(40, 250) if many else rng.randint(2, 6))]
        if rng.random() < 0.12:
            lines[rng.randrange(len(lines)):] = G.family(rng, pool, texts, rng.randint(2, 5))
        for k in range(1, len(lines)):
            # texts which resemble another one
            if rng.random() < 0.3:
                lines[k] = G.vary_text(rng, rng.choice(lines[:k]))
        threads = []
        for obj in range(rng.randint(2, 3) if many else rng.randint(1, 3)):
            ops = []
            for _ in range(rng.randint(40, 150) if many else rng.randint(2, 7)):
                if rng.random() < 0.65:
                    ops.append({'op': 'parse', 'obj': obj, 'text': rng.choice(lines), 'retry': rng.random() < 0.75,
                                'set': rng.choice([0, rng.randrange(len(sets))]), 'names': rng.choice(kinds)})
                else:
                    ops.append({'op': rng.choice(['render', 'record', 'equal', 'missing']), 'obj': obj})
            threads.append(ops)
        stable = []
        for _ in range(rng.choice([0, 1, 1])):
            t = rng.choice(lines) if rng.random() < 0.4 else G.template_text(rng, pool, texts, lo=1, hi=3, bad=0)
            k = rng.randrange(len(sets))
            try:
                M.parse(t, sets[k])
            except M.ModelError:
                continue
            stable.append([t, k])
        watched = [{'op': rng.choice(['render', 'render', 'record', 'missing']), 'obj': rng.randrange(len(threads)), 'watch': True} for _ in range(rng.randint(1, 5))]
        if rng.random() < 0.4:
            # somebody uses the templates while they are parsed anew
            threads.append(watched)
        if stable:
            threads.append([{'op': 'stable', 't': rng.randrange(len(stable))} for _ in range(rng.randint(1, 4))])
        # many parsings: somebody may be halfway through one while the others do dozens
        cfg = {}
        if many and rng.random() < 0.8:
            cfg = {'stall': rng.choice([0.1, 0.5, 1.0]), 'mode': rng.choice(['test', 'test', 'mutate', 'store', 'uniform']), 'gap': rng.choice([5, 20, 60])}
        return {'cfg': cfg, 'words': words, 'sets': sets, 'ext': ext, 'stable': stable, 'objects': 3, 'phases': number_ops([threads])}

    def run(self, sim, case):
        world = World()
        sets = case['sets']
        dictionary = world.dictionary.Dictionary(words=[world.word(w) for w in case['words']])
        m_dictionary = M.Dictionary(case['words'])
        ext = {n: world.external(e) for n, e in case['ext'].items()}
        m_ext = {n: G.model_external(e) for n, e in case['ext'].items()}
        stable = [world.template(t, sets[k]) for t, k in case['stable']]
        objects = [world.templates.Template() for _ in range(case['objects'])]
        # hist: what each object has or may have held, None (new) or (text, names) of an accepted parsing that has begun; possible: what it may hold now
        hist = [[None] for _ in range(case['objects'])]
        possible = [[0] for _ in range(case['objects'])]
        live = [[] for _ in objects]
        containers = {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'dict': lambda ns: {n: 1 for n in ns}}

        def outcome(t):
            try:
                return t.substitute(ext, dictionary), None
            except Exception as e:
                return None, e

        def record(parsed):
            fresh = world.templates.Template() if parsed is None else world.template(*parsed)
            return fresh.serialize()

        def is_text(parsed, r, e):
            if parsed is None:
                return e is not None
            want = expected(lambda: M.render(M.parse(*parsed), m_ext, m_dictionary))
            return e is None and want == ('ok', r) or e is not None and want[0] == 'error' and world.is_error(e, want[1])

        def missing(parsed):
            return [] if parsed is None else M.undictionaried(M.parse(*parsed), m_ext, m_dictionary)

        def verify(i, what):
            t = objects[i]
            rec = t.serialize()
            now = [k for k in possible[i] if record(hist[i][k]) == rec]
            if not now:
                raise Violation('parsed-record', '%s; record of the template is %s, of a new one %s' % (
                    what, show(rec), ' or '.join(show(record(hist[i][k])) for k in possible[i])))
            possible[i] = now         # an interrupted parsing has happened or has not
            parsed = hist[i][now[0]]
            if parsed is not None:
                text, names = parsed
                want = expected(lambda: M.render(M.parse(text, names), m_ext, m_dictionary))
                judge(world, 'parsed-text', '%s; template of %r' % (what, text), want, *outcome(t))
                if t.get_undictionaried_words(ext, dictionary) != missing(parsed):
                    raise Violation('parsed-missing', '%s; template of %r reports missing words %s instead of %s' % (
                        what, text, show(t.get_undictionaried_words(ext, dictionary)), show(missing(parsed))))
            if not (t == (world.templates.Template() if parsed is None else world.template(*parsed))):
                raise Violation('parsed-unequal', '%s; template does not equal a new one of %s' % (what, show(parsed)))

        def watch(o, fn, ok):
            i = o['obj']
            box = {}

            def begin():
                box['before'], box['after'] = list(possible[i]), len(hist[i])
                return fn()

            def check(r, e):
                candidates = [hist[i][k] for k in box['before']] + hist[i][box['after']:]
                if not any(ok(x, r, e) for x in candidates):
                    raise Violation('parsed-mixed', '%s while a template is parsed anew gave %s, right for none of %s' % (
                        o['op'], show(r) if e is None else describe(e), show(candidates)))
            return Op(o['id'], o['op'], begin, check, est=600)

        def make(o):
            if o['op'] == 'stable':
                t = stable[o['t']]
                text, k = case['stable'][o['t']]
                names = sets[k]
                want = expected(lambda: M.render(M.parse(text, names), m_ext, m_dictionary))
                return Op(o['id'], 'stable', lambda: t.substitute(ext, dictionary), lambda r, e: judge(world, 'other-template', repr(text), want, r, e), est=900)
            i = o['obj']
            t = objects[i]
            if o['op'] == 'parse':
                names = sets[o['set']]
                want = expected(lambda: M.parse(o['text'], names))

                box = {}

                def names_given():
                    # held by the caller for this call only, or in one list used for call after call
                    if o['names'] == 'live':
                        live[i][:] = names
                        return live[i]
                    return containers[o['names']](names)

                def parse():
                    ns = box['names'] = names_given()
                    if want[0] == 'ok' and 'begun' not in box:
                        box['begun'] = True
                        possible[i] = possible[i] + [len(hist[i])]
                        hist[i].append((o['text'], names))
                    return t.parse(o['text'], externals=ns)

                def check(r, e):
                    if want[0] == 'ok':
                        if e is not None:
                            raise Violation('parse-error', 'parsing %r failed: %s' % (o['text'], describe(e)))
                        possible[i] = [len(hist[i]) - 1]
                    else:
                        judge(world, 'parse', 'parse %r' % o['text'], want, r, e)
                        sim.count('rejected_parse')
                    verify(i, 'after parsing %r' % o['text'])
                    ns = box.pop('names')
                    if ns != containers[o['names'] if o['names'] != 'live' else 'list'](names):
                        raise Violation('names-changed', 'parsing changed the names to %s' % show(ns))
                return Op(o['id'], 'parse', parse, check, est=450, retry=o['retry'])
            if o['op'] == 'render':
                return watch(o, lambda: t.substitute(ext, dictionary), is_text)
            if o['op'] == 'missing':
                return watch(o, lambda: t.get_undictionaried_words(ext, dictionary), lambda x, r, e: e is None and r == missing(x))
            if o['op'] == 'record':
                return watch(o, lambda: t.serialize(), lambda x, r, e: e is None and r == record(x))
            return Op(o['id'], 'equal', lambda: t == objects[(i + 1) % len(objects)], lambda r, e: verify(i, 'later'), est=60)

        sim.run([[make(o) for o in th] for th in case['phases'][0]])
        for i in range(len(objects)):
            verify(i, 'at the end')


SCENARIO = C08()
