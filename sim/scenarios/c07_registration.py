"""C07: registrations are never lost, duplicated or moved."""
from .base import Scenario, number_ops
from .lexicon_common import Registry, own_set, key_of, rset, restriction_ids, restriction_pool, KEYS, RESTRICTIONS
from .. import model as M
from ..core import Op, Violation
from ..world import World, show, describe


class C07(Scenario):
    id = 'C07'
    title = 'registration'
    fault_share = 0.4
    quick_runs = 20000
    thorough_runs = 250000
    rule = ('one case = 1-4 threads registering 1-6 templates each (after 0-3, rarely 10-150, earlier ones) under few keys (new and existing) while others list; every listing is judged against '
            'the registrations finished before and begun by its end, the final content exactly; non-trivial = a decision was taken; distinct by case and '
            'decisions')

    def gen(self, rng, tier):
        tid = [0]
        hot = rng.sample(range(KEYS), rng.randint(1, 3))
        for a, b in ((0, 6), (7, 8), (3, 9), (1, 10), (1, 11)):
            if rng.random() < 0.15:
                hot += [a, b]
        pool = restriction_pool(rng)

        def new():
            tid[0] += 1
            return {'op': 'add', 'k': rng.choice(hot), 't': tid[0] if rng.random() < 0.93 else rng.randint(1, tid[0]), 'real': rng.random() < 0.5,
                    'rs': restriction_ids(rng, [0, 0, 1, 1, 2, 3], pool), 'l': rng.randrange(2), 'retry': rng.random() < 0.8}
        many = rng.random() < 0.03
        pre = [new() for _ in range(rng.choice([rng.randint(10, 150), rng.randint(10, 150), rng.randint(10, 150), 400, 1300]) if many else rng.choice([0, 0, 1, 3]))]
        threads = [[new() for _ in range(rng.randint(1, 6))] for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        for _ in range(rng.choice([0, 1, 1, 2])):
            threads.append([{'op': rng.choice(['list', 'list', 'has']), 'k': rng.choice(hot + [rng.randrange(KEYS)]),
                             'rs': restriction_ids(rng, [0, 1, 2, 4, 9], pool), 'l': rng.randrange(2), 'arg': rng.choice(['frozen', 'frozen', 'fresh', 'fresh', 'live']), 'thread': len(threads)} for _ in range(rng.randint(1, 6))])
        rng.shuffle(threads)
        return {'pre': pre, 'twin': rng.random() < 0.25, 'phases': number_ops([threads])}

    shrinkable = ('pre',)

    def run(self, sim, case):
        world = World()
        lexicons = [world.lexicon.Lexicon() for _ in range(1 + bool(case['twin']))]
        regs = [Registry(world, lex) for lex in lexicons]
        for p in case['pre']:
            regs[p['l'] % len(regs)].add_now(p['k'], p['t'], p['real'], p['rs'])

        live = {}

        def make(o):
            lex, reg = lexicons[o['l'] % len(lexicons)], regs[o['l'] % len(lexicons)]
            if o['op'] == 'add':
                return self.add(reg, o)
            key = key_of(world, o['k'])
            request = rset(world, o['rs'])
            if o['op'] == 'has':
                op = Op(o['id'], 'has', lambda: lex.has_key(key), None, est=8)

                def check(r, e):
                    if e is not None:
                        raise Violation('list-error', 'testing a key failed: %s' % describe(e))
                    b = [reg.bounds(g, op.start) for g in reg.regs if g['key'] == o['k']]
                    if not r and any(lo for lo, hi in b):
                        raise Violation('lost', 'key %d is reported absent although it has templates' % o['k'])
                    if r and not any(g['op'] is None or g['op'].start is not None for g in reg.regs if g['key'] == o['k']):
                        raise Violation('phantom', 'key %d is reported present before any registration' % o['k'])
                op.check = check
                return op
            op = Op(o['id'], 'list', lambda: lex.get_templates(key, own_set(o, request, live)), None, est=150)

            def check(r, e):
                if e is not None:
                    raise Violation('list-error', 'listing failed: %s' % describe(e))
                reg.check_listing(r, o['k'], request, op.start, 'list key %d with %s' % (o['k'], sorted(map(str, request))))
            op.check = check
            return op

        sim.run([[make(o) for o in th] for th in case['phases'][0]])
        for lex, reg in zip(lexicons, regs):
            self.final(world, lex, reg)

    def final(self, world, lex, reg):
        now = 1 << 50
        everything = rset(world, range(RESTRICTIONS))
        requests = list(dict.fromkeys([everything] + [g['rs'] for g in reg.regs[-60 if len(reg.regs) < 200 else -5:]] + [rset(world, [])]))
        for k in range(KEYS):
            for request in requests:
                got = lex.get_templates(key_of(world, k), request)
                reg.check_listing(got, k, request, now, 'final list of key %d with %s' % (k, sorted(map(str, request))))
            if not any(g['key'] == k for g in reg.regs) and lex.has_key(key_of(world, k)):
                raise Violation('phantom', 'key %d exists and was never registered' % k)

    def add(self, reg, o):
        op = reg.add_op(o)
        entry = reg.regs[-1]
        if not o['retry']:
            before = op.on_fault

            def on_fault(e):
                before(e)
                entry['given_up'] = True
            op.on_fault = on_fault
        return op


SCENARIO = C07()
