"""C06: random choice of templates."""
import random

from .base import Scenario, number_ops
from .lexicon_common import Registry, own_set, key_of, restriction_ids, restriction_pool, rset, KEYS
from .. import model as M
from ..core import Op, Violation
from ..world import World, show, describe


class C06(Scenario):
    id = 'C06'
    title = 'random choice'
    fault_share = 0.2
    quick_runs = 12000
    thorough_runs = 150000
    stub = Scenario.stub + ['the state of the random source (seeded per run, reset before compared picks)']
    rule = ('one case = registrations with random restriction sets by 0-2 threads, choices and nearest choices by 1-3 threads at the same time, then, '
            'undisturbed, every request under every key drawn until all qualifying templates were seen (at most 60 draws per template); non-trivial = a '
            'decision was taken; distinct by case and decisions')

    def gen(self, rng, tier):
        pool = restriction_pool(rng)
        common = [restriction_ids(rng, [0, 1, 2, 3, 4, 6], pool) for _ in range(rng.randint(1, 3))]
        share = rng.choice([0.1, 0.4, 0.8])
        big = rng.random() < 0.06

        def reg(t):
            rs = restriction_ids(rng, [0, 0, 1, 1, 2, 2, 3, 4], pool)
            if rng.random() < share:
                rs = rng.choice(common)
                if rng.random() < 0.3:
                    rs = rng.sample(rs, rng.randint(0, len(rs)))
            return {'op': 'add', 'k': 0 if big and rng.random() < 0.8 else rng.choice([0, 0, 1, 1, 2, rng.randrange(KEYS)]), 't': t,
                    'real': rng.random() < 0.6, 'rs': rs, 'retry': True, 'l': rng.randrange(2)}
        tid = [0]

        def new():
            tid[0] += 1
            return reg(tid[0])
        pre = [new() for _ in range(rng.choice([rng.randint(17, 60), rng.randint(60, 150)]) if big else rng.randint(0, 7))]
        threads = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            threads.append([new() for _ in range(rng.randint(1, 5))])
        requests = [rng.choice(common) if rng.random() < share else restriction_ids(rng, [0, 1, 2, 3, 4, 5, 9], pool)
                    for _ in range(rng.randint(1, 4))]
        if big:
            requests.append([])
        for _ in range(rng.randint(1, 3)):
            threads.append([{'op': rng.choice(['pick', 'nearest']), 'k': rng.choice([0, 0, 1, 1, 2, rng.randrange(KEYS)]), 'rs': rng.choice(requests),
                             'n': rng.randint(1, 3), 'l': rng.randrange(2), 'arg': rng.choice(['frozen', 'frozen', 'fresh', 'fresh', 'live']), 'thread': len(threads)} for _ in range(rng.randint(1, 5))])
        if pre and rng.random() < 0.3:
            pre.append(dict(rng.choice(pre)))       # the same template registered twice
        return {'pre': pre, 'twin': rng.random() < 0.3, 'requests': requests, 'rseed': rng.randrange(10 ** 9), 'phases': number_ops([threads])}

    shrinkable = ('pre', 'requests')

    def run(self, sim, case):
        world = World()
        lexicons = [world.lexicon.Lexicon() for _ in range(1 + bool(case['twin']))]
        regs = [Registry(world, lex) for lex in lexicons]
        for p in case['pre']:
            for reg in regs:
                reg.add_now(p['k'], p['t'], p['real'], p['rs'])
        random.seed(case['rseed'])
        live = {}

        def pick_op(o):
            lex, reg = lexicons[o['l'] % len(lexicons)], regs[o['l'] % len(lexicons)]
            key = key_of(world, o['k'])
            request = rset(world, o['rs'])
            fn = lex.get_random_template if o['op'] == 'pick' else lex.get_random_nearest_template
            box = {}

            def choose():
                arg = box['arg'] = own_set(o, request, live)
                return fn(key) if not request and o['n'] == 2 else fn(key, restrictions=arg) if o['n'] == 1 else fn(key, arg)
            op = Op(o['id'], o['op'], lambda: [choose() for _ in range(o['n'])], None, est=300)

            def check(r, e):
                self.judge(world, reg, o['op'], o['k'], request, r, e, op.start, 'choice under key %d with %s' % (o['k'], sorted(map(str, request))))
                if box and box.pop('arg') != request:
                    raise Violation('request-changed', 'choosing changed the requested restrictions')
            op.check = check
            return op

        sim.run([[regs[o['l'] % len(regs)].add_op(o) if o['op'] == 'add' else pick_op(o) for o in th] for th in case['phases'][0]])
        for lex, reg in zip(lexicons, regs):
            self.final(sim, world, case, lex, reg)

    def final(self, sim, world, case, lex, reg):
        # undisturbed: exact sets, reachability, repeatability
        now = 1 << 50
        for k in range(KEYS):
            key = key_of(world, k)
            if lex.has_key(key) != any(g['key'] == k and reg.bounds(g, now)[1] for g in reg.regs) and not any(g['faults'] for g in reg.regs):
                raise Violation('has-key', 'presence of key %d is reported wrongly' % k)
            for ids in case['requests'] + [[]]:
                request = rset(world, ids)
                regs = [(g['t'], g['rs']) for g in reg.regs if g['key'] == k]
                for kind, want in (('pick', M.eligible(regs, request)), ('nearest', M.nearest(regs, request))):
                    fn = lex.get_random_template if kind == 'pick' else lex.get_random_nearest_template
                    what = '%s under key %d with %s' % (kind, k, sorted(map(str, request)))
                    state = random.getstate()
                    first = self.attempt(fn, key, request)
                    random.setstate(state)
                    second = self.attempt(fn, key, request)
                    if (first[0] is not second[0]) or type(first[1]) is not type(second[1]):
                        raise Violation('not-repeatable', '%s: the same random state gave %s and %s' % (what, show(first), show(second)))
                    self.judge(world, reg, kind, k, request, [first[0]], first[1], now, what)
                    if first[1] is None:
                        need, seen = set(want), {reg.id_of(first[0])}
                        for _ in range(60 * len(need)):
                            if seen >= need:
                                break
                            got, err = self.attempt(fn, key, request)
                            if err is not None:
                                raise Violation('choice-error', '%s: %s' % (what, describe(err)))
                            seen.add(reg.id_of(got))
                        sim.count('reachability_checks')
                        if need - seen:
                            raise Violation('unreachable', '%s: templates %s qualify and were never chosen in %d draws' % (what, sorted(need - seen), 60 * len(need)))
                        if seen - need:
                            raise Violation('not-eligible', '%s: templates %s were chosen and do not qualify' % (what, sorted(seen - need)))

    @staticmethod
    def attempt(fn, key, request):
        try:
            return fn(key, request), None
        except Exception as e:
            return None, e

    def judge(self, world, reg, kind, k, request, result, error, start, what):
        sure, maybe = [], []
        key_sure = False
        key_maybe = False
        for g in reg.regs:
            if g['key'] != k:
                continue
            lo, hi = reg.bounds(g, start)
            key_sure = key_sure or lo > 0
            key_maybe = key_maybe or hi > 0
            if g['rs'] <= request:
                if lo:
                    sure.append(g)
                if hi:
                    maybe.append(g)
        if error is not None:
            if world.is_error(error, 'UnknownLexiconKeyError'):
                if key_sure:
                    raise Violation('choice-error', '%s: the key is reported unknown although it has templates' % what)
                return
            if world.is_error(error, 'NoTemplatesWithSpecifiedRestrictions'):
                if sure:
                    raise Violation('choice-error', '%s: nothing is reported eligible although template %d is' % (what, sure[0]['t']))
                if not key_maybe:
                    raise Violation('choice-other-error', '%s: an unknown key is reported as having no eligible template' % what)
                return
            raise Violation('choice-error', '%s: %s' % (what, describe(error)))
        best = max((len(g['rs'] & request) for g in sure), default=-1)
        for got in result:
            tid = reg.id_of(got)
            mine = [g for g in maybe if g['t'] == tid]
            if not mine:
                raise Violation('not-eligible', '%s: template %d does not qualify' % (what, tid))
            if kind == 'nearest' and max(len(g['rs'] & request) for g in mine) < best:
                raise Violation('not-nearest', '%s: template %d is not among the nearest' % (what, tid))


SCENARIO = C06()
