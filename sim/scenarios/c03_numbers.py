"""C03: numbers from their first, possibly concurrent or interrupted, use."""
from .base import Scenario, number_ops
from .c02_interrupt import form_record
from .. import gen as G
from .. import model as M
from ..core import Op, Violation
from ..world import World, expected, judge


class C03(Scenario):
    id = 'C03'
    title = 'numbers'
    fault_share = 0.6
    full_knob_share = 0.01
    quick_runs = 3000
    thorough_runs = 150000
    rule = ('one case = 1-4 threads asking for 2-20 numbers each (boundaries of every class, of the shared table, negative and huge ones) in a process that '
            'has used no number yet, with preemptions and interruptions while the table is built; non-trivial = a decision was taken; distinct by case and decisions')

    def gen(self, rng, tier):
        phases = []
        long = rng.random() < 0.03
        noun = {'type': 'NOUN', 'forms': G.forms_for(rng, 'NOUN', ''), 'props': {'ANIMALITY': rng.choice(['ANIMATE', 'INANIMATE']), 'GENDER': 'MASCULINE'}}
        knobs = [0, 1, 2, 5, 24, 25, 26, 59, 60, 61, 149, 150, 151, 152]
        pool = [G.number(rng) for _ in range(rng.randint(1, 12))]
        for _ in range(rng.choice([1, 1, 2])):
            threads = []
            for _t in range(rng.randint(1, 4)):
                ops = []
                for _o in range(rng.randint(1, 6)):
                    n = rng.choice([rng.choice(pool), rng.choice(pool), rng.choice(knobs), rng.choice(G.NUMBERS), rng.randint(0, 200)])
                    kind = rng.choices(['number', 'phrase', 'span'], [6, 2, 2])[0]
                    o = {'op': kind, 'n': n, 'retry': rng.random() < 0.8}
                    if kind == 'phrase':
                        o['case'] = rng.choice(M.VALUES['CASE'])
                    if kind == 'span':
                        o['n'] = rng.choice([0, 1, 18, 97, 110, 9990, 999999, 10 ** 9 - 1, -3, -24, rng.randint(0, 11000)])
                        o['len'] = rng.randint(2, 8) if not long else rng.choice([100, 300, 1200])
                    ops.append(o)
                if long:
                    # more different numbers than a limited table would remember, some of them asked for again
                    far = [rng.choice([1, -1]) * rng.randint(10001, 10 ** rng.randint(5, 12)) for _ in range(rng.choice([50, 150, 600]))]
                    ops.append({'op': 'list', 'n': far[0], 'ns': far + [rng.choice(far) for _ in range(40)], 'retry': True})
                threads.append(ops)
            phases.append(threads)
        return {'noun': noun, 'phases': number_ops(phases)}

    def run(self, sim, case):
        world = World()
        noun = world.form(world.word(case['noun']))
        m_noun = M.make_form(case['noun'])
        texts = {c: '[i] [w|i|%s]' % M.VERBOSE_OF[('CASE', c)] for c in M.VALUES['CASE']}
        templates = {c: world.template(t, ['i', 'w']) for c, t in texts.items()}
        empty = world.dictionary.Dictionary()
        first = [0]

        def make(o):
            n = o['n']
            if o['op'] == 'number':
                want = ('ok', form_record(M.integer_form(n)))
                return Op(o['id'], 'number', lambda: world.constructors.construct_integer(n),
                          lambda r, e: judge(world, 'number', 'number %d' % n, want, world.form_of(r) if e is None else None, e),
                          est=rng_est(), retry=o['retry'])
            if o['op'] in ('span', 'list'):
                ns = list(range(n, n + o['len'])) if o['op'] == 'span' else list(o['ns'])
                want = ('ok', [form_record(M.integer_form(i)) for i in ns])
                return Op(o['id'], 'span', lambda: [world.constructors.construct_integer(i) for i in ns],
                          lambda r, e: judge(world, 'number', '%d numbers from %d to %d' % (len(ns), ns[0], ns[-1]), want, [world.form_of(x) for x in r] if e is None else None, e),
                          est=rng_est(), retry=o['retry'])
            t = templates[o['case']]
            parts = M.parse(texts[o['case']], ['i', 'w'])
            want = expected(lambda: M.render(parts, {'i': M.integer_form(n), 'w': m_noun}, M.Dictionary()))
            return Op(o['id'], 'phrase', lambda: t.substitute({'i': world.constructors.construct_integer(n), 'w': noun}, empty),
                      lambda r, e: judge(world, 'phrase', 'phrase with %d' % n, want, r, e), est=rng_est(), retry=o['retry'])

        def rng_est():
            return 9000

        for ph in case['phases']:
            sim.run([[make(o) for o in th] for th in ph])
        for n in (0, 1, 2, 3, 4, 5, 11, 12, 20, 21, 22, 25, 60, 100, 101, 111, 1000, 1000000, 10 ** 9, -1, -3):
            want = ('ok', form_record(M.integer_form(n)))
            judge(world, 'number-later', 'number %d' % n, want, world.form_of(world.constructors.construct_integer(n)), None)
            if world.constructors.construct_integer(n) != world.constructors.construct_integer(n):
                raise Violation('number-unequal', 'two forms of %d differ' % n)


SCENARIO = C03()
