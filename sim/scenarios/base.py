from ..core import Op, Violation
from ..runner import default_cfg


class Scenario:
    id = None
    title = ''
    fault_kinds = ('interrupt', 'timeout', 'memory')
    fault_share = 0.5          # share of runs with faults
    full_knob_share = 0.004    # share of runs with the number table at its shipped size
    quick_runs = 1500
    thorough_runs = 60000
    shrinkable = ()
    rule = ''
    real = ['utg (all modules, unmodified, from the working tree)', 'rels']
    stub = ['thread scheduler', 'threading.Lock/RLock', 'time', 'os.urandom']

    def setup(self):
        pass

    def teardown(self):
        pass

    def cfg(self, rng):
        return default_cfg(rng, self)

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, sim, case):
        raise NotImplementedError


def spread(rng, ops, threads):
    """deal operations to threads at random; ids are given in order"""
    out = [[] for _ in range(threads)]
    for op in ops:
        out[rng.randrange(threads)].append(op)
    n = 0
    for th in out:
        for op in th:
            op['id'] = op.get('id') or 'o%d' % n
            n += 1
    return out


def number_ops(phases):
    n = 0
    for ph in phases:
        for th in ph:
            for op in th:
                op['id'] = 'o%d' % n
                n += 1
    return phases
