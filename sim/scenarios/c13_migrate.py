"""C13: migrating stored words gives one result, wherever it was interrupted."""
import importlib
import json
import os

from .base import Scenario, number_ops
from .. import core
from .. import gen as G
from .. import model as M
from ..core import Op, Violation, HarnessError, SimCrash
from ..world import World, show, describe

STEPS = ['2', '4', '5', '7', '8', '9']
# number of forms before the first step which concerns the part of speech
OLD_SIZE = {'NOUN': 12, 'PREPOSITION': 2}
# records older than step 2: (step, part of speech, forms before the step, forms the next step which concerns the part of speech starts from)
LEGACY = [(1, 'ADJECTIVE', 144, 148), (1, 'PARTICIPLE', 192, 196), (3, 'VERB', 37, 27), (6, 'VERB', 27, 23), (6, 'NOUN', 18, 18), (6, 'PRONOUN', 72, 72),
          (6, 'PREPOSITION', 3, 3), (6, 'PARTICIPLE', 196, 148), (6, 'ADJECTIVE', 148, 148)]


def migrations():
    """step -> function, found by the number in the name of the module"""
    out = {}
    for fn in sorted(os.listdir(os.path.join(core.REPO, 'utg', 'migrations'))):
        if fn.startswith('m_00') and fn.endswith('.py') and fn[5] in STEPS:
            out[fn[5]] = importlib.import_module('utg.migrations.' + fn[:-3]).migrate
    if sorted(out) != STEPS:
        raise HarnessError('migration steps %s are missing' % sorted(set(STEPS) - set(out)))
    return out


class C13(Scenario):
    id = 'C13'
    title = 'migrations'
    fault_kinds = ('interrupt', 'timeout', 'memory', 'crash', 'crash')
    fault_share = 0.6
    full_knob_share = 0
    quick_runs = 1000
    thorough_runs = 60000
    rule = ('one case = 2-8 (rarely 20-50) stored word records in old layouts, taken through the steps by 1-4 workers that claim records or race for them, store after '
            'some steps only, crash and are resumed from the store; non-trivial = a decision was taken; distinct by case and decisions')

    def gen(self, rng, tier):
        if rng.random() < 0.04:
            return {'legacy': rng.randrange(len(LEGACY)), 'phases': []}
        records = []
        many = rng.random() < 0.03
        for k in range(rng.randint(20, 50) if many else rng.randint(2, 8)):
            t = rng.choices(['NOUN', 'VERB', 'PREPOSITION', 'TEXT', 'PRONOUN', 'ADJECTIVE', 'PARTICIPLE', 'INTEGER'],
                            [9, 1, 5, 1, 1, 0, 0, 0.5] if many else [9, 6, 5, 1, 1, 0.35, 0.25, 0.5])[0]
            n = OLD_SIZE.get(t) or M.MIGRATIONS['7'][t]['old_len']
            rec = {'type': M.TYPES[t]['code'], 'forms': ['%s%d-%s' % ('абвгдежз'[k % 8], i, rng.choice('хцчш')) for i in range(n)],
                   'properties': {str(a): b for a, b in M.props_record(G.props_for(rng, t, extra=0.3)).items()}}
            if rng.random() < 0.2:
                for i in rng.sample(range(n), rng.randint(0, n // 2)):
                    rec['forms'][i] = ''
            if rng.random() < 0.2:
                rec['forms'] = [rng.choice('аб') for _ in rec['forms']]
            if rng.random() < 0.4:
                rec['properties']['5'] = rng.randrange(3)
            rec['patches'] = {}
            if t == 'NOUN' and rng.random() < 0.4:
                rec['patches'] = [None] * 7 + [{'forms': ['п%d%d' % (k, i) for i in range(6)]}]
            if rng.random() < 0.5:
                rec['id'] = k
                rec['автор'] = {'имя': 'Некто', 'правки': [1, 2, 3]}
            records.append(rec)
        threads = []
        for _ in range(rng.randint(1, 4)):
            ops = []
            for _o in range(rng.randint(20, 40) if many else rng.randint(1, 6)):
                ops.append({'op': 'migrate', 'r': rng.randrange(len(records)), 'steps': rng.choice([1, 1, 2, 3, 6]), 'retry': rng.random() < 0.8,
                            'keep': rng.random() < 0.5})
            threads.append(ops)
        return {'records': records, 'phases': number_ops([threads])}

    def run(self, sim, case):
        if 'legacy' in case:
            return self.legacy(*LEGACY[case['legacy']])
        world = World()
        funcs = migrations()
        store = {}          # r -> [step index, bytes]
        want = []           # r -> [record after k steps]
        for r, rec in enumerate(case['records']):
            store[r] = [0, json.dumps(rec, ensure_ascii=False)]
            chain = [rec]
            for s in STEPS:
                chain.append(M.migrate(s, chain[-1]))
            want.append(chain)
        kept = []           # results still held by workers: (r, level, record object)

        def others(what):
            for r, level, rec in kept:
                if rec != want[r][level]:
                    raise Violation('other-changed', '%s changed another record, already migrated to step %d: %s' % (what, level, self.diff(want[r][level], rec)))

        def make(o):
            r = o['r']
            box = {}

            def fn():
                box['level'], data = store[r]
                rec = json.loads(data)
                level = box['level']
                for s in STEPS[level:level + o['steps']]:
                    rec = funcs[s](rec)
                    level += 1
                return level, rec

            def check(result, e):
                what = 'migrating record %d from step %d' % (r, box['level'])
                if e is not None:
                    raise Violation('migrate-error', '%s failed: %s' % (what, describe(e)))
                level, rec = result
                if rec != want[r][level]:
                    raise Violation('migrate-wrong', '%s to step %d: %s' % (what, level, self.diff(want[r][level], rec)))
                if store[r][0] < level:
                    store[r] = [level, json.dumps(rec, ensure_ascii=False)]
                    sim.count('stored')
                elif level > box['level']:
                    sim.count('raced')
                others(what)
                if o['keep']:
                    kept.append((r, level, rec))

            def on_fault(e):
                if isinstance(e, SimCrash):
                    sim.count('restart')
                    del kept[:]
            return Op(o['id'], 'migrate', fn, check, est=3000, retry=o['retry'], on_fault=on_fault)

        sim.run([[make(o) for o in th] for th in case['phases'][0]])
        # everything is resumed from the store
        for r, (level, data) in sorted(store.items()):
            rec = json.loads(data)
            for s in STEPS[level:]:
                rec = funcs[s](rec)
            if rec != want[r][-1]:
                raise Violation('migrate-wrong', 'resumed record %d: %s' % (r, self.diff(want[r][-1], rec)))
            others('resuming record %d' % r)
            t = M.TYPE_BY_CODE[rec['type']]
            try:
                word = world.words.Word.deserialize(rec)
            except Exception as e:
                raise Violation('not-current', 'a migrated %s cannot be restored: %s' % (t, describe(e)))
            got = world.word_of(word)
            expect = {'type': t, 'forms': want[r][-1]['forms'], 'props': M.props_from_record(want[r][-1]['properties'])}
            if got != expect:
                raise Violation('not-current', 'a migrated word is restored as %s instead of %s' % (show(got), show(expect)))

    @staticmethod
    def legacy(step, t, before, after):
        """a record older than the chain of steps which can be used"""
        path = os.path.join(core.REPO, 'utg', 'migrations')
        names = [fn[:-3] for fn in sorted(os.listdir(path)) if fn.startswith('m_000%d' % step) and fn.endswith('.py')]
        try:
            migrate = importlib.import_module('utg.migrations.' + names[0]).migrate
        except Exception as e:
            raise Violation('step-unusable', 'step %d cannot be used: %s' % (step, describe(e)))
        rec = migrate({'type': M.TYPES[t]['code'], 'forms': ['ф%d' % i for i in range(before)], 'properties': {}, 'patches': {}})
        if len(rec['forms']) != after:
            raise Violation('step-misfit', 'step %d gives a record of %s %d forms, the next step starts from %d' % (step, t, len(rec['forms']), after))
        if rec['forms'][0] != 'ф0' or not set(rec['forms']) <= {'ф%d' % i for i in range(before)}:
            raise Violation('migrate-wrong', 'step %d: forms of %s are %s' % (step, t, show(rec['forms'])))

    @staticmethod
    def diff(want, got):
        if not isinstance(got, dict):
            return 'got %s' % show(got)
        out = []
        for k in sorted(set(want) | set(got)):
            a, b = want.get(k), got.get(k)
            if a != b:
                if k == 'forms' and isinstance(b, list) and len(a) == len(b):
                    out.append('forms %s' % [(i, 'should be %r' % x, 'is %r' % y) for i, (x, y) in enumerate(zip(a, b)) if x != y][:5])
                else:
                    out.append('%s should be %s, is %s' % (k, show(a), show(b)))
        return '; '.join(out)


SCENARIO = C13()
