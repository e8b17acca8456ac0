"""C14: results are identical in every process."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from .base import Scenario, number_ops
from .. import core
from .. import gen as G
from .. import model as M
from .. import procops
from ..core import Violation, HarnessError
from ..world import show

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class C14(Scenario):
    id = 'C14'
    title = 'processes'
    fault_kinds = ()
    full_knob_share = 0
    quick_runs = 500
    thorough_runs = 20000
    rule = ('one case = a workload of 4-14 operations executed by 2-4 freshly started interpreters which differ in hash seed, address layout and hashes of '
            'records and relations, order of imports, order of operations, allocator, optimisation level and locale; non-trivial = a process differs from the '
            'plain one; distinct by case and process configurations')
    real = ['utg and rels in separately started CPython interpreters', 'operating system processes']
    stub = ['PYTHONHASHSEED', 'address space randomisation (off, replaced by seeded allocations)', 'hash of rels records and relations in a third of the processes']

    def gen(self, rng, tier):
        ops = [{'op': 'tables'}]
        words = [G.word(rng, tag='абвг'[k]) for k in range(rng.randint(1, 4))]
        if rng.random() < 0.7:
            # words fighting for the same spellings, some of them full ties
            from .c04_replicas import conflict_words
            words = conflict_words(rng, rng.randint(2, 5))
        full = [w for w in words if all(w['forms'])]
        texts = G.usable_texts(full)[:60]
        names = ['герой', 'n'][:rng.randint(1, 2)]
        for _ in range(rng.randint(3, 13)):
            kind = rng.choice(['lookups', 'render', 'render', 'fill', 'word-record', 'template-record', 'numbers', 'migrate', 'forms', 'facts', 'picks', 'picks', 'rejects', 'props'])
            op = {'op': kind}
            if kind == 'lookups':
                order = list(words)
                rng.shuffle(order)
                all_texts = sorted(M.Dictionary(order).data)
                op.update(words=order, texts=rng.sample(all_texts, min(len(all_texts), 25)), absent=['нетслова', rng.choice(all_texts)])
            elif kind == 'render':
                op.update(words=full, names=names, ext={n: G.external(rng, 'ё') for n in names},
                          text=G.template_text(rng, names, texts or ['нет'], lo=1, hi=4, bad=0.02))
            elif kind == 'fill':
                op.update(word=G.holes(rng, G.word(rng, type=rng.choice(['NOUN', 'VERB', 'PRONOUN', 'PREPOSITION', 'ADJECTIVE']))))
            elif kind == 'word-record':
                w = rng.choice(words)
                op.update(word=w, record=json.dumps(M.word_record(w), ensure_ascii=bool(rng.randrange(2))))
            elif kind == 'template-record':
                while True:
                    t = G.template_text(rng, names, texts or ['нет'], bad=0)
                    try:
                        op.update(text=t, names=names, record=json.dumps(M.template_record(t, names), ensure_ascii=False))
                        break
                    except M.ModelError:
                        pass
            elif kind == 'numbers':
                op.update(numbers=[G.number(rng) for _ in range(rng.randint(1, 8))])
            elif kind == 'migrate':
                t = rng.choices(['NOUN', 'VERB', 'PREPOSITION', 'PRONOUN', 'ADJECTIVE', 'PARTICIPLE'], [4, 4, 3, 3, 2, 1])[0]
                n = {'NOUN': 12, 'PREPOSITION': 2}.get(t) or M.MIGRATIONS['7'][t]['old_len']
                op.update(record=json.dumps({'type': M.TYPES[t]['code'], 'forms': ['ф%d' % i for i in range(n)], 'patches': {},
                                             'properties': {str(a): b for a, b in M.props_record(G.props_for(rng, t)).items()}}))
            elif kind == 'forms':
                w = rng.choice(full or [G.word(rng)])
                op.update(word=w, props=[G.merge_sets(G.schema_props(rng, w['type']), G.prop_set(rng, 0, 2)) for _ in range(6)])
            elif kind == 'facts':
                w = rng.choice(full or [G.word(rng)])
                op.update(word=w, props=[G.prop_set(rng, 0, 5) for _ in range(4)])
            elif kind == 'rejects':
                op.update(items=[self.refusable(rng, words, texts, names) for _ in range(rng.randint(2, 8))])
            elif kind == 'props':
                # names of properties as people write them
                vs = [G.verbose(rng) for _ in range(rng.randint(2, 8))]
                text = ' '.join('[%s|%s]' % (names[0], rng.choice([v, v.upper(), v.capitalize(), ' %s ' % v, v.title(), ' %s' % v.upper()])) for v in vs)
                try:
                    op.update(op='template-record', text=text, names=names, record=json.dumps(M.template_record(text, names)))
                except M.ModelError:
                    op.update(op='numbers', numbers=[0, 1, 5])
            else:
                rs = ['мужской', 'женский', 'herb', 'ярость', 'день', 'ночь']
                keys = ['k1', 'ключ', 'k3']
                regs = [[rng.choice(keys), sorted(rng.sample(rs, rng.choice([0, 1, 1, 2, 3])))] for _ in range(rng.randint(1, 12))]
                op.update(regs=regs, requests=[[rng.choice(keys + ['нет']), sorted(rng.sample(rs, rng.randint(0, 6))), rng.randrange(1 << 30), rng.random() < 0.6]
                                               for _ in range(rng.randint(2, 8))])
            ops.append(op)
        rng.shuffle(ops)
        return {'processes': rng.randint(2, 4), 'phases': number_ops([[ops]])}

    @staticmethod
    def refusable(rng, words, texts, names):
        kind = rng.choice(['word', 'word', 'record', 'template-record', 'parse', 'absent', 'render', 'lexicon'])
        if kind == 'word':
            t = rng.choice(sorted(M.SIZE))
            return ['word', t, rng.choice([k for k in (0, 1, M.SIZE[t] - 1, M.SIZE[t] + 1, 2 * M.SIZE[t]) if k != M.SIZE[t]])]
        if kind == 'record':
            rec = M.word_record(rng.choice(words))
            roll = rng.randrange(4)
            if roll == 0:
                rec = dict(rec, type=rng.choice([9999, -1]))
            elif roll == 1:
                rec = dict(rec, forms=rec['forms'] + ['лишняя'])
            elif roll == 2:
                rec = dict(rec, forms=rec['forms'][:-1])
            else:
                rec = dict(rec)
                del rec[rng.choice(['type', 'forms', 'properties'])]
            return ['record', json.dumps(rec)]
        if kind == 'template-record':
            rec = M.template_record('[%s|рд]' % names[0], names)
            roll = rng.randrange(2)
            if roll:
                del rec[rng.choice(['template', 'substitutions'])]
            else:
                del rec['substitutions'][0][rng.choice(['id', 'dependencies'])]
            return ['template-record', json.dumps(rec)]
        if kind == 'parse':
            return ['parse', rng.choice(['[]', '[|рд]', '[%s|такогонет]' % names[0], '[нет|рд,такогонет]', '[%s|ПРР]' % names[0], '[герой|-]']), names]
        if kind == 'absent':
            return ['absent', [w for w in words if all(w['forms'])], rng.choice(['нетслова', 'НЕТСЛОВА', ' '])]
        if kind == 'render':
            return ['render', rng.choice(['[%s]' % names[0], '[нетслова]', '[нетслова|%s]' % names[0]]), names]
        return ['lexicon', rng.choice(['ключ', 'нет', 'Ключ']), ['женский']]

    def setup(self):
        """byte code of this check only: fresh, and complete before the first run"""
        self.cache = tempfile.mkdtemp(prefix='sim-c14-')
        plain = {'hash': 0, 'env': {}}
        ops = [{'op': 'tables', 'id': 'o0'}, {'op': 'migrate', 'id': 'o1', 'record': json.dumps({'type': 10, 'forms': ['а', 'б'], 'properties': {}})}]
        for level in '012':
            plain['env'] = {'PYTHONOPTIMIZE': level}
            try:
                self.finish(self.start(plain, ops))
            except Violation:
                pass             # found again, and reported, by the runs

    def teardown(self):
        shutil.rmtree(self.cache, ignore_errors=True)

    def config(self, sim, k):
        def pick(name, draw, default):
            return sim.decide('x:%s:%d' % (name, k), draw, default)
        env = {'PYTHONOPTIMIZE': ['0', '1', '2'], 'PYTHONMALLOC': ['pymalloc', 'malloc', 'debug'], 'LC_ALL': ['C.UTF-8', 'C', 'POSIX', 'ru_RU.KOI8-R', 'tr_TR.UTF-8', ''],
               'LANG': ['C.UTF-8', 'C', 'ru_RU.UTF-8'], 'PYTHONUTF8': ['', '0', '1'], 'PYTHONCOERCECLOCALE': ['', '0'], 'TZ': ['UTC', 'Asia/Tokyo'],
               'PYTHONDEVMODE': ['', '', '1']}
        out = {'hash': pick('hash', lambda r: r.choice([0, 1, 2, r.randrange(1 << 32), r.randrange(1 << 32)]), 0),
               'imports': pick('imports', lambda r: r.randrange(1 << 20) if r.random() < 0.6 else None, None),
               'order': pick('order', lambda r: r.randrange(1 << 20) if r.random() < 0.6 else None, None),
               'junk': pick('junk', lambda r: r.randrange(4000) if r.random() < 0.6 else 0, 0),
               'salt': pick('salt', lambda r: r.randrange(1 << 20) if r.random() < 0.4 else None, None),
               'clock': pick('clock', lambda r: r.choice([-1.6e9, 1e9, 3e9, r.random() * 1e9]) if r.random() < 0.3 else 0, 0),
               'cwd': pick('cwd', lambda r: r.random() < 0.3, False),
               'recursion': pick('recursion', lambda r: r.choice([400, 20000]) if r.random() < 0.3 else 0, 0),
               'gc': pick('gc', lambda r: r.choice(['off', (1, 1, 1), (50, 2, 2)]) if r.random() < 0.2 else None, None),
               'fork': pick('fork', lambda r: r.randrange(16) if r.random() < 0.2 else None, None),
               'thread': pick('thread', lambda r: r.randrange(1, 9) if r.random() < 0.2 else 0, 0),
               'env': {v: pick(v, lambda r: r.choice(c) if r.random() < 0.35 else c[0], c[0]) for v, c in env.items()}}
        for name in ('hash', 'imports', 'order', 'junk', 'salt', 'clock', 'cwd', 'recursion', 'gc', 'fork', 'thread'):
            if out[name]:
                sim.count('fault:process-' + name)
        return out

    def start(self, cfg, ops):
        env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'PYTHONHASHSEED': str(cfg['hash']), 'PYTHONIOENCODING': 'utf-8', 'PYTHONPYCACHEPREFIX': self.cache}
        env.update({k: v for k, v in cfg['env'].items() if v})
        p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(HERE, 'process.py')], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             cwd=self.cache if cfg.get('cwd') else None, stderr=subprocess.PIPE)
        return p, json.dumps({'config': cfg, 'ops': ops, 'repo': core.REPO}).encode('utf-8')

    def finish(self, started):
        p, data = started
        out, err = p.communicate(data)
        if p.returncode != 0:
            text = err.decode('utf-8', 'replace')
            if '/utg/' in text.replace('\\', '/') and 'Traceback' in text:
                raise Violation('import-failed', 'the library cannot be used in this process: %s' % text.strip().splitlines()[-1])
            raise HarnessError('process ended with %s: %s' % (p.returncode, text[-2000:]))
        return json.loads(out.decode('utf-8'))

    def run(self, sim, case):
        ops = case['phases'][0][0]
        cfgs = [self.config(sim, k) for k in range(case['processes'])]
        started = [self.start(cfg, ops) for cfg in cfgs]
        results = []
        for k, s in enumerate(started):
            results.append(self.finish(s))
            sim.count('process')
            sim.sig.update(json.dumps(cfgs[k], sort_keys=True).encode())
            sim.event('process', k, cfgs[k], procops.digest(results[-1]))
            sim.sites.add('process env %s' % json.dumps(cfgs[k]['env'], sort_keys=True))
        for op in ops:
            sim.steps += 1
            try:
                w = procops.want(op)
                want = None if w is None else ['ok', w]
            except M.ModelError as e:
                want = ['error', e.kind]
            for k, res in enumerate(results):
                got = res[op['id']]
                if want is not None and got != want:
                    raise Violation('process-result', self.explain(op, cfgs[k], want, got))
                if got != results[0][op['id']]:
                    raise Violation('process-differs', '%s: %s in a process with %s, %s in one with %s' % (
                        op['op'], show(results[0][op['id']]), show(cfgs[0]), show(got), show(cfgs[k])))

    def explain(self, op, cfg, want, got):
        if op['op'] == 'tables' and got[0] == 'ok':
            names = [k for k in want[1] if got[1].get(k) != want[1][k]]
            if names:
                dump = self.finish(self.start(cfg, [dict(op, dump=names[0])]))[op['id']][1]
                ref = procops.norm(procops.tables_wanted()[names[0]])
                diff = [(i, 'should be %s' % show(a), 'is %s' % show(b)) for i, (a, b) in enumerate(zip(ref, dump)) if a != b][:3] if isinstance(dump, list) else (ref, dump)
                return 'tables %s differ from the shipped ones in a process with %s: %s entries instead of %s; %s' % (
                    names[:6], show(cfg), len(dump) if isinstance(dump, list) else '?', len(ref) if isinstance(ref, list) else '?', show(diff))
        return '%s: should be %s, is %s in a process with %s' % (op['op'], show(want), show(got), show(cfg))


SCENARIO = C14()
