"""Batches of simulated runs: sampling, forked execution, minimisation, replay, evidence."""
import gc
import hashlib
import importlib
import json
import os
import random
import select
import signal
import struct
import subprocess
import sys
import time as _time
import traceback

from . import core
from .core import Sim, Violation, HarnessError, _real_perf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WATCHDOG = 150.0


# --------------------------------------------------------------------------------------------------
# one run

def default_cfg(rng, scenario):
    mode = rng.choices(['uniform', 'store', 'mutate', 'test', 'line', 'check', 'boundary'], [24, 26, 14, 10, 10, 8, 8])[0]
    gap = rng.choice([2, 5, 12, 30, 80, 250, 800]) if mode == 'uniform' else rng.choice([1, 2, 4, 8, 20, 60])
    cfg = {'mode': mode, 'gap': gap, 'boundary': rng.choice([0.1, 0.5, 0.9]), 'faults': [], 'fault_rate': 0, 'attempts': 0}
    kinds = list(scenario.fault_kinds)
    if kinds and rng.random() < scenario.fault_share:
        k = rng.randint(1, len(kinds))
        cfg['faults'] = sorted(rng.sample(kinds, k))
        cfg['fault_rate'] = rng.choice([0.15, 0.4, 0.8])
        cfg['attempts'] = rng.randint(1, 3)
    # tuning knob of the library: size of the shared table of numbers (None: as shipped)
    cfg['knob'] = rng.choice([0, 1, 5, 25, 60, 150, 150, 150])
    if rng.random() < scenario.full_knob_share:
        cfg['knob'] = None
    # a thread that is preempted may stay away while the others finish some of their operations, or all of them
    if rng.random() < 0.25:
        cfg['stall'] = rng.choice([0.05, 0.3, 1.0])
    cfg['clock'] = rng.random() < 0.2
    return cfg


def make_run(scenario, seed, index, tier):
    run_seed = '%s/%s/%d' % (scenario.id, seed, index)
    rng = random.Random(run_seed + '/case')
    case = scenario.gen(rng, tier)
    cfg = scenario.cfg(random.Random(run_seed + '/cfg'))
    cfg.update(case.get('cfg', {}))
    return run_seed, case, cfg


def apply_knob(cfg):
    c = sys.modules.get('utg.constructors')
    if cfg.get('knob') is not None and hasattr(c, '_INTEGER_CACHE_RIGHT'):
        c._INTEGER_CACHE_RIGHT = cfg['knob']


def execute(scenario, codemap, run_seed, case, cfg, trace=None, keep_events=False, out=None):
    """runs in a forked child; calls out(result dict) exactly once"""
    sim = Sim(run_seed, cfg, codemap, trace)
    sim.keep_events = keep_events

    def result(status, cls=None, message=None):
        d = {'status': status, 'cls': cls, 'msg': message, 'counts': sim.counts, 'steps': sim.steps, 'clock': round(sim.clock, 6),
             'sig': sim.sig.hexdigest(), 'log': sim.log.hexdigest(), 'sites': sorted(sim.sites), 'pairs': len(sim.pairs),
             'pairset': sorted('%s~%s' % p for p in sim.pairs)[:400], 'nontrivial': bool(sim.trace)}
        if status != 'ok' or keep_events:
            d['trace'] = sim.trace
            d['events'] = sim.events
        return d

    def hard_exit():
        out(result('violation', *sim.violation))
        os._exit(0)

    sim.hard_exit = hard_exit
    random.seed('%s/random' % run_seed)
    apply_knob(cfg)
    sim.instrument()
    try:
        scenario.run(sim, case)
        r = result('ok')
    except Violation as e:
        sim.event('violation', e.cls)
        r = result('violation', e.cls, e.message)
    except HarnessError as e:
        r = result('harness', 'harness', str(e))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inner = tb[-1].filename if tb else ''
        lib = [i for i, fr in enumerate(tb) if fr.filename.startswith(codemap.root)]
        ours = [i for i, fr in enumerate(tb) if fr.filename.startswith(VERIF + os.sep)]
        text = traceback.format_exc()
        if lib and (not ours or lib[-1] > ours[-1]):
            sim.event('violation', 'unexpected-error')
            r = result('violation', 'unexpected-error', 'a library call outside any fault failed: ' + core.describe(e))
        elif isinstance(e, core.UNINTERPRETABLE):
            sim.event('violation', 'uninterpretable')
            r = result('violation', 'uninterpretable', core.uninterpretable(e))
        else:
            r = result('harness', 'harness', text)
    out(r)


def fork_run(scenario, codemap, run_seed, case, cfg, trace=None, keep_events=False, timeout=WATCHDOG):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            gc.disable()

            def out(d):
                data = json.dumps(d, ensure_ascii=False, default=str).encode('utf-8')
                view = memoryview(struct.pack('>I', len(data)) + data)
                while view:
                    view = view[os.write(wfd, view):]

            execute(scenario, codemap, run_seed, case, cfg, trace, keep_events, out)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    buf = b''
    deadline = _real_now() + timeout
    status = None
    while True:
        left = deadline - _real_now()
        if left <= 0:
            status = 'wall'
            break
        ready, _, _ = select.select([rfd], [], [], left)
        if not ready:
            status = 'wall'
            break
        chunk = os.read(rfd, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(rfd)
    if status == 'wall':
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    os.waitpid(pid, 0)
    if len(buf) >= 4 and len(buf) >= 4 + struct.unpack('>I', buf[:4])[0]:
        return json.loads(buf[4:].decode('utf-8'))
    if status == 'wall':
        return {'status': 'wall', 'cls': 'wall', 'msg': 'run did not finish within %d s of real time' % timeout, 'counts': {}, 'steps': 0, 'clock': 0,
                'sig': '', 'log': '', 'sites': [], 'pairs': 0, 'pairset': [], 'nontrivial': False}
    return {'status': 'harness', 'cls': 'harness', 'msg': 'the run ended without a result', 'counts': {}, 'steps': 0, 'clock': 0,
            'sig': '', 'log': '', 'sites': [], 'pairs': 0, 'pairset': [], 'nontrivial': False}


_real_now = core._real_perf


# --------------------------------------------------------------------------------------------------
# preparation of the process all runs are forked from

def prepare():
    sys.setrecursionlimit(3000)
    core.install_seams()
    sys.path.insert(0, core.REPO)
    import utg  # noqa
    if os.path.realpath(os.path.dirname(utg.__file__)) != os.path.realpath(os.path.join(core.REPO, 'utg')):
        raise HarnessError('imported %s, not the tree under test' % utg.__file__)
    names = ['relations', 'exceptions', 'restrictions', 'logic', 'data', 'utils', 'words', 'constructors', 'transformators', 'templates',
             'dictionary', 'lexicon']
    for n in names:
        importlib.import_module('utg.' + n)
    mdir = os.path.join(core.REPO, 'utg', 'migrations')
    for fn in sorted(os.listdir(mdir)):
        if fn.startswith('m_') and fn.endswith('.py') and fn[2:6] not in ('0001', '0003', '0006'):
            importlib.import_module('utg.migrations.' + fn[:-3])
    codemap = core.CodeMap(os.path.join(core.REPO, 'utg'))
    codemap.collect()
    if len(codemap.flags) < 20:
        raise HarnessError('found only %d functions of the code under test' % len(codemap.flags))
    core.mon.use_tool_id(core.TOOL, 'sim')
    for code in codemap.flags:
        core.mon.set_local_events(core.TOOL, code, core.mon.events.INSTRUCTION)
    gc.collect()
    gc.freeze()
    gc.disable()
    return codemap


# --------------------------------------------------------------------------------------------------
# batch

def batch(scenario, codemap, seed, tier, runs, wall_cap, workers):
    """-> (summary, failures sorted by run index)"""
    start = _real_now()
    pipes = []
    import mmap
    shared = mmap.mmap(-1, 8)
    shared[:8] = struct.pack('>q', 1 << 60)
    for w in range(workers):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                agg = worker(scenario, codemap, seed, tier, runs, wall_cap, workers, w, shared, start)
                data = json.dumps(agg, ensure_ascii=False).encode('utf-8')
                view = memoryview(data)
                while view:
                    view = view[os.write(wfd, view):]
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wfd)
        pipes.append((pid, rfd))
    parts = []
    bufs = {rfd: b'' for _, rfd in pipes}
    open_fds = set(bufs)
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], 5.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 18)
            if not chunk:
                open_fds.discard(fd)
                os.close(fd)
            else:
                bufs[fd] += chunk
    for pid, rfd in pipes:
        _, st = os.waitpid(pid, 0)
        if st != 0 or not bufs[rfd]:
            raise HarnessError('a worker process ended abnormally (status %r)' % st)
        parts.append(json.loads(bufs[rfd].decode('utf-8')))
    total = {'runs': 0, 'steps': 0, 'clock': 0.0, 'counts': {}, 'sigs': set(), 'sites': set(), 'pairs': set(), 'modes': {}, 'nontrivial': 0, 'logs': {},
             'fault_free': 0, 'capped': False}
    failures, samples = [], []
    for p in parts:
        for k in ('runs', 'steps', 'clock', 'nontrivial', 'fault_free'):
            total[k] += p[k]
        for k, v in p['counts'].items():
            total['counts'][k] = total['counts'].get(k, 0) + v
        for k, v in p['modes'].items():
            total['modes'][k] = total['modes'].get(k, 0) + v
        total['sigs'].update(p['sigs'])
        total['sites'].update(p['sites'])
        total['pairs'].update(p['pairs'])
        total['logs'].update(p['logs'])
        total['capped'] = total['capped'] or p['capped']
        failures += p['failures']
        samples += p['samples']
    failures.sort(key=lambda f: f['index'])
    samples.sort(key=lambda f: f['run'])
    total['wall'] = _real_now() - start
    total['samples'] = samples[:3]
    return total, failures


def known(entry, result):
    return result['status'] == 'violation' and entry['class'] == result['cls'] and entry['contains'] in (result.get('msg') or '')


def worker(scenario, codemap, seed, tier, runs, wall_cap, workers, w, shared, start):
    agg = {'runs': 0, 'steps': 0, 'clock': 0.0, 'counts': {}, 'sigs': set(), 'sites': set(), 'pairs': set(), 'modes': {}, 'failures': [], 'samples': [],
           'nontrivial': 0, 'logs': {}, 'fault_free': 0, 'capped': False}
    keep_logs = bool(os.environ.get('SIM_KEEP_LOGS'))
    for index in range(w, runs, workers):
        if index > struct.unpack('>q', shared[:8])[0]:
            break
        if _real_now() - start > wall_cap:
            agg['capped'] = True
            break
        run_seed, case, cfg = make_run(scenario, seed, index, tier)
        r = fork_run(scenario, codemap, run_seed, case, cfg)
        if r['status'] != 'ok':
            hit = [e['id'] for e in getattr(scenario, 'known', ()) if known(e, r)]
            if hit:
                r['counts']['known:' + hit[0]] = 1        # a recorded finding (known_findings.txt): the search goes on
            elif r['status'] in ('violation', 'harness', 'wall'):
                agg['failures'].append({'index': index, 'run_seed': run_seed, 'result': r})
                cur = struct.unpack('>q', shared[:8])[0]
                if index < cur:
                    shared[:8] = struct.pack('>q', index)
        agg['runs'] += 1
        agg['steps'] += r['steps']
        agg['clock'] += r['clock']
        for k, v in r['counts'].items():
            agg['counts'][k] = agg['counts'].get(k, 0) + v
        label = cfg['mode'] + ('+faults' if cfg.get('faults') else '')
        agg['modes'][label] = agg['modes'].get(label, 0) + 1
        if not cfg.get('faults'):
            agg['fault_free'] += 1
        if keep_logs:
            agg['logs'][str(index)] = r['log']
        digest = hashlib.blake2b(json.dumps(case, sort_keys=True, ensure_ascii=False).encode(), digest_size=6).hexdigest()
        if r['nontrivial']:
            agg['nontrivial'] += 1
            agg['sigs'].add(digest + r['sig'][:8])
        agg['sites'].update(r['sites'])
        agg['pairs'].update(r['pairset'])
        if index < 3:
            agg['samples'].append(sample(scenario, codemap, index, run_seed, case, cfg))
    for k in ('sigs', 'sites', 'pairs'):
        agg[k] = sorted(agg[k])
    return agg


def sample(scenario, codemap, index, run_seed, case, cfg):
    r = fork_run(scenario, codemap, run_seed, case, cfg, keep_events=True)
    ops = []
    for ph in case.get('phases', []):
        for ti, th in enumerate(ph):
            for op in th:
                ops.append('t%d %s' % (ti, json.dumps(op, ensure_ascii=False)[:110]))
    return {'run': index, 'seed': run_seed, 'cfg': cfg, 'operations': ops[:8], 'operations_total': len(ops),
            'decisions': dict(list((r.get('trace') or {}).items())[:10]), 'decisions_total': len(r.get('trace') or {}),
            'events': [e[:160] for e in (r.get('events') or [])[:10]], 'event_log_digest': r['log'], 'steps': r['steps']}


# --------------------------------------------------------------------------------------------------
# minimisation

def same(r, cls):
    return r['status'] == 'violation' and r['cls'] == cls


def ddmin(items, test, deadline):
    """smallest subset found for which test(subset) holds"""
    items = list(items)
    if not items:
        return items
    if test([]):
        return []
    n = 2
    while len(items) >= 1 and _real_now() < deadline:
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        reduced = False
        for i in range(len(chunks)):
            if _real_now() > deadline:
                return items
            rest = [x for j, c in enumerate(chunks) if j != i for x in c]
            if rest and test(rest):
                items = rest
                n = max(n - 1, 2)
                reduced = True
                break
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def strip_ops(case, keep):
    new = dict(case)
    new['phases'] = [[[op for op in th if op['id'] in keep] for th in ph] for ph in case['phases']]
    return new


def minimise(scenario, codemap, failure, tier, budget):
    """-> replay dict"""
    r = failure['result']
    run_seed = failure['run_seed']
    seed, index = failure['seed'], failure['index']
    _, case, cfg = make_run(scenario, seed, index, tier)
    cls = r['cls']
    deadline = _real_now() + budget
    trace = dict(r.get('trace') or {})
    tried = [0]

    def attempt(c, tr):
        tried[0] += 1
        return fork_run(scenario, codemap, run_seed, c, cfg, trace=tr, timeout=60)

    full = attempt(case, trace)
    exact = same(full, cls)
    if exact:
        if hasattr(scenario, 'simplify_cfg'):
            cfg = scenario.simplify_cfg(cfg)
        changed = True
        rounds = 0
        while changed and _real_now() < deadline and rounds < 4:
            rounds += 1
            changed = False
            keys = sorted(trace)
            kept = ddmin(keys, lambda ks: same(attempt(case, {k: trace[k] for k in ks}), cls), deadline)
            if len(kept) < len(keys):
                trace = {k: trace[k] for k in kept}
                changed = True
            if case.get('phases') is not None:
                ids = [op['id'] for ph in case['phases'] for th in ph for op in th]
                kept = ddmin(ids, lambda ks: same(attempt(strip_ops(case, set(ks)), trace), cls), deadline)
                if len(kept) < len(ids):
                    case = strip_ops(case, set(kept))
                    changed = True
            for field in getattr(scenario, 'shrinkable', ()):
                if field in case and isinstance(case[field], list) and case[field]:
                    idx = list(range(len(case[field])))
                    kept = ddmin(idx, lambda ks: same(attempt(dict(case, **{field: [case[field][i] for i in ks]}), trace), cls), deadline)
                    if len(kept) < len(idx):
                        case = dict(case, **{field: [case[field][i] for i in kept]})
                        changed = True
        # try to let execution follow the trace only (no stray decisions)
    final = fork_run(scenario, codemap, run_seed, case, cfg, trace=trace, keep_events=True) if exact else r
    return {'property': scenario.id, 'verif_seed': seed, 'run_index': index, 'run_seed': run_seed, 'tier': tier, 'mode': 'trace' if exact else 'seed',
            'case': case, 'cfg': cfg, 'trace': trace if exact else None, 'class': cls, 'message': final.get('msg') or r['msg'],
            'original_message': r['msg'], 'log_digest': final['log'], 'events': (final.get('events') or [])[:400],
            'decisions': len(trace), 'operations': sum(len(th) for ph in case.get('phases', []) for th in ph),
            'original_decisions': len(r.get('trace') or {}), 'minimisation_runs': tried[0]}


def run_replay(scenario, codemap, rep):
    if rep['mode'] == 'seed':
        return fork_run(scenario, codemap, rep['run_seed'], rep['case'], rep['cfg'], keep_events=True)
    return fork_run(scenario, codemap, rep['run_seed'], rep['case'], rep['cfg'], trace=rep['trace'], keep_events=True)
