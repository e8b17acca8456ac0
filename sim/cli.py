import argparse
import importlib
import json
import os
import subprocess
import sys
import traceback

from . import core, runner

SCENARIOS = {'C01': 'c01_render', 'C02': 'c02_interrupt', 'C03': 'c03_numbers', 'C04': 'c04_replicas', 'C05': 'c05_loader', 'C06': 'c06_choice',
             'C07': 'c07_registration', 'C08': 'c08_parse', 'C09': 'c09_fill', 'C10': 'c10_facts', 'C11': 'c11_records', 'C12': 'c12_damage',
             'C13': 'c13_migrate', 'C14': 'c14_process', 'C15': 'c15_isolation', 'C16': 'c16_service', 'C22': 'c22_equality'}
KNOWN = os.path.join(runner.VERIF, 'known_findings.txt')


def load(pid):
    return importlib.import_module('sim.scenarios.' + SCENARIOS[pid]).SCENARIO


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if line.startswith('{'):
                e = json.loads(line)
                if e.get('status') == 'known' and e.get('property') == pid:
                    out.append(e)
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--runs', type=int)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--workers', type=int, default=int(os.environ.get('SIM_WORKERS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--wall', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--logs', help='write the event log digest of every run to this file')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    try:
        scenario = load(a.property)
        scenario.setup()
        try:
            if a.replay:
                return replay(scenario, a)
            return check(scenario, a)
        finally:
            scenario.teardown()
    except core.HarnessError as e:
        print('CHECK-ERROR property=%s %s' % (a.property, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('CHECK-ERROR property=%s' % a.property)
        return 2


def replay(scenario, a):
    rep = json.load(open(a.replay, encoding='utf-8'))
    codemap = runner.prepare()
    r = scenario.replay(codemap, rep) if hasattr(scenario, 'replay') else runner.run_replay(scenario, codemap, rep)
    for e in (r.get('events') or [])[-60:]:
        print('  ' + e)
    print('class=%s digest=%s' % (r.get('cls'), r.get('log')))
    if r['status'] == 'violation':
        print(r['msg'])
        print('VIOLATION property=%s replay=%s' % (scenario.id, a.replay))
        return 1
    if r['status'] == 'ok':
        print('no violation: the run of this file ends well on this tree')
        return 0
    print('CHECK-ERROR ' + str(r.get('msg')))
    return 2


def check(scenario, a):
    print('check property=%s tier=%s seed=%d workers=%d' % (scenario.id, a.tier, a.seed, a.workers))
    sys.stdout.flush()
    start = core._real_perf()
    runs = a.runs or (scenario.quick_runs if a.tier == 'quick' else scenario.thorough_runs)
    wall = a.wall or (240.0 if a.tier == 'quick' else 3 * 3600.0)
    codemap = runner.prepare()
    scenario.known = known_findings(scenario.id)
    if hasattr(scenario, 'batch'):
        total, failures = scenario.batch(codemap, a.seed, a.tier, runs, wall, a.workers)
    else:
        if a.logs:
            os.environ['SIM_KEEP_LOGS'] = '1'
        total, failures = runner.batch(scenario, codemap, a.seed, a.tier, runs, wall, a.workers)
    if a.logs:
        json.dump(total['logs'], open(a.logs, 'w'), sort_keys=True, indent=0)
    broken = [f for f in failures if f['result']['status'] != 'violation']
    fresh = [f for f in failures if f['result']['status'] == 'violation']
    for e in scenario.known:
        print('KNOWN-FINDING: property=%s %s (met in %d runs)' % (scenario.id, e['what'], total['counts'].get('known:' + e['id'], 0)))
    path = None
    if fresh:
        f = dict(fresh[0], seed=a.seed)
        print('violation in run %d: %s: %s' % (f['index'], f['result']['cls'], f['result']['msg']))
        sys.stdout.flush()
        rep = (scenario.minimise(codemap, f, a.tier, 45) if hasattr(scenario, 'minimise')
               else runner.minimise(scenario, codemap, f, a.tier, 45 if a.tier == 'quick' else 300))
        os.makedirs(os.path.join(runner.VERIF, 'replays'), exist_ok=True)
        path = os.path.join(runner.VERIF, 'replays', '%s-seed%d-run%d.json' % (scenario.id, a.seed, f['index']))
        with open(path, 'w', encoding='utf-8') as out:
            json.dump(rep, out, ensure_ascii=False, indent=1)
        rep['replays_exactly'] = confirm(scenario, path, rep)
        with open(path, 'w', encoding='utf-8') as out:
            json.dump(rep, out, ensure_ascii=False, indent=1)
        print('minimised: %d decisions, %d operations (from %d decisions) in %d runs; replay in a fresh interpreter: %s' % (
            rep['decisions'], rep['operations'], rep['original_decisions'], rep['minimisation_runs'],
            'same violation, same event log' if rep['replays_exactly'] else 'NOT IDENTICAL'))
        print(rep['message'])
    if not a.no_evidence:
        evidence(scenario, a, total, len(fresh), core._real_perf() - start, runs)
    print('runs=%d steps=%d wall=%.1fs %s' % (total['runs'], total['steps'], total['wall'], json.dumps(total['counts'], sort_keys=True)))
    if fresh:
        print('VIOLATION property=%s replay=%s' % (scenario.id, path))
        return 1
    if broken:
        b = broken[0]['result']
        print('CHECK-ERROR property=%s run=%d %s: %s' % (scenario.id, broken[0]['index'], b['status'], b['msg']))
        return 2
    if total['runs'] < min(runs, 20):
        print('CHECK-ERROR property=%s only %d runs were possible' % (scenario.id, total['runs']))
        return 2
    return 0


def confirm(scenario, path, rep):
    env = dict(os.environ)
    env.pop('SIM_FRESH', None)
    ok = True
    for hs in ('0', '7'):
        env['SIM_HASHSEED'] = hs
        p = subprocess.run([sys.executable, os.path.join(runner.VERIF, 'check.py'), '--property', scenario.id, '--replay', path],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        text = p.stdout.decode('utf-8', 'replace')
        want = 'class=%s digest=%s' % (rep['class'], rep['log_digest'])
        ok = ok and p.returncode == 1 and want in text
    return ok


def evidence(scenario, a, total, violations, wall, runs):
    c = total['counts']
    faults = {k.split(':', 1)[1]: v for k, v in sorted(c.items()) if k.startswith('fault:')}
    hours = max(total['wall'], 1e-9) / 3600.0
    sites = sorted(total['sites'])
    e = {
        'property': scenario.id, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total['runs'],
            'distinct_nontrivial': len(total['sigs']),
            'rule': scenario.rule,
            'samples': total['samples'],
            'exhaustive': False,
            'simulated_runs_requested': runs,
            'stopped_by_wall_cap': total['capped'],
            'runs_per_hour': int(total['runs'] / hours),
            'seeds_per_hour': int(total['runs'] / hours),
            'library_steps_simulated': total['steps'],
            'simulated_seconds': round(total['clock'], 3),
            'simulated_time_unit': 'one library bytecode instruction = 1 microsecond; network and restart delays on top',
            'fault_kinds_fired': faults,
            'preemptions_inside_library': c.get('preempt', 0),
            'lock_waits': c.get('lock_wait', 0),
            'runs_without_faults': total['fault_free'],
            'runs_by_sampling_mode': total['modes'],
            'distinct_decision_sites': len(sites),
            'decision_sites_sample': sites[::max(1, len(sites) // 25)][:25],
            'distinct_site_operation_pairs': len(total['pairs']),
            'probes': {k: v for k, v in sorted(c.items()) if not k.startswith('fault:') and k not in ('preempt', 'lock_wait')},
            'components_real': scenario.real,
            'components_stubbed': scenario.stub,
        },
        'assumptions': list(getattr(scenario, 'assumptions', ())),
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    os.makedirs(os.path.join(runner.VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(runner.VERIF, 'evidence', scenario.id + '.json')
    text = json.dumps(e, ensure_ascii=False, indent=1)
    while len(text.encode('utf-8')) > 60000 and e['coverage']['samples']:
        e['coverage']['samples'].pop()
        text = json.dumps(e, ensure_ascii=False, indent=1)
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text + '\n')
