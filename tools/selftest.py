#!/usr/bin/env python3
"""Tests of the machinery itself; run by hand, no check uses this file.

  selftest.py determinism [Cxx ...]    every run twice: other number of workers, other hash seed -> same event log digests
  selftest.py planted [id ...]         the checks against the planted changes of /verif/seeded, in scratch copies of /repo
  selftest.py fixes                    the checks against /repo with each repair of known_findings.txt undone
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('UTG_REPO', '/repo')


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def check(prop, env, *extra):
    return run([sys.executable, 'check.py', '--property', prop, '--tier', 'quick', '--no-evidence'] + list(extra), cwd=HERE, env=dict(os.environ, **env))


def determinism(ids):
    bad = 0
    for i in ids or ['C%02d' % k for k in range(1, 23) if k < 17 and k != 14 or k == 22]:
        logs = []
        for workers, hs in (('8', '0'), ('3', '4242')):
            f = tempfile.mktemp()
            rc, out = check(i, {'SIM_HASHSEED': hs}, '--runs', '400', '--workers', workers, '--logs', f)
            logs.append((rc, open(f).read() if os.path.exists(f) else None))
            if os.path.exists(f):
                os.unlink(f)
        same = logs[0] == logs[1] and logs[0][1] and logs[0][0] == 0
        n = len(json.loads(logs[0][1] or '{}'))
        print('%s %s %d runs' % (i, 'identical' if same else 'DIFFERENT', n), flush=True)
        bad += not same
    return bad


def verdict(out):
    m = re.search(r'^violation in run (\d+): (\S+)', out, re.M)
    r = re.search(r'fresh interpreter: (.*)', out)
    if m:
        return 'run %s, %s%s' % (m.group(1), m.group(2).rstrip(':'), '' if r and r.group(1).startswith('same') else ' (replay differs)')
    return out.strip().split('\n')[-1][:120]


def planted(ids):
    base = os.path.join(HERE, 'seeded')
    missed = 0
    for i in ids or sorted(os.listdir(base)):
        prop = json.load(open(os.path.join(base, i, 'meta.json')))['property']
        d = tempfile.mkdtemp(prefix='planted-')
        repo = os.path.join(d, 'repo')
        shutil.copytree(REPO, repo, symlinks=True)
        rc, out = run(['git', 'apply', os.path.join(base, i, 'patch.diff')], cwd=repo)
        if rc:
            print('%s does not apply: %s' % (i, out))
        else:
            rc, out = check(prop, {'UTG_REPO': repo})
            print('| %s | %s | %s |' % (i, 'caught' if rc == 1 else 'MISSED rc=%d' % rc, verdict(out)), flush=True)
            missed += rc != 1
        shutil.rmtree(d)
    return missed


def fixes(_):
    missed = 0
    for line in open(os.path.join(HERE, 'known_findings.txt'), encoding='utf-8'):
        m = re.match(r'fixed: property=(\S+) (\S+)', line)
        if not m:
            continue
        d = tempfile.mkdtemp(prefix='unfixed-')
        repo = os.path.join(d, 'repo')
        shutil.copytree(REPO, repo, symlinks=True)
        rc, diff = run(['git', 'diff', m.group(2), m.group(2) + '~1'], cwd=repo)
        run(['git', 'status'], cwd=repo)
        p = subprocess.run(['git', 'apply', '-3'], input=diff.encode('utf-8'), cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            # later repairs touch the same lines: all of them are undone
            run(['git', 'checkout', '-q', '-f', m.group(2) + '~1'], cwd=repo)
        rc, out = check(m.group(1), {'UTG_REPO': repo})
        print('| %s | %s | %s | %s%s |' % (m.group(2), m.group(1), 'caught' if rc == 1 else 'MISSED rc=%d' % rc, verdict(out), ' (with later repairs undone)' if p.returncode else ''),
              flush=True)
        missed += rc != 1
        shutil.rmtree(d)
    return missed


if __name__ == '__main__':
    sys.exit(1 if {'determinism': determinism, 'planted': planted, 'fixes': fixes}[sys.argv[1]](sys.argv[2:]) else 0)
