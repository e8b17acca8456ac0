import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
OUT = '/verif/seeded'
SRC = '/repo'
W = '/tmp/mk/work'

def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    return p.returncode, p.stdout.decode('utf-8', 'replace')

def build(b):
    d = '%s/%s' % (W, b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    sh('cp -a %s %s' % (SRC, d))
    for f, old, new in b['edits']:
        p = os.path.join(d, f)
        s = open(p, encoding='utf-8').read()
        if s.count(old) != 1:
            return 'edit of %s: %d matches of %r' % (f, s.count(old), old[:60])
        open(p, 'w', encoding='utf-8').write(s.replace(old, new))
    diff = sh('git diff', d)[1]
    # my own lines may not be touched
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8')
    rc, out = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -x utg/tests 2>&1 | tail -15', d, env)
    tests = '93 passed' in out
    o = '%s/%s' % (OUT, b['id'])
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    open(o + '/patch.diff', 'w').write(diff)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(o + '/meta.json', 'w'), ensure_ascii=False, indent=1)
    open(o + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8\nPY=/opt/venv/bin/python\n[ -x $PY ] || PY=python3\nexec $PY -B -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(o + '/demo.sh', 0o755)
    open(o + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    if 'helper' in b['demo']:
        shutil.copy(os.path.dirname(os.path.abspath(__file__)) + '/helper.py', o + '/helper.py')
    a = sh('timeout 300 bash %s/demo.sh' % o, SRC)
    c = sh('timeout 300 bash %s/demo.sh' % o, d)
    ok = tests and a[0] == 0 and c[0] != 0
    msg = '%s tests=%s clean=%d patched=%d %s' % (b['id'], tests, a[0], c[0], c[1].strip().split('\n')[-1][:150])
    if not tests: msg += '\n' + out
    if a[0]: msg += '\nCLEAN: ' + a[1]
    if not ok:
        shutil.rmtree(o)
    return ('OK  ' if ok else 'BAD ') + msg

def check(b, prop=None, extra=''):
    d = '%s/%s' % (W, b['id'])
    env = dict(os.environ, UTG_REPO=d, VERIF_SEED='1', VERIF_TIER='quick')
    rc, out = sh('timeout 900 python3 check.py --property %s --tier quick --no-evidence %s' % (prop or b['property'], extra), '/verif', env)
    v = [l for l in out.split('\n') if l.startswith('violation in run')]
    return rc, (v[0] if v else out.strip().split('\n')[-1])[:230]

if __name__ == '__main__':
    import importlib
    mod = importlib.import_module(sys.argv[1])
    only = sys.argv[2:]
    for b in mod.BUGS:
        if only and b['id'] not in only: continue
        m = build(b)
        print(m); sys.stdout.flush()
        if m.startswith('OK'):
            print('     check: rc=%d %s' % check(b)); sys.stdout.flush()
        shutil.rmtree('%s/%s' % (W, b['id']), ignore_errors=True)
