"""One simulated process of C14: a real interpreter whose sources of accidental order are all set from outside.

usage: python process.py  < {"config": ..., "ops": [...]}   -> one JSON line with the result of every operation
"""
import ctypes
import hashlib
import json
import os
import random
import signal
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ['relations', 'exceptions', 'restrictions', 'logic', 'data', 'utils', 'words', 'constructors', 'transformators', 'templates', 'dictionary',
           'lexicon']


def fix_addresses():
    """switch address space randomisation off for this process; the interpreter is started again for that"""
    if os.environ.get('SIM_NO_ASLR') == '1':
        return
    os.environ['SIM_NO_ASLR'] = '1'
    try:
        libc = ctypes.CDLL(None)
        old = libc.personality(0xffffffff)
        if old != -1 and not old & 0x0040000:
            if libc.personality(old | 0x0040000) != -1:
                os.execv(sys.executable, sys.orig_argv)
    except (OSError, AttributeError):
        pass


def patch_hashes(salt):
    """hashes of relations and records come from object addresses: give them seeded values instead"""
    import rels.relations as rr
    numbers = {}

    def seeded(self):
        k = numbers.setdefault(id(self), len(numbers))
        return int.from_bytes(hashlib.blake2b(b'%d/%d' % (salt, k), digest_size=7).digest(), 'big')

    rr.Record.__hash__ = seeded
    type(rr.Relation).__hash__ = seeded


def shift_clock(seconds):
    import time
    for name in ('time', 'monotonic', 'perf_counter'):
        def now(real=getattr(time, name)):
            return real() + seconds
        setattr(time, name, now)


def main():
    fix_addresses()
    signal.alarm(120)
    job = json.loads(sys.stdin.read())
    cfg = job['config']
    junk = []
    rng = random.Random('junk/%s' % cfg.get('junk'))
    for _ in range(cfg.get('junk') or 0):
        junk.append([object() for _ in range(rng.randint(1, 60))])
        if rng.random() < 0.4:
            junk.pop(rng.randrange(len(junk)))
    repo = job['repo']
    if cfg.get('clock'):
        shift_clock(cfg['clock'])
    sys.path.insert(0, repo)
    if cfg.get('salt') is not None:
        patch_hashes(cfg['salt'])
    import importlib
    names = MODULES + ['migrations.' + f[:-3] for f in sorted(os.listdir(os.path.join(repo, 'utg', 'migrations')))
                       if f.startswith('m_') and f[5:6] in '245789']
    if cfg.get('imports') is not None:
        random.Random('imports/%s' % cfg['imports']).shuffle(names)
    for n in names:
        importlib.import_module('utg.' + n)
    sys.path.insert(0, HERE)
    from sim import procops
    world = procops.make_world()
    ops = list(job['ops'])
    if cfg.get('recursion'):
        sys.setrecursionlimit(cfg['recursion'])
    if cfg.get('order') is not None:
        random.Random('order/%s' % cfg['order']).shuffle(ops)
    out = {}
    if cfg.get('gc'):
        import gc
        if cfg['gc'] == 'off':
            gc.disable()
        else:
            gc.set_threshold(*cfg['gc'])

    def work(ops):
        for op in ops:
            try:
                out[op['id']] = ['ok', procops.run(world, op)]
            except Exception as e:
                out[op['id']] = ['error', type(e).__name__]

    if cfg.get('fork') is not None:
        # a prepared process which has done some of the work forks, and the child goes on
        half = cfg['fork'] % (len(ops) + 1)
        work(ops[:half])
        child = os.fork()
        if child:
            os._exit(os.waitstatus_to_exitcode(os.waitpid(child, 0)[1]) & 255)
        work(ops[half:])
    elif cfg.get('thread'):
        import threading
        for k, part in enumerate((ops[::2], ops[1::2])):
            t = threading.Thread(target=work, args=(part,), name='worker-%d' % (k + cfg['thread']))
            t.start()
            t.join()
    else:
        work(ops)
    sys.stdout.write(json.dumps(out, ensure_ascii=True, sort_keys=True) + '\n')


if __name__ == '__main__':
    main()
