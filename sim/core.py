"""Deterministic simulator: threads parked and released one at a time at bytecode boundaries of the code under test.

Everything that decides an execution goes through `Sim.decide`:

  p:<op>.<attempt>:<n>   preemption before the n-th library instruction of an attempt -> index of the thread to run
  f:<op>.<attempt>:<n>   fault raised before the n-th library instruction of an attempt -> fault kind
  b:<op>                 which thread runs after an operation has finished
  l:<op>.<attempt>:<n>   which thread runs when the running one has to wait for a lock
  x:<anything>           scenario level decisions (network, crashes, record damage ...)

In record mode decisions are drawn from generators derived from (seed, key) and every non-default one is written to
`sim.trace`; in replay mode they are looked up in the given trace and are the default when absent.  So removing entries
from a trace gives another legal execution, which is what minimisation relies on.
"""
import _thread
import dis
import gc
import hashlib
import itertools
import json
import os
import random
import sys
import threading
import time
import types

_real_lock = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_get_ident = _thread.get_ident
_real_time = time.time
_real_perf = time.perf_counter

mon = sys.monitoring
TOOL = 4

REPO = os.environ.get('UTG_REPO', '/repo')


# --------------------------------------------------------------------------------------------------
# injected faults

class SimInterrupt(KeyboardInterrupt):
    """asynchronous interrupt"""


class SimTimeout(Exception):
    """asynchronous time limit of a request (raised like a signal handler would)"""


class SimMemoryError(MemoryError):
    """failing allocation"""


class SimCrash(BaseException):
    """the node stops here: only stored state survives"""


FAULTS = {'interrupt': SimInterrupt, 'timeout': SimTimeout, 'memory': SimMemoryError, 'crash': SimCrash}
INJECTED = (SimInterrupt, SimTimeout, SimMemoryError, SimCrash)


class Violation(Exception):
    def __init__(self, cls, message):
        super().__init__('%s: %s' % (cls, message))
        self.cls = cls
        self.message = message


class HarnessError(Exception):
    pass


class Deadlock(BaseException):
    pass


# --------------------------------------------------------------------------------------------------
# static tables of the code under test: where faults and preemptions may land

# flags per instruction
F_ASYNC = 1      # an asynchronous exception may arrive here
F_ALLOC = 2      # an allocation may fail here
F_STORE = 4      # a step that publishes or reads shared state (biased preemption)
F_CHECK = 8      # a point where the interpreter itself may switch threads
F_MUT = 16       # shared state may just have been changed
F_TEST = 32      # a condition has just been tested, what depends on it has not been done yet

_ALLOC_OPS = {'BUILD_LIST', 'BUILD_TUPLE', 'BUILD_MAP', 'BUILD_SET', 'BUILD_STRING', 'BUILD_CONST_KEY_MAP', 'BUILD_SLICE',
              'LIST_EXTEND', 'LIST_APPEND', 'MAP_ADD', 'SET_ADD', 'SET_UPDATE', 'DICT_UPDATE', 'DICT_MERGE', 'STORE_SUBSCR',
              'BINARY_OP', 'FORMAT_VALUE', 'MAKE_FUNCTION', 'CALL', 'CALL_FUNCTION_EX', 'FOR_ITER', 'BINARY_SLICE', 'GET_ITER'}
_STORE_OPS = {'STORE_ATTR', 'STORE_GLOBAL', 'STORE_SUBSCR', 'STORE_SLICE', 'DELETE_ATTR', 'DELETE_SUBSCR', 'DELETE_GLOBAL',
              'LOAD_ATTR', 'LOAD_GLOBAL', 'BINARY_SUBSCR', 'CONTAINS_OP', 'CALL', 'FOR_ITER', 'STORE_DEREF', 'LIST_APPEND',
              'RETURN_VALUE', 'STORE_FAST'}
_STRONG_STORE = {'STORE_ATTR', 'STORE_GLOBAL', 'STORE_SUBSCR', 'STORE_SLICE', 'DELETE_ATTR', 'DELETE_SUBSCR', 'STORE_DEREF',
                 'LIST_APPEND', 'MAP_ADD', 'SET_ADD'}
_NO_ALLOC_METHODS = {'release', '__exit__', 'clear', 'pop', 'discard', 'popitem'}
_CALLS = {'CALL', 'CALL_FUNCTION_EX'}
_MUTATIONS = {'STORE_ATTR', 'STORE_GLOBAL', 'STORE_SUBSCR', 'STORE_SLICE', 'DELETE_ATTR', 'DELETE_SUBSCR', 'DELETE_GLOBAL', 'STORE_DEREF'}
_MUTATORS = {'pop', 'popitem', 'clear', 'update', 'append', 'extend', 'insert', 'add', 'remove', 'discard', 'setdefault', 'sort', 'reverse',
             'move_to_end', 'appendleft', 'popleft', '__setitem__', '__delitem__'}


def _analyse(code):
    flags = {}
    instrs = list(dis.get_instructions(code, adaptive=False))
    exits = set()      # the call of __exit__ on the normal path of a with statement: not a fault point
    for i, ins in enumerate(instrs):
        if (ins.opname == 'CALL' and i >= 3 and ins.arg == 2 and
                all(x.opname == 'LOAD_CONST' and x.argval is None for x in instrs[i - 3:i])):
            exits.update(x.offset for x in instrs[i - 3:i + 1])
    # In a function without handlers an asynchronous exception may also arrive between lines (interpreters before 3.12 and
    # trace functions do that); in one with handlers only where CPython 3.12 really delivers it, because there `with` and
    # `finally` give guarantees that an exception between arbitrary steps would falsely break.
    plain = not code.co_exceptiontable
    # An exception delivered at the end of a call belongs to the call.  Here it is raised at the next instruction, so only where
    # the same handlers are in force for both: `with lock: return f()` leaves the block at the instruction after the call.
    table = [(e.start, e.end, e.target) for e in dis._parse_exception_table(code)]

    def handler(offset):
        for start, end, target in table:
            if start <= offset < end:
                return target
        return None
    tested = set()
    for ins, after in zip(instrs, instrs[1:]):
        if ins.opname.startswith('POP_JUMP_IF'):
            tested.update((ins.argval, after.offset))
    prev_call = False
    call_handler = None
    after_store = False
    changed = mutator = False
    method = None
    for ins in instrs:
        fl = 0
        op = ins.opname
        if op == 'CACHE':
            continue
        if ins.offset not in exits and op not in ('PUSH_EXC_INFO', 'WITH_EXCEPT_START'):
            if prev_call and call_handler == handler(ins.offset) or op in ('RESUME', 'JUMP_BACKWARD') or (plain and ins.starts_line is not None):
                fl |= F_ASYNC
            if op in _ALLOC_OPS and not (op in _CALLS and method in _NO_ALLOC_METHODS):
                fl |= F_ALLOC
        if changed:
            fl |= F_MUT
        if ins.offset in tested:
            fl |= F_TEST
        if ins.starts_line is not None:
            mutator = False
        if op == 'LOAD_ATTR':
            method = ins.argval
            mutator = mutator or method in _MUTATORS
        if prev_call or op in ('RESUME', 'JUMP_BACKWARD'):
            fl |= F_CHECK
        if after_store or op in _STRONG_STORE:
            fl |= F_STORE
        elif op in _CALLS or prev_call:
            fl |= F_STORE
        changed = op in _MUTATIONS or op in _CALLS and mutator
        prev_call = op in _CALLS
        call_handler = handler(ins.offset)
        after_store = op in _STRONG_STORE
        flags[ins.offset] = fl
    return flags


class CodeMap:
    """all code objects of the code under test"""

    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        self.flags = {}
        self.lines = {}

    def add(self, code):
        if code in self.flags:
            return
        self.flags[code] = _analyse(code)
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                self.add(const)

    def owns(self, code):
        fn = code.co_filename
        return fn.startswith(self.root) and os.sep + 'tests' + os.sep not in fn

    def collect(self):
        for obj in gc.get_objects():
            if isinstance(obj, types.FunctionType):
                if self.owns(obj.__code__):
                    self.add(obj.__code__)
        # functions that are not tracked at the moment (wrapped, stored in slots ...)
        for mod in list(sys.modules.values()):
            fn = getattr(mod, '__file__', None) or ''
            if os.path.realpath(fn).startswith(self.root):
                for obj in list(vars(mod).values()):
                    for attr in [obj] + (list(vars(obj).values()) if isinstance(obj, type) else []):
                        for f in (attr, getattr(attr, '__func__', None), getattr(attr, '__wrapped__', None),
                                  getattr(attr, 'fget', None), getattr(attr, 'fset', None), getattr(attr, 'fdel', None)):
                            c = getattr(f, '__code__', None)
                            if isinstance(c, types.CodeType) and self.owns(c):
                                self.add(c)

    def site(self, code, offset):
        key = (code, offset)
        s = self.lines.get(key)
        if s is None:
            line = code.co_firstlineno
            for start, end, ln in code.co_lines():
                if start <= offset < end and ln is not None:
                    line = ln
            s = self.lines[key] = '%s:%s+%d' % (os.path.basename(code.co_filename)[:-3], code.co_qualname.split('.<locals>')[0],
                                                line - code.co_firstlineno)
        return s


# --------------------------------------------------------------------------------------------------
# locks: library code that uses threading primitives waits in simulated time

CURRENT = None      # the running Sim, if any
LAST = None         # the same, until the next one


class SimLock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = CURRENT
        me = sim.me() if sim is not None else 'main'
        while True:
            if self.owner is None or (self.reentrant and self.owner is me):
                self.owner = me
                self.count += 1
                return True
            if not blocking:
                return False
            if sim is None or me == 'main':
                raise Violation('deadlock', 'a lock of the library is held for ever: no call is in progress and the next one has to wait for it')
            if not sim.wait_for(me, self, timeout is not None and timeout >= 0):
                return False

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner = None
        self.count = 0

    # protocol used by threading.Condition
    def _is_owned(self):
        sim = CURRENT
        return self.owner is not None and self.owner is (sim.me() if sim is not None else 'main')

    def _release_save(self):
        state = self.count
        self.count = 0
        self.owner = None
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self.count = state


class SimRLock(SimLock):
    reentrant = True

    def release(self):
        sim = CURRENT
        if self.owner is not (sim.me() if sim is not None else 'main'):
            raise RuntimeError('cannot release un-acquired lock')
        SimLock.release(self)


def install_seams():
    """before the code under test is imported"""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._allocate_lock = SimLock
    time_base = 1_600_000_000.0

    def now():
        return time_base + monotonic() + (LAST.skew if LAST is not None else 0.0)

    def monotonic():
        return LAST.clock + LAST.idle if LAST is not None else 0.0

    def sleep(seconds):
        sim = CURRENT
        if sim is None or sim.me() == 'main':
            return
        sim.sleep(seconds)

    time.time = now
    time.monotonic = monotonic
    time.perf_counter = time.monotonic
    time.time_ns = lambda: int(now() * 1e9)
    time.monotonic_ns = lambda: int(monotonic() * 1e9)
    time.sleep = sleep
    entropy = random.Random(20160101)
    fake = lambda n: entropy.randbytes(n)
    os.urandom = fake
    random._urandom = fake
    fix_hashes()


def fix_hashes():
    """relations and their records hash by address, which decides the order of sets (and of comparisons within them): number them instead"""
    import rels.relations as rr
    meta = type(rr.Relation)
    numbers = itertools.count(1)
    record_init, meta_new = rr.Record.__init__, meta.__new__

    def scatter():
        return (next(numbers) * 0x9E3779B97F4A7C15 & (1 << 64) - 1) >> 4

    def init(self, *args, **kw):
        self.__dict__['_sim_hash'] = scatter()
        record_init(self, *args, **kw)

    def new(cls, *args, **kw):
        relation = meta_new(cls, *args, **kw)
        type.__setattr__(relation, '_sim_hash', scatter())
        return relation

    def hash_(self):
        return self._sim_hash

    rr.Record.__init__ = init
    meta.__new__ = staticmethod(new)
    type.__setattr__(rr.Relation, '_sim_hash', scatter())
    rr.Record.__hash__ = hash_
    meta.__hash__ = hash_


# --------------------------------------------------------------------------------------------------

class Thread:
    __slots__ = ('idx', 'name', 'ops', 'lock', 'done', 'waiting', 'n', 'op', 'next_p', 'next_f', 'gen_p', 'gen_f', 'depth',
                 'wake', 'in_op', 'k', 'attempt', 'timed', 'key', 'stall')

    def __init__(self, idx, ops):
        self.idx = idx
        self.ops = ops
        self.lock = _real_lock()
        self.lock.acquire()
        self.done = False
        self.waiting = None
        self.timed = False
        self.in_op = False
        self.n = 0
        self.k = 0
        self.stall = 0         # how many operations of others end before this one goes on by choice
        self.next_p = self.next_f = 1 << 60
        self.key = ''
        self.op = None


# a result or a state that cannot even be compared with the expected one: no correct library produces it (none of the runs on the unchanged tree does)
UNINTERPRETABLE = (TypeError, AttributeError, LookupError, ValueError, StopIteration, RecursionError)


def uninterpretable(e):
    import traceback
    fr = traceback.extract_tb(e.__traceback__)[-1]
    return 'what the library returned or did to an object cannot be compared: %s: %s (%s:%d)' % (
        type(e).__name__, str(e)[:200], os.path.basename(fr.filename), fr.lineno)


class Op:
    """One call (or short sequence of calls) of the library made by one simulated thread.

    fn() runs the library; check(result, error) judges it (raises Violation).  `retries` is the number of attempts which
    may be hit by a fault; after them comes a last attempt without faults, unless retry is False.
    """
    __slots__ = ('id', 'kind', 'fn', 'check', 'est', 'retry', 'on_fault', 'faultable', 'allowed', 'start', 'end', 'reset')

    def __init__(self, id, kind, fn, check=None, est=600, retry=True, on_fault=None, faultable=True, reset=None):
        self.id = id
        self.kind = kind
        self.fn = fn
        self.check = check
        self.est = est
        self.retry = retry
        self.on_fault = on_fault
        self.faultable = faultable
        self.start = None
        self.end = None
        self.reset = reset


MASKED = ('store', 'check', 'line', 'mutate', 'test')
STALLS = (1, 2, 5, 20, 1 << 30)
JUMPS = (['idle', 0.5], ['idle', 70.0], ['idle', 4000.0], ['idle', 3e6], ['set', 3600.0], ['set', -3600.0], ['set', -1.0], ['set', 1e8])


class Sim:
    STEP_LIMIT = 8_000_000

    def __init__(self, seed, cfg, codemap, trace=None):
        self.seed = seed
        self.cfg = cfg                     # sampling configuration (mode, rates, fault kinds)
        self.codemap = codemap
        self.flags = codemap.flags
        self.replay = trace is not None
        self.given = trace or {}
        self.plan = {}
        if self.replay:
            for key, value in self.given.items():
                if key[:2] in ('p:', 'f:'):
                    head, n = key.rsplit(':', 1)
                    self.plan.setdefault(head, []).append(int(n))
            for v in self.plan.values():
                v.sort()
        self.trace = {}
        self.log = hashlib.blake2b(digest_size=12)
        self.sig = hashlib.blake2b(digest_size=8)
        self.events = []
        self.keep_events = False
        self.seq = 0
        self.steps = 0
        self.clock = 0.0
        self.idle = 0.0        # time that passed between operations
        self.skew = 0.0        # of the wall clock, which can be set forth and back
        self.threads = []
        self.cur = None
        self.main_lock = _real_lock()
        self.main_lock.acquire()
        self.idents = {}
        self.harness_error = None
        self.violation = None
        self.dead = False
        self.counts = {}
        self.sites = set()
        self.pairs = set()
        self.interesting = 0
        self.prio = {}

    # -- decisions ---------------------------------------------------------------------------------

    def rng(self, key):
        return random.Random('%s/%s' % (self.seed, key))

    def decide(self, key, draw, default):
        """draw(rng) -> JSON value"""
        if self.replay:
            value = self.given.get(key, default)
        else:
            value = draw(self.rng(key))
        if value != default:
            self.trace[key] = value
        return value

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def event(self, *args):
        line = json.dumps(args, ensure_ascii=False, default=str)
        self.log.update(line.encode('utf-8'))
        if self.keep_events:
            self.events.append(line)

    # -- instrumentation ---------------------------------------------------------------------------

    def instrument(self):
        """events were switched on for every function of the library by runner.prepare()"""
        mon.register_callback(TOOL, mon.events.INSTRUCTION, self._make_callback())

    def _make_callback(self):
        sim = self
        flags = self.flags
        handle = self._handle
        p_mask = {'uniform': 0, 'store': F_STORE, 'check': F_CHECK, 'line': F_ASYNC, 'mutate': F_MUT, 'test': F_TEST}.get(self.cfg.get('mode'), 0)
        if self.replay:
            p_mask = 0

        def plain(code, offset):
            t = sim.cur
            if t is None or not t.in_op:
                return
            t.n += 1
            if t.n >= t.next_p or t.n >= t.next_f:
                handle(t, code, offset)

        def masked(code, offset):
            t = sim.cur
            if t is None or not t.in_op:
                return
            t.n += 1
            if flags[code].get(offset, 0) & p_mask:
                t.k += 1
            if t.k >= t.next_p or t.n >= t.next_f:
                handle(t, code, offset)

        return masked if p_mask else plain

    def _handle(self, t, code, offset):
        n = t.n
        if n > self.STEP_LIMIT:
            self.finish_hard('liveness', 'operation %s (%s) did not finish within %d library steps' % (t.op.id, t.op.kind, self.STEP_LIMIT))
        masked = not self.replay and self.cfg.get('mode') in MASKED
        fault_now = n >= t.next_f
        preempt_now = (t.k if masked else n) >= t.next_p
        if preempt_now:
            self._next_preempt(t, masked)
            self._preempt(t, code, offset, n)
        if fault_now:
            if self.replay:
                kind = self.given['%s:%d' % ('f:' + t.key, n)]
                self._next_fault(t)
                need = F_ALLOC if kind == 'memory' else F_ASYNC
                if not self.flags[code].get(offset, 0) & need:
                    return         # another execution than the recorded one: not a legal place
            else:
                kind = t.gen_f
                need = F_ALLOC if kind == 'memory' else F_ASYNC
                if not self.flags[code].get(offset, 0) & need:
                    return         # wait for the next legal place
                t.next_f = min(1 << 60, self.STEP_LIMIT + 1)
            site = self.codemap.site(code, offset)
            self.trace['f:%s:%d' % (t.key, n)] = kind
            self.count('fault:' + kind)
            self.event('fault', t.key, n, kind, site)
            self.sig.update(('f%s:%d%s' % (t.key, n, kind)).encode())
            self.sites.add('f ' + site)
            raise FAULTS[kind]()

    def _preempt(self, t, code, offset, n):
        others = [x for x in self.threads if not x.done and x.waiting is None and x is not t]
        if not others:
            return
        key = 'p:%s:%d' % (t.key, n)
        ids = [x.idx for x in others]
        if self.replay:
            target = self.given.get(key)
            if target is None:
                return
            if target not in ids:
                target = ids[0]
        else:
            target = self._pick(key, t, ids)
            if target is None:
                return
        self.trace[key] = target
        site = self.codemap.site(code, offset)
        self.count('preempt')
        self.event('preempt', t.key, n, target, site)
        self.sig.update(('p%s:%d>%d' % (t.key, n, target)).encode())
        self.sites.add('p ' + site)
        o = self.threads[target]
        self.pairs.add((site, o.op.kind if o.op is not None else '-'))
        share = self.cfg.get('stall')
        if share and not self.replay:
            rng = self.rng('stall' + key)
            if rng.random() < share:
                t.stall = rng.choice(STALLS)
                self.count('fault:stall')
        self._switch(t, o)

    def _pick(self, key, t, ids):
        """-> thread to run instead of t, or None to stay"""
        awake = [i for i in ids if not self.threads[i].stall]
        return self.rng(key).choice(awake) if awake else None

    def _awake(self, ids):
        """the threads that are not stalled, or all of them"""
        return [i for i in ids if not self.threads[i].stall] or ids

    # -- sampling ----------------------------------------------------------------------------------

    def _arm(self, t, op, attempt, faults):
        t.op = op
        t.key = '%s.%d' % (op.id, attempt)
        t.n = 0
        t.k = 0
        t.next_p = t.next_f = self.STEP_LIMIT + 1
        t.gen_p = t.gen_f = None
        if self.replay:
            t.gen_p = iter(self.plan.get('p:' + t.key, ()))
            t.gen_f = iter(self.plan.get('f:' + t.key, ()))
            self._next_preempt(t, False)
            self._next_fault(t)
            return
        rng = self.rng('arm:' + t.key)
        mode = self.cfg.get('mode')
        if mode != 'boundary' and len(self.threads) > 1:
            gap = self.cfg['gap']
            t.gen_p = (rng, gap)
            masked = mode in MASKED
            self._next_preempt(t, masked)
        if faults and rng.random() < self.cfg.get('fault_rate', 0) * (0.5 ** attempt):
            kinds = self.cfg['faults']
            t.gen_f = rng.choice(kinds)
            est = op.est
            if rng.random() < 0.7:
                t.next_f = 1 + int(rng.random() * est)
            else:
                t.next_f = max(1, int(est ** rng.random()))

    def _next_preempt(self, t, masked):
        limit = self.STEP_LIMIT + 1
        if self.replay:
            t.next_p = next(t.gen_p, limit)
            return
        rng, gap = t.gen_p if t.gen_p else (None, 0)
        if rng is None:
            t.next_p = limit
            return
        if self.counts.get('preempt', 0) > self.cfg.get('budget', 200):
            gap *= 20             # a run that was chopped finely enough goes on in larger slices
        step = 1 + int(rng.expovariate(1.0 / gap))
        t.next_p = (t.k if masked else t.n) + step

    def _next_fault(self, t):
        t.next_f = next(t.gen_f, self.STEP_LIMIT + 1)

    # -- threads -----------------------------------------------------------------------------------

    def me(self):
        return self.idents.get(_real_get_ident(), 'main')

    def _switch(self, t, o):
        """called by the running thread t: run o, come back when someone releases t"""
        in_op = t.in_op
        t.in_op = False
        self.cur = None
        self.cur = o
        o.lock.release()
        t.lock.acquire()
        if self.dead:
            _thread.exit()
        self.cur = t
        t.stall = 0
        t.in_op = in_op

    def runnable(self, but=None):
        return [x for x in self.threads if not x.done and x.waiting is None and x is not but]

    def _wake_waiters(self):
        for x in self.threads:
            if x.waiting is not None and (x.waiting.owner is None or (x.waiting.reentrant and x.waiting.owner is x)):
                x.waiting = None

    def wait_for(self, t, lock, timed):
        """t cannot take lock now.  -> False when a timed wait expired"""
        self.count('lock_wait')
        self._wake_waiters()
        t.waiting = lock
        t.timed = timed
        ids = [x.idx for x in self.runnable(t)]
        if not ids:
            if timed:
                t.waiting = None
                self.clock += 1.0
                return False
            timed_out = [x for x in self.threads if x.waiting is not None and x.timed and x is not t]
            if timed_out:
                timed_out[0].waiting = None
                ids = [timed_out[0].idx]
            else:
                self.finish_hard('deadlock', 'operation %s (%s) waits for a lock nobody can release' % (t.op.id, t.op.kind))
        key = 'l:%s:%d' % (t.key, t.n)
        target = self.decide(key, lambda r: r.choice(self._awake(ids)), ids[0])
        if target not in ids:
            target = ids[0]
        self.event('wait', t.key, t.n, target)
        self._switch(t, self.threads[target])
        t.waiting = None
        return True

    def sleep(self, seconds):
        t = self.me()
        self.clock += max(0.0, seconds)
        self._wake_waiters()
        others = self.runnable(t)
        if others:
            self.event('sleep', t.key)
            self._switch(t, others[0])

    def _boundary(self, t, op):
        """after an operation of t"""
        self._wake_waiters()
        for x in self.threads:
            if x.stall:
                x.stall -= 1
        if op is not None and (self.replay or self.cfg.get('clock')):
            jump = self.decide('c:%s' % op.id, lambda r: r.choice(JUMPS) if r.random() < 0.2 else None, None)
            if jump is not None:
                self.count('fault:clock-jump')
                if jump[0] == 'idle':
                    self.idle += jump[1]
                else:
                    self.skew += jump[1]
        ids = [x.idx for x in self.runnable() if x is not t or not t.done]
        if not ids:
            stuck = [x for x in self.threads if not x.done]
            if stuck:
                timed = [x for x in stuck if x.timed]
                if timed:
                    timed[0].waiting = None
                    ids = [timed[0].idx]
                else:
                    self.finish_hard('deadlock', 'operation %s (%s) waits for a lock nobody can release' % (stuck[0].op.id, stuck[0].op.kind))
            else:
                self.cur = None
                self.main_lock.release()
                return
        default = t.idx if t.idx in ids else ids[0]
        p = self.cfg.get('boundary', 0.5)
        target = self.decide('b:%s' % (op.id if op is not None else 't%d' % t.idx),
                             lambda r: r.choice(self._awake(ids)) if (r.random() < p or t.done) else default, default)
        if target not in ids:
            target = default
        if target == t.idx:
            return
        self.sig.update(('b%s>%d' % (op.id if op is not None else '', target)).encode())
        if t.done:
            self.cur = self.threads[target]
            self.threads[target].lock.release()
        else:
            self._switch(t, self.threads[target])

    def _body(self, t):
        t.lock.acquire()
        if self.dead:
            return
        self.idents[_real_get_ident()] = t
        self.cur = t
        last = None
        try:
            for op in t.ops:
                if self.dead or self.violation is not None or self.harness_error is not None:
                    break
                self._run_op(t, op)
                last = op
                if op is not t.ops[-1]:
                    self._boundary(t, op)
        except Violation as e:
            self.violate(e.cls, e.message)
        except BaseException as e:       # noqa
            if isinstance(e, UNINTERPRETABLE):
                self.violate('uninterpretable', uninterpretable(e))
            elif self.harness_error is None:
                import traceback
                self.harness_error = traceback.format_exc()
        t.done = True
        t.in_op = False
        try:
            self._boundary(t, None if last is None else last)
        except BaseException:
            import traceback
            self.harness_error = traceback.format_exc()
            self.main_lock.release()

    def _run_op(self, t, op):
        op.start = self.seq
        self.seq += 1
        attempts = self.cfg.get('attempts', 2) if (op.faultable and self.cfg.get('faults')) else 0
        if self.replay:
            attempts = 1 + max([int(h.rsplit('.', 1)[1]) for h in self.plan if h.startswith('f:%s.' % op.id)], default=-1)
        result = error = None
        for attempt in range(attempts + 1):
            last = attempt == attempts
            if attempt and op.reset is not None:
                op.reset()
            self._arm(t, op, attempt, not last)
            result = error = None
            injected = False
            t.in_op = True
            try:
                result = op.fn()
            except INJECTED as e:
                injected = True
                error = e
            except Violation:
                t.in_op = False
                raise
            except BaseException as e:
                error = e
            t.in_op = False
            self.steps += t.n
            self.clock += t.n * 1e-6
            if error is not None and not injected and _root_injected(error):
                # the library turned an injected failure into another error: that is a failed call, not a wrong answer
                injected = True
            if injected:
                self.event('interrupted', t.key, t.n, type(error).__name__)
                if op.on_fault is not None:
                    op.on_fault(error)
                if isinstance(error, SimCrash):
                    if not op.retry:
                        break
                    continue
                if not op.retry or last:
                    break
                continue
            break
        op.end = self.seq
        self.seq += 1
        self.event('done', t.key, t.n, _brief(result), type(error).__name__ if error is not None else None)
        if op.check is not None:
            if error is not None and isinstance(error, INJECTED):
                return
            t.op = op
            op.check(result, error)

    def run(self, threads):
        """threads: list of lists of Op; returns when all are finished"""
        self.threads = [Thread(i, ops) for i, ops in enumerate(threads) if True]
        self.idents = {}
        global CURRENT, LAST
        CURRENT = LAST = self
        live = [t for t in self.threads if t.ops]
        for t in self.threads:
            if not t.ops:
                t.done = True
        if not live:
            CURRENT = None
            return
        for t in live:
            _real_start(self._body, (t,))
        first = self.decide('s:%d' % self.seq, lambda r: r.choice([t.idx for t in live]), live[0].idx)
        if first not in [t.idx for t in live]:
            first = live[0].idx
        self.cur = self.threads[first]
        self.threads[first].lock.release()
        self.main_lock.acquire()
        CURRENT = None
        self.cur = None
        if self.harness_error is not None:
            raise HarnessError(self.harness_error)
        if self.violation is not None:
            raise Violation(*self.violation)

    def violate(self, cls, message):
        if self.violation is None:
            self.violation = (cls, message)
            self.event('violation', cls)

    # -- stop from inside a call ---------------------------------------------------------------------

    hard_exit = None

    def finish_hard(self, cls, message):
        self.event('violation', cls)
        self.violation = (cls, message)
        self.hard_exit()


def _root_injected(error):
    seen = 0
    while error is not None and seen < 10:
        if isinstance(error, INJECTED):
            return True
        error = error.__cause__ or error.__context__
        seen += 1
    return False


def _brief(result):
    if result is None or isinstance(result, (bool, int, str)):
        return result if not isinstance(result, str) else result[:200]
    if isinstance(result, (list, tuple)) and len(result) < 50 and all(isinstance(x, (str, int, bool)) for x in result):
        return list(result)
    return type(result).__name__


def describe(error):
    """-> 'Class: message (where)' for messages"""
    import traceback
    tb = traceback.extract_tb(error.__traceback__)
    where = ''
    for fr in reversed(tb):
        if '/utg/' in fr.filename:
            where = ' at %s:%s' % (os.path.basename(fr.filename), fr.name)
            break
    return '%s: %s%s' % (type(error).__name__, str(error)[:200], where)
