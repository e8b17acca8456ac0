"""Shared by C06 and C07: a lexicon under concurrent registration."""
from collections import Counter

from .. import model as M
from ..core import Op, Violation
from ..world import show, describe

KEYS = 12
RESTRICTIONS = 16


def key_of(world, k):
    # keys that are spelled or hashed alike and are not the same
    return [1, 'ключ', world.types['NOUN'], (1, 'a'), world.types['VERB'], frozenset([7]), '1', -1, -2, "(1, 'a')", 'Ключ', ' ключ'][k]


def restriction(world, i):
    """restrictions are arbitrary hashable values; numbers, pairs and texts are used"""
    return [0, 1, 2, ('герой', 3), ('герой', 4), 'муж', 'жен', '1', "('герой', 3)", -1, -2, 'Муж', '', None, world.types['NOUN'], 1 << 61][i]


def restriction_ids(rng, sizes, pool=None):
    return rng.sample(pool or range(RESTRICTIONS), min(rng.choice(sizes), len(pool or range(RESTRICTIONS))))


def restriction_pool(rng):
    """few restrictions per case, so that sets meet; often with pairs that look alike"""
    base = rng.sample(range(RESTRICTIONS), rng.randint(3, 7))
    for a, b in ((1, 7), (3, 8), (9, 10), (5, 11)):
        if rng.random() < 0.2:
            base += [x for x in (a, b) if x not in base]
    return base


def rset(world, ids):
    return frozenset(restriction(world, i) for i in ids)


def own_set(o, request, live):
    """the restrictions of a request as its caller holds them: for ever, for this call only, or in one set used for call after call"""
    if o['arg'] == 'frozen':
        return request
    if o['arg'] == 'fresh':
        return set(request)
    s = live.setdefault(o['thread'], set())
    s.clear()
    s.update(request)
    return s


class Registry:
    """what the harness knows about registrations: op, key, template object, restrictions, how often it may be there"""

    def __init__(self, world, lexicon):
        self.world = world
        self.lexicon = lexicon
        self.regs = []          # dicts: key, t (template id), rs, op (None: before the threads started), faults
        self.objects = {}       # template id -> object given to the lexicon
        self.numbers = {}       # address -> template id, object

    def template(self, tid, real):
        if real and tid % 3 == 1:
            # one that nobody but the lexicon keeps
            return self.world.template('разовый %d' % tid, [])
        if tid not in self.objects:
            if real:
                self.objects[tid] = self.world.template('текст %d' % (tid % 3), [])      # some are equal, none identical
            else:
                self.objects[tid] = 'текст %d' % tid
            self.numbers[id(self.objects[tid])] = (tid, self.objects[tid])
        return self.objects[tid]

    def id_of(self, obj):
        hit = self.numbers.get(id(obj))
        if hit is not None and hit[1] is obj:
            return hit[0]
        if isinstance(obj, self.world.templates.Template):
            text = obj.serialize()['template'] or ''
            if text.startswith('разовый '):
                return int(text[8:])
        raise Violation('foreign', 'the lexicon returned something that was never registered: %s' % show(obj))

    def add_now(self, k, tid, real, rs):
        self.regs.append({'key': k, 't': tid, 'rs': rset(self.world, rs), 'op': None, 'faults': 0})
        self.call(k, tid, real, rs)

    def call(self, k, tid, real, rs):
        t = self.template(tid, real)
        if tid % 7 == 3:
            # a set of the caller, who goes on using it for something else
            own = set(rset(self.world, rs))
            self.lexicon.add_template(key_of(self.world, k), t, own)
            own.clear()
            own.add('занято')
        elif rs:
            self.lexicon.add_template(key_of(self.world, k), t, restrictions=rset(self.world, rs))
        else:
            self.lexicon.add_template(key_of(self.world, k), t)

    def add_op(self, o):
        self.template(o['t'], o['real'])
        reg = {'key': o['k'], 't': o['t'], 'rs': rset(self.world, o['rs']), 'op': None, 'faults': 0}
        op = Op(o['id'], 'add', lambda: self.call(o['k'], o['t'], o['real'], o['rs']), None, est=25, retry=o.get('retry', True))

        def check(r, e):
            if e is not None:
                raise Violation('add-error', 'registering failed: %s' % describe(e))

        def on_fault(e):
            reg['faults'] += 1
        op.check = check
        op.on_fault = on_fault
        reg['op'] = op
        self.regs.append(reg)
        return op

    # -> per registration: (least, most) number of copies an observer within [start, end] may see
    def bounds(self, reg, start):
        op = reg['op']
        if op is None:
            return 1, 1
        if op.start is None:
            return 0, 0
        tries = reg['faults']
        if op.end is not None:
            ok = 0 if reg.get('given_up') else 1
            if op.end < start:
                return ok, ok + tries
            return 0, ok + tries
        return 0, 1 + tries

    def check_listing(self, got, k, request, start, what):
        ids = [self.id_of(x) for x in got]
        per = {}
        for reg in self.regs:
            lo, hi = self.bounds(reg, start)
            if reg['key'] == k and reg['rs'] <= request:
                a, b = per.get(reg['t'], (0, 0))
                per[reg['t']] = (a + lo, b + hi)
        counted = Counter(ids)
        for t in set(ids) | set(per):
            lo, hi = per.get(t, (0, 0))
            n = counted[t]
            if n < lo:
                raise Violation('lost', '%s: template %d was registered %d times and is listed %d times' % (what, t, lo, n))
            if n > hi:
                raise Violation('extra' if hi else 'not-eligible', '%s: template %d is listed %d times, at most %d are possible' % (what, t, n, hi))
        # order of registrations that did not overlap (only templates registered once and seen once)
        times = Counter(x['t'] for x in self.regs)
        place = {t: i for i, t in enumerate(ids)}
        first, later = [], []
        for reg in self.regs:
            if reg['key'] == k and counted[reg['t']] == 1 and times[reg['t']] == 1 and not reg['faults']:
                op = reg['op']
                if op is None:
                    first.append(reg['t'])
                else:
                    later.append((op.start, op.end if op.end is not None else 1 << 60, reg['t']))
        pairs = list(zip(first, first[1:])) + ([(first[-1], y) for _, _, y in later] if first else [])
        pairs += [(x, y) for _, xe, x in later for ys, _, y in later if xe < ys]
        for x, y in pairs:
            if place[x] > place[y]:
                raise Violation('order', '%s: template %d was registered before %d and is listed after it' % (what, x, y))
        return ids
