"""C16: a replicated text service built on the library."""
import hashlib
import json
import random

from .base import Scenario, number_ops
from .c12_damage import props_outcome, word_outcome
from .lexicon_common import key_of, rset
from .. import damage as D
from .. import gen as G
from .. import model as M
from ..core import Op, Violation, SimCrash
from ..world import World, show, describe

MAX_STEPS = 4_000_000         # library instructions one request may take


def foreign(rng, rec):
    """the same record written by a version with other properties, or for a part of speech or layout nobody knows here"""
    kinds = ['unknown_kind', 'unknown_value', 'all_unknown']
    if 'forms' in rec:
        kinds += ['type_unknown', 'forms_less', 'forms_more']
    rec = json.loads(json.dumps(rec))
    for _ in range(20):
        new = json.loads(json.dumps(rec))
        D.reshape(new, rng.choice(kinds), rng.randrange(1 << 16), rng.randrange(1 << 16))
        if 'forms' not in rec or word_outcome(new)[0] in ('ok', 'reject'):
            if all(props_outcome(p)[0] == 'ok' for p in D.property_sets(new)):
                return new
    return rec


class State:
    """what a node holds in memory; lost in a crash"""

    def __init__(self, world):
        self.dictionary = world.dictionary.Dictionary()
        self.lexicon = world.lexicon.Lexicon()
        self.objects = {}         # template item -> object
        self.begun = []           # items in the order in which they were applied
        self.finished = 0
        self.known = set()


class Node:
    def __init__(self, i, world):
        self.i = i
        self.disk = {}            # item -> bytes, survives crashes
        self.refused = set()      # items refused by the library
        self.inbox = []           # [due, seq, item, bytes]
        self.state = State(world)
        self.down = False
        self.applying = None      # item being applied; a tolerant node applies a word again when it was interrupted


def pack(rec):
    data = json.dumps(rec, ensure_ascii=False).encode('utf-8')
    return hashlib.blake2b(data, digest_size=8).hexdigest().encode() + data


def unpack(data):
    """-> record or None when the bytes are damaged"""
    if len(data) < 16 or hashlib.blake2b(data[16:], digest_size=8).hexdigest().encode() != data[:16]:
        return None
    return json.loads(data[16:].decode('utf-8'))


class C16(Scenario):
    id = 'C16'
    title = 'replicated service'
    fault_kinds = ('interrupt', 'timeout', 'memory', 'crash')
    fault_share = 0.6
    quick_runs = 2000
    thorough_runs = 80000
    rule = ('one case = 2-4 nodes, each with a loader thread and a client thread, that exchange 4-10 saved words and templates (some from foreign versions) '
            'over a network that loses, repeats, delays, reorders, damages and partitions, with crashes, restarts and lost or torn disk writes; '
            'non-trivial = a decision was taken; distinct by case and decisions')
    real = ['utg (all modules, unmodified, from the working tree)', 'rels']
    stub = ['thread scheduler', 'threading.Lock/RLock', 'time', 'os.urandom', 'network between nodes', 'disk of nodes', 'replication protocol (harness)']

    def gen(self, rng, tier):
        names = ['герой', 'n'][:rng.randint(1, 2)]
        ext = {n: G.external(rng, 'ё') for n in names}
        base = [G.word(rng, tag='абвгд'[k]) for k in range(rng.randint(2, 4))]
        words = list(base)
        if rng.random() < 0.5:
            w = rng.choice(base)
            w = {'type': w['type'], 'forms': list(w['forms']), 'props': dict(w['props'])}
            if rng.random() < 0.5:
                w['props']['GENDER'] = rng.choice(M.VALUES['GENDER'])
            else:
                w['forms'][rng.randrange(len(w['forms']))] = 'ёж'
            words.append(w)
        if rng.random() < 0.15:
            words = [G.holes(rng, w) if rng.random() < 0.4 else w for w in words]
        texts = G.usable_texts(base)[:80] or ['нет']
        items = []
        for w in words:
            rec = M.word_record(w)
            if rng.random() < 0.2:
                rec = foreign(rng, rec)
            items.append({'kind': 'word', 'rec': rec})
        want, tries = rng.randint(2, 5), 0
        while want and tries < 100:
            tries += 1
            t = G.template_text(rng, names, texts, lo=1, hi=3, bad=0.02)
            old = [i['text'] for i in items if i['kind'] == 'template' and 'text' in i]
            if old and rng.random() < 0.25:
                t = G.vary_text(rng, rng.choice(old))
            try:
                M.parse(t, names)
            except M.ModelError:
                continue
            want -= 1
            rec = M.template_record(t, names)
            if rng.random() < 0.2:
                rec = foreign(rng, rec)
            items.append({'kind': 'template', 'text': t, 'rec': rec, 'k': rng.randrange(2), 'rs': sorted(rng.sample(range(5), rng.randint(0, 2)))})
        if rng.random() < 0.4:
            # the same template under other restrictions, or once more
            it = dict(rng.choice([x for x in items if x['kind'] == 'template'] or items))
            if it['kind'] == 'template':
                if rng.random() < 0.6:
                    it['k'], it['rs'] = rng.randrange(2), sorted(rng.sample(range(5), rng.randint(0, 2)))
                items.append(it)
        rng.shuffle(items)
        nodes = rng.randint(2, 4)
        threads = []
        homes = [rng.randrange(nodes) for _ in items]
        for n in range(nodes):
            ops = [{'op': 'publish', 'item': i} for i in range(len(items)) if homes[i] == n]
            for _ in range(rng.randint(1, len(items) + 3)):
                ops.insert(rng.randint(0, len(ops)), {'op': 'pump', 'max': rng.randint(1, 4)})
            if rng.random() < 0.4:
                ops.insert(rng.randint(0, len(ops)), {'op': 'restart', 'n': rng.randrange(1000)})
            if rng.random() < 0.4:
                ops.insert(rng.randint(0, len(ops)), {'op': 'gossip', 'to': rng.randrange(nodes)})
            for o in ops:
                o['node'] = n
            threads.append(ops)
        for n in range(nodes):
            ops = []
            for _ in range(rng.randint(1, 5)):
                op = {'op': rng.choice(['text', 'text', 'text', 'nearest', 'nearest', 'lookup', 'missing']), 'node': n, 'k': rng.randrange(3) if rng.random() < 0.1 else rng.randrange(2),
                      'rs': sorted(rng.sample(range(5), rng.randint(0, 5))), 'rnd': rng.randrange(1 << 20), 'text': rng.choice(texts)}
                ops.append(op)
            threads.append(ops)
        return {'names': names, 'ext': ext, 'items': items, 'nodes': nodes, 'cuts': rng.random() < 0.4, 'calm': rng.random() < 0.2, 'tolerant': rng.random() < 0.5,
                'phases': number_ops([threads])}

    # -- model ---------------------------------------------------------------------------------------

    def outcome(self, it, names):
        """-> ('word', word) | ('template', parts) | ('reject', why)"""
        if it['kind'] == 'word':
            o = word_outcome(it['rec'])
            return ('word', o[1]) if o[0] == 'ok' else ('reject', o[1])
        parts = M.parse(it['text'], names)
        subs = iter(it['rec']['substitutions'])
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            else:
                s = next(subs)
                out.append({'id': p['id'], 'deps': [d if isinstance(d, str) else props_outcome(d)[1] for d in s['dependencies']]})
        return ('template', out)

    def run(self, sim, case):
        sim.STEP_LIMIT = MAX_STEPS
        world = World()
        self.world, self.sim, self.case = world, sim, case
        names = case['names']
        ext = {n: world.external(e) for n, e in case['ext'].items()}
        m_ext = {n: G.model_external(e) for n, e in case['ext'].items()}
        items = case['items']
        meaning = [self.outcome(it, names) for it in items]
        nodes = [Node(i, world) for i in range(case['nodes'])]
        seq = [0]
        faulty = [not case['calm']]
        dicts = {}

        def model_dictionary(ids):
            key = tuple(sorted(i for i in ids if items[i]['kind'] == 'word'))
            if key not in dicts:
                dicts[key] = M.Dictionary([meaning[i][1] for i in key])
            return dicts[key]

        # -- network -------------------------------------------------------------------------------

        def send(src, dst, i, data):
            seq[0] += 1
            key = 'x:net:%d:%d:%d:%d' % (src, dst, i, seq[0])

            def draw(r):
                roll = r.random()
                if roll < 0.45:
                    return None
                kind = r.choice(['lost', 'dup', 'delay', 'delay', 'garbled'])
                return {'kind': kind, 't': [round(r.expovariate(1.5), 3), round(r.expovariate(0.7), 3)], 'a': r.randrange(1 << 16)}
            what = sim.decide(key, draw, None) if faulty[0] else None
            if faulty[0] and case['cuts']:
                # a partition: the cut between two nodes lasts one second of simulated time
                cut = sim.decide('x:cut:%d:%d:%d' % (min(src, dst), max(src, dst), int(sim.clock)), lambda r: r.random() < 0.3, False)
                if cut:
                    sim.count('fault:net-partition')
                    return
            due = [sim.clock]
            if what is not None:
                sim.count('fault:net-' + what['kind'])
                if what['kind'] == 'lost':
                    return
                due = [sim.clock + what['t'][0]]
                if what['kind'] == 'dup':
                    due.append(sim.clock + what['t'][1])
                if what['kind'] == 'garbled' and data:
                    k = what['a'] % len(data)
                    data = data[:k] + bytes([data[k] ^ (1 << what['a'] % 8)]) + data[k + 1:]
            for d in due:
                seq[0] += 1
                nodes[dst].inbox.append([d, seq[0], i, data])

        # -- node ----------------------------------------------------------------------------------

        def restore(i, rec):
            """what the library makes of a record -> object or None when it refuses"""
            cls = world.words.Word if items[i]['kind'] == 'word' else world.templates.Template
            try:
                obj = cls.deserialize(rec)
            except Exception as e:
                if isinstance(e, INJECTED) or _injected(e):
                    raise
                if meaning[i][0] != 'reject':
                    raise Violation('refused', 'restoring record %s failed: %s' % (show(rec), describe(e)))
                return None
            if meaning[i][0] == 'reject':
                raise Violation('accepted', 'a record that has to be rejected (%s) was accepted: %s' % (meaning[i][1], show(rec)))
            return obj

        def accept(node, i, obj):
            st = node.state
            if i not in st.begun:
                st.begun.append(i)
            node.applying = i, obj
            if items[i]['kind'] == 'word':
                st.dictionary.add_word(obj)
            else:
                st.objects[i] = obj
                rs = rset(world, items[i]['rs'])
                k = key_of(world, items[i]['k'])
                if i % 3 == 1:
                    # a set of the node, used for something else afterwards
                    own = set(rs)
                    st.lexicon.add_template(k, obj, own)
                    own.clear()
                elif rs:
                    st.lexicon.add_template(k, obj, restrictions=rs)
                else:
                    st.lexicon.add_template(k, obj)
            st.known.add(i)
            st.finished = len(st.begun)
            node.applying = None

        def receive(node, i, data):
            if i in node.state.known or i in node.refused:
                return
            rec = unpack(data)
            if rec is None:
                sim.count('garbled_message_dropped')
                return
            obj = restore(i, rec)
            if obj is None:
                node.refused.add(i)
                sim.count('record_refused')
                return
            write(node, i, data)
            accept(node, i, obj)

        def write(node, i, data):
            seq[0] += 1

            def draw(r):
                roll = r.random()
                return None if roll < 0.9 else {'kind': r.choice(['lost', 'torn', 'full']), 'a': r.randrange(1 << 16)}
            what = sim.decide('x:disk:%d:%d:%d' % (node.i, i, seq[0]), draw, None) if faulty[0] else None
            if what is None:
                node.disk[i] = data
                return
            sim.count('fault:disk-' + what['kind'])
            if what['kind'] == 'torn':
                node.disk[i] = data[:what['a'] % len(data)]
            # lost: reported as written; full: the node goes on in memory and will be told again after a crash

        def recover(node, order=None):
            """restart: memory is rebuilt from the disk"""
            new = State(world)
            node.applying = None
            ids = sorted(node.disk)
            if order is not None:
                random.Random(order).shuffle(ids)
            old, node.state = node.state, new
            fresh = []
            try:
                for i in ids:
                    rec = unpack(node.disk[i])
                    if rec is None:
                        sim.count('torn_record_dropped')
                        continue
                    obj = restore(i, rec)
                    if obj is None:
                        raise Violation('refused', 'a record accepted before is refused after a restart: %s' % show(rec))
                    accept(node, i, obj)
                    fresh.append(i)
            finally:
                node.state = new
            node.refused.clear()
            node.down = False
            sim.count('restart')

        def up(node):
            if node.down:
                recover(node)
            elif node.applying:
                i, obj = node.applying
                sim.count('word_applied_again')
                accept(node, i, obj if i % 2 else restore(i, items[i]['rec']))

        # -- operations ----------------------------------------------------------------------------

        def loader_op(o):
            node = nodes[o['node']]

            def on_fault(e):
                # in the middle of applying a record: a template may or may not be registered, so the node starts over from its disk
                if isinstance(e, SimCrash):
                    sim.count('fault:node-crash')
                    if o.get('lose', True):
                        node.inbox[:] = []
                elif case.get('tolerant') and not node.down and (not node.applying or items[node.applying[0]]['kind'] == 'word'):
                    return
                node.down = True

            def publish():
                up(node)
                data = pack(items[o['item']]['rec'])
                receive(node, o['item'], data)
                for other in nodes:
                    if other is not node:
                        send(node.i, other.i, o['item'], data)

            def pump():
                up(node)
                for _ in range(o['max']):
                    ready = [m for m in node.inbox if m[0] <= sim.clock]
                    if not ready:
                        if not node.inbox:
                            return
                        sim.clock = min(m[0] for m in node.inbox)
                        ready = [m for m in node.inbox if m[0] <= sim.clock]
                    ready.sort()
                    m = ready[0]
                    receive(node, m[2], m[3])
                    if m in node.inbox:
                        node.inbox.remove(m)

            def restart():
                if not node.down:
                    node.inbox[:] = []
                    sim.count('fault:node-crash')
                node.down = True
                recover(node, o['n'])

            def gossip():
                up(node)
                for i in sorted(node.disk):
                    if o['to'] < len(nodes) and o['to'] != node.i:
                        send(node.i, o['to'], i, node.disk[i])

            fn = {'publish': publish, 'pump': pump, 'restart': restart, 'gossip': gossip}[o['op']]

            def check(r, e):
                if e is not None:
                    raise Violation('loader-error', '%s at node %d failed: %s' % (o['op'], node.i, describe(e)))
            return Op(o['id'], o['op'], fn, check, est=4000, on_fault=on_fault)

        def client_op(o):
            node = nodes[o['node']]
            box = {}
            request = rset(world, o['rs'])
            k = key_of(world, o['k'])

            def fn():
                box.clear()
                if node.down:
                    return None
                st = node.state
                box['st'], box['from'] = st, st.finished
                if o['op'] == 'lookup':
                    return world.form_of(st.dictionary.get_word(o['text']))
                if o['op'] == 'missing':
                    ts = st.lexicon.get_templates(k, request)
                    if not ts:
                        return None
                    t = box['t'] = ts[o['rnd'] % len(ts)]
                    return t.get_undictionaried_words(externals=list(names), dictionary=st.dictionary)
                if o['op'] == 'text':
                    t = st.lexicon.get_random_template(k, restrictions=request)
                else:
                    t = st.lexicon.get_random_nearest_template(k, restrictions=request)
                box['t'] = t
                return t.substitute(ext, st.dictionary)

            def check(r, e):
                st = box.get('st')
                if st is None:
                    sim.count('node_down')
                    if e is not None:
                        raise Violation('request-error', describe(e))
                    return
                chain = [st.begun[:n] for n in range(box['from'], len(st.begun) + 1)]
                sim.count('request')
                if len(chain) > 1:
                    sim.count('request_during_load')
                self.judge(o, box, st, chain, r, e, model_dictionary, meaning, m_ext, request)
            return Op(o['id'], o['op'], fn, check, est=900)

        from ..core import INJECTED, _root_injected as _injected
        sim.run([[loader_op(o) if o['op'] in ('publish', 'pump', 'restart', 'gossip') else client_op(o) for o in th] for th in case['phases'][0]])

        # -- faults stop ---------------------------------------------------------------------------
        faulty[0] = False
        good = [i for i in range(len(items)) if meaning[i][0] != 'reject']
        for node in nodes:
            up(node)
        rounds = 0
        while any(node.state.known != set(good) or sorted(node.disk) != good or any(unpack(d) is None for d in node.disk.values()) for node in nodes):
            rounds += 1
            if rounds > 3:
                raise Violation('no-progress', 'nodes do not agree %d rounds after faults stopped: %s' % (rounds, [sorted(n.state.known) for n in nodes]))
            # publishers repeat what they published; every node passes it on and stores what it has to
            for i in range(len(items)):
                data = pack(items[i]['rec'])
                for node in nodes:
                    send(node.i, node.i, i, data)
            for node in nodes:
                while node.inbox:
                    node.inbox.sort()
                    sim.clock = max(sim.clock, node.inbox[0][0])
                    m = node.inbox.pop(0)
                    receive(node, m[2], m[3])
                    if m[2] in node.state.known:
                        node.disk[m[2]] = m[3] if unpack(m[3]) is not None else node.disk.get(m[2], b'')
        sim.count('converged')
        self.final(sim, world, case, nodes, good, meaning, names, ext, m_ext, model_dictionary, 'after faults stopped', False)
        for node in nodes:
            recover(node)
        lone = Node(99, world)
        for i in good:
            accept(lone, i, restore(i, items[i]['rec']))
        self.final(sim, world, case, nodes + [lone], good, meaning, names, ext, m_ext, model_dictionary, 'after a restart of every node', True)

    # -- judging -------------------------------------------------------------------------------------

    def judge(self, o, box, st, chain, r, e, model_dictionary, meaning, m_ext, request):
        world, case = self.world, self.case
        items = case['items']
        what = '%s at node %d, key %d, restrictions %s' % (o['op'], o['node'], o['k'], o['rs'])
        if e is not None and not isinstance(e, Exception):
            raise Violation('request-error', '%s: %s' % (what, describe(e)))
        if o['op'] == 'lookup':
            outs = []
            for ids in chain:
                d = model_dictionary(ids)
                outs.append(d.get(o['text']) if d.has(o['text']) else None)
            if e is not None:
                if not world.is_error(e, 'NoWordsFoundError') or None not in outs:
                    raise Violation('lookup-error', '%s: %r: expected %s, failed with %s' % (what, o['text'], show(outs), describe(e)))
            elif r not in outs:
                raise Violation('lookup-wrong', '%s: %r: expected one of %s, got %s' % (what, o['text'], show(outs), show(r)))
            return

        def regs(ids):
            return [(i, rset(world, items[i]['rs'])) for i in ids if items[i]['kind'] == 'template' and items[i]['k'] == o['k']]

        t = box.get('t')
        if t is None:
            if o['op'] == 'missing':
                if e is not None:
                    raise Violation('request-error', '%s: %s' % (what, describe(e)))
                if all(M.eligible(regs(ids), request) for ids in chain):
                    raise Violation('not-served', '%s: no template although an eligible one was accepted' % what)
                return
            if world.is_error(e, 'UnknownLexiconKeyError'):
                if all(regs(ids) for ids in chain):
                    raise Violation('not-served', '%s: key is unknown although a template was accepted' % what)
            elif world.is_error(e, 'NoTemplatesWithSpecifiedRestrictions'):
                # the key may be seen by one step and the list by another
                if all(M.eligible(regs(ids), request) for ids in chain) or not any(regs(ids) for ids in chain):
                    raise Violation('not-served', '%s: %s' % (what, describe(e)))
            else:
                raise Violation('request-error', '%s: %s' % (what, describe(e)))
            return
        tid = [i for i, obj in st.objects.items() if obj is t]
        if not tid:
            raise Violation('foreign', '%s: the chosen template was never accepted by this node' % what)
        tid = tid[0]
        ok = set()
        for ids in chain:
            ok.update(M.nearest(regs(ids), request) if o['op'] == 'nearest' else M.eligible(regs(ids), request))
        if tid not in ok:
            raise Violation('not-eligible', '%s: served template %d, possible are %s' % (what, tid, sorted(ok)))
        parts = meaning[tid][1]
        dicts = [model_dictionary(ids) for ids in chain]
        if o['op'] == 'missing':
            if e is not None:
                raise Violation('request-error', '%s: %s' % (what, describe(e)))
            sure = M.undictionaried(parts, case['ext'], dicts[-1])
            may = M.undictionaried(parts, case['ext'], dicts[0])
            if not (set(sure) <= set(r) <= set(may)):
                raise Violation('missing-wrong', '%s: missing words of %s: %s, expected between %s and %s' % (what, show(parts), show(r), show(sure), show(may)))
            return
        self.text(what, parts, dicts, m_ext, r, e)

    def text(self, what, parts, dicts, m_ext, r, e):
        outs, errors = {''}, set()
        for p in parts:
            if isinstance(p, str):
                choices = {p}
            else:
                choices = set()
                for d in dicts:
                    try:
                        choices.add(M.render_sub(p, m_ext, d))
                    except M.ModelError as err:
                        errors.add(err.kind)
            outs = {a + b for a in outs for b in choices}
        if e is not None:
            if not any(self.world.is_error(e, k) for k in errors):
                raise Violation('text-error', '%s: expected %s or %s, failed with %s' % (what, show(sorted(outs)), sorted(errors), describe(e)))
        elif r not in outs:
            raise Violation('text-wrong', '%s: expected %s or %s, got %s' % (what, show(sorted(outs)), sorted(errors), show(r)))

    def final(self, sim, world, case, nodes, good, meaning, names, ext, m_ext, model_dictionary, when, same_order):
        """identical requests, identical answers, those of the model"""
        items = case['items']
        d = model_dictionary(good)
        spellings = sorted(d.data)
        spellings = spellings[::max(1, len(spellings) // 30)] + ['нетслова']
        for t in spellings:
            for n in nodes:
                try:
                    got = world.form_of(n.state.dictionary.get_word(t))
                except world.exceptions.NoWordsFoundError:
                    got = None
                want = d.data[t][1] if t in d.data else None
                if got != want:
                    raise Violation('diverged', '%s node %d answers %r with %s, expected %s' % (when, n.i, t, show(got), show(want)))
        for i in good:
            if meaning[i][0] != 'template':
                continue
            for n in nodes:
                try:
                    r, e = n.state.objects[i].substitute(ext, n.state.dictionary), None
                except Exception as err:
                    r, e = None, err
                self.text('%s template %d at node %d' % (when, i, n.i), meaning[i][1], [d], m_ext, r, e)
        for k in range(3):
            regs = [(i, rset(world, items[i]['rs'])) for i in good if items[i]['kind'] == 'template' and items[i]['k'] == k]
            for q in ((), (0, 1), (0, 1, 2, 3, 4)):
                request = rset(world, q)
                want = sorted(M.eligible(regs, request))
                near = sorted(M.nearest(regs, request))
                picks = {}
                for n in nodes:
                    ids = {id(o): i for i, o in n.state.objects.items()}
                    lex = n.state.lexicon
                    got = [ids.get(id(x)) for x in lex.get_templates(key_of(world, k), request)]
                    if None in got or sorted(got) != want:
                        raise Violation('diverged', '%s node %d lists templates %s, expected %s' % (when, n.i, got, want))
                    if same_order and got != want:
                        raise Violation('order', '%s node %d lists templates in order %s, registered as %s' % (when, n.i, got, want))
                    if lex.has_key(key_of(world, k)) != bool(regs):
                        raise Violation('diverged', '%s node %d: key %d known: %s' % (when, n.i, k, not regs))
                    if not want:
                        continue
                    row = []
                    for s in range(4):
                        random.seed(s)
                        a = ids.get(id(lex.get_random_template(key_of(world, k), request)))
                        b = ids.get(id(lex.get_random_nearest_template(key_of(world, k), request)))
                        if a not in want or b not in near:
                            raise Violation('not-eligible', '%s node %d picks %s and %s, possible %s and %s' % (when, n.i, a, b, want, near))
                        row.append((a, b))
                    picks[n.i] = row
                if same_order and len({tuple(p) for p in picks.values()}) > 1:
                    raise Violation('diverged', '%s picks with the same random state differ: %s' % (when, picks))


SCENARIO = C16()
