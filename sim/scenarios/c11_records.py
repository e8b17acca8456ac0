"""C11: saved words and templates survive restarts, detached from live objects."""
import json

from .base import Scenario, number_ops
from .. import gen as G
from .. import model as M
from ..core import Op, Violation, SimCrash
from ..successor import Successor
from ..world import World, expected, judge, show, describe


def plain(rec):
    return json.loads(json.dumps(rec, ensure_ascii=False))


class C11(Scenario):
    id = 'C11'
    title = 'records'
    fault_kinds = ('interrupt', 'timeout', 'memory', 'crash', 'crash')
    fault_share = 0.6
    quick_runs = 6000
    thorough_runs = 150000
    rule = ('one case = 1-3 nodes, each with 1-4 words, property sets and templates, that save, store, change, restore (from the store and from live records), '
            'scribble on records and render, with interruptions and crashes that leave only the store; non-trivial = a decision was taken; distinct by case '
            'and decisions')

    def gen(self, rng, tier):
        names = ['герой', 'n'][:rng.randint(1, 2)]
        if rng.random() < 0.1:
            names[-1] = rng.choice(['рд', 'мн', 'ед', 'прш', 'но'])
        ext = {n: G.external(rng, 'ё') for n in names}
        nodes, threads = [], []
        for n in range(rng.choice([1, 1, 2, 3])):
            items, texts = [], []
            for k in range(rng.randint(1, 3)):
                w = G.word(rng, tag='абв'[k])
                texts += G.usable_texts([w])
                if rng.random() < 0.35:
                    w = G.holes(rng, w)
                items.append({'kind': 'word', 'word': w})
            for k in range(rng.choice([0, 0, 1])):
                items.append({'kind': 'props', 'props': G.prop_set(rng, 0, 4)})
            for k in range(rng.randint(0, 2)):
                items.append({'kind': 'template', 'text': self.good_text(rng, names, texts)})
            rng.shuffle(items)
            ops = []
            for _ in range(rng.randint(3, 10)):
                i = rng.randrange(len(items))
                kind = rng.choices(['save', 'put', 'restore', 'twins', 'change', 'scribble', 'render', 'crash', 'forms'], [6, 5, 5, 4, 4, 4, 3, 1, 2])[0]
                op = {'op': kind, 'i': i, 'n': rng.randrange(1 << 16), 'retry': rng.random() < 0.85}
                if kind == 'save' and rng.random() < 0.5:
                    ops.append(op)
                    op = dict(op, op='put')
                if kind == 'change' and items[i]['kind'] == 'template':
                    op['text'] = self.text(rng, names, texts)
                ops.append(op)
            nodes.append(items)
            threads.append(ops)
        return {'names': names, 'ext': ext, 'nodes': nodes, 'phases': number_ops([threads])}

    def text(self, rng, names, texts):
        return G.template_text(rng, names, [t for t in texts[:40]] or ['нет'], lo=0, hi=3, bad=0.02)

    def good_text(self, rng, names, texts):
        while True:
            t = self.text(rng, names, texts)
            try:
                M.parse(t, names)
                return t
            except M.ModelError:
                pass

    def run(self, sim, case):
        successor = Successor(lambda job: self.succeed(case, job))
        world = World()
        names = case['names']
        ext = {n: world.external(e) for n, e in case['ext'].items()}
        m_ext = {n: G.model_external(e) for n, e in case['ext'].items()}
        Word, Properties, Template = world.words.Word, world.words.Properties, world.templates.Template
        classes = {'word': Word, 'props': Properties, 'template': Template}

        def parse(text):
            return M.parse(text, names)

        # model value of an item: word dict, props dict, template text
        def build(kind, value):
            if kind == 'word':
                return world.word(value)
            if kind == 'props':
                return world.props(value)
            return world.template(value, names)

        def record(kind, value):
            if kind == 'word':
                return M.word_record(value)
            if kind == 'props':
                return {str(k): v for k, v in M.props_record(value).items()}
            return M.template_record(value, names)

        def look(kind, obj, value, what):
            """the object must be what the model says"""
            try:
                rec = plain(obj.serialize())
            except Exception as e:
                raise Violation('record-error', '%s: saving failed: %s' % (what, describe(e)))
            want = record(kind, value)
            if rec != want:
                raise Violation('state-wrong', '%s: record is %s, should be %s' % (what, show(rec), show(want)))
            if kind == 'word' and world.word_of(obj) != {'type': value['type'], 'forms': value['forms'], 'props': value['props']}:
                raise Violation('state-wrong', '%s: word is %s, should be %s' % (what, show(world.word_of(obj)), show(value)))
            if kind == 'props':
                for g in M.GROUPS:
                    rel = getattr(world.r, g)
                    if obj.is_specified(rel) != (g in value) or (g in value and obj.get(rel) is not world.rec(g, value[g])):
                        raise Violation('state-wrong', '%s: property %s is %s' % (what, g, show(rec)))

        class Node:
            def __init__(self, items):
                self.items = items
                self.store = {}            # i -> (bytes, model value)
                self.live = [build(x['kind'], self.initial(x)) for x in items]
                self.value = [self.initial(x) for x in items]
                self.held = {}             # i -> [(record object, expected plain record, model value)]
                self.copies = []           # (kind, object, model value)

            @staticmethod
            def initial(x):
                return {'word': lambda: dict(x['word']), 'props': lambda: dict(x['props']), 'template': lambda: x['text']}[x['kind']]()

            def verify(self, what):
                for i, x in enumerate(self.items):
                    look(x['kind'], self.live[i], self.value[i], what + '; live %s %d' % (x['kind'], i))
                for kind, obj, value in self.copies:
                    look(kind, obj, value, what + '; restored %s' % kind)
                for i, recs in self.held.items():
                    for rec, want, _ in recs:
                        if plain(rec) != want:
                            raise Violation('record-changed', '%s; a record taken earlier is now %s, was %s' % (what, show(plain(rec)), show(want)))

            def restart(self):
                sim.count('restart')
                self.held = {}
                self.copies = []
                for i, x in enumerate(self.items):
                    if i in self.store:
                        data, value = self.store[i]
                        try:
                            self.live[i] = classes[x['kind']].deserialize(json.loads(data))
                        except Exception as e:
                            raise Violation('restore-error', 'restoring %s failed: %s' % (show(data), describe(e)))
                        self.value[i] = value
                    else:
                        self.value[i] = self.initial(x)
                        self.live[i] = build(x['kind'], self.value[i])
                self.verify('after a restart')

        nodes = [Node(items) for items in case['nodes']]

        def make(node, o):
            i = o['i']
            x = node.items[i]
            kind, n = x['kind'], o['n']
            what = '%s %s %d' % (o['op'], kind, i)
            cls = classes[kind]

            def on_fault(e):
                if isinstance(e, SimCrash):
                    node.restart()

            def op(fn, check, est=200, **kw):
                def judged(r, e):
                    check(r, e)
                    node.verify('after ' + what)
                return Op(o['id'], o['op'], fn, judged, est=est, retry=o['retry'], on_fault=on_fault, **kw)

            if o['op'] == 'save':
                def saved(r, e):
                    if e is not None:
                        raise Violation('record-error', '%s failed: %s' % (what, describe(e)))
                    want = record(kind, node.value[i])
                    if plain(r) != want:
                        raise Violation('record-wrong', '%s: %s, should be %s' % (what, show(plain(r)), show(want)))
                    node.held.setdefault(i, []).append((r, want, node.value[i]))
                return op(lambda: node.live[i].serialize(), saved)
            if o['op'] == 'put':
                def put(r, e):
                    if node.held.get(i):
                        rec, want, value = node.held[i][-1]
                        node.store[i] = (json.dumps(rec, ensure_ascii=bool(n % 2), sort_keys=bool(n % 3)), value)
                        sim.count('stored')
                return op(lambda: None, put, faultable=False)
            if o['op'] == 'crash':
                return op(lambda: None, lambda r, e: node.restart(), faultable=False)
            if o['op'] == 'restore':
                keys = sorted((k, j) for k, nd in enumerate(nodes) for j in range(len(nd.items)))

                def source():
                    have = [(k, j) for k, j in keys if j in nodes[k].store]
                    return have[n % len(have)] if have else None
                box = {}

                def restore():
                    box.clear()
                    s = box['src'] = source()
                    if s is None:
                        return None
                    data, value = nodes[s[0]].store[s[1]]
                    box['value'], box['kind'] = value, nodes[s[0]].items[s[1]]['kind']
                    return classes[box['kind']].deserialize(json.loads(data))

                def restored(r, e):
                    if e is not None:
                        raise Violation('restore-error', 'restoring a stored record failed: %s' % describe(e))
                    if r is not None:
                        self.equal(box['kind'], r, build(box['kind'], box['value']), 'restored object')
                        node.copies.append((box['kind'], r, box['value']))
                return op(restore, restored)
            if o['op'] == 'twins':
                box = {}

                def twins():
                    box.clear()
                    if not node.held.get(i):
                        return None
                    rec, want, value = node.held[i][-1]
                    box['value'] = value
                    return (cls.deserialize(rec), cls.deserialize(rec))

                def got(r, e):
                    if e is not None:
                        raise Violation('restore-error', 'restoring a record failed: %s' % describe(e))
                    if r is None:
                        return
                    a, b = r
                    self.equal(kind, a, b, 'two objects restored from one record')
                    value = box['value']
                    if kind == 'word' and n % 4:
                        value = dict(value, forms=list(value['forms']))
                        if n % 4 == 1:
                            a.autofill_missed_forms()
                            value['forms'] = M.autofill(value['type'], value['forms'])
                        else:
                            k = n % len(value['forms'])
                            a.forms[k] = value['forms'][k] = 'иначе'
                    if kind == 'template' and n % 4 == 1:
                        a.parse('другое %', externals=names)
                        value = 'другое %'
                    node.copies.append((kind, a, value))
                    node.copies.append((kind, b, box['value']))
                return op(twins, got, est=400)
            if o['op'] == 'change':
                if kind == 'word':
                    if n % 3:
                        def filled(r, e):
                            if e is not None:
                                raise Violation('fill-error', 'filling failed: %s' % describe(e))
                            v = node.value[i]
                            node.value[i] = dict(v, forms=M.autofill(v['type'], v['forms']))
                        return op(lambda: node.live[i].autofill_missed_forms(), filled, est=4000, faultable=False)

                    def altered(r, e):
                        v = node.value[i]
                        k = n % len(v['forms'])
                        node.value[i] = dict(v, forms=v['forms'][:k] + ['другая'] + v['forms'][k + 1:])
                        node.live[i].forms[k] = 'другая'
                    return op(lambda: None, altered, faultable=False)
                if kind == 'template':
                    text = o['text']

                    def parsed(r, e):
                        want = expected(lambda: parse(text))
                        if want[0] == 'ok':
                            if e is not None:
                                raise Violation('parse-error', 'parsing %r failed: %s' % (text, describe(e)))
                            node.value[i] = text
                        elif e is None:
                            raise Violation('parse-no-error', 'parsing %r succeeded' % text)
                    return op(lambda: node.live[i].parse(text, externals=names), parsed, est=400, faultable=False)
                return op(lambda: node.live[i].clone(world.rec('CASE', 'DATIVE')), lambda r, e: None)
            if o['op'] == 'scribble':
                def scribble(r, e):
                    if node.held.get(i):
                        rec, want, value = node.held[i].pop()
                        self.scribble(kind, rec, n)
                        sim.count('scribbled')
                return op(lambda: None, scribble, faultable=False)
            if o['op'] == 'forms':
                box = {}

                def forms():
                    box.clear()
                    pool = [(v, ob) for k, ob, v in node.copies if k == 'word'] + [(v, ob) for v, ob, y in zip(node.value, node.live, node.items) if y['kind'] == 'word']
                    if not pool:
                        return None
                    box['v'], ob = pool[n % len(pool)]
                    return [f.form for f in ob.all_forms()]

                def formed(r, e):
                    if r is not None or e is not None:
                        judge(world, 'form-text', 'forms of a restored word', expected(lambda: [M.form_text(f) for f in M.all_forms(box['v'])]), r, e)
                return op(forms, formed, est=3000)
            # render: a template and the words, originals or restored copies
            box = {}

            def render():
                box.clear()
                ts = [(v, ob) for k, ob, v in node.copies if k == 'template'] + [(v, ob) for v, ob, y in zip(node.value, node.live, node.items) if y['kind'] == 'template']
                ws = [(v, ob) for k, ob, v in node.copies if k == 'word'] + [(v, ob) for v, ob, y in zip(node.value, node.live, node.items) if y['kind'] == 'word']
                if not ts:
                    return None
                text, t = ts[n % len(ts)]
                ws = [w for w in ws if all(w[0]['forms'])]
                box['want'] = expected(lambda: M.render(parse(text), m_ext, M.Dictionary([v for v, _ in ws])))
                box['text'] = text
                d = world.dictionary.Dictionary(words=[ob for _, ob in ws])
                return t.substitute(ext, d)

            def rendered(r, e):
                if 'want' in box:
                    judge(world, 'render', 'template of %r' % box['text'], box['want'], r, e)
            return op(render, rendered, est=8000)

        for nd, th in zip(nodes, case['phases'][0]):
            nd.verify('at the start')
        sim.run([[make(nd, o) for o in th] for nd, th in zip(nodes, case['phases'][0])])
        for nd in nodes:
            nd.verify('at the end')
            nd.restart()
        stored = [[nd.items[i]['kind'], nd.store[i][0], nd.store[i][1]] for nd in nodes for i in sorted(nd.store)]
        if stored:
            successor.ask(stored)
            sim.count('records_read_by_another_process', len(stored))

    def succeed(self, case, stored):
        """in a process that has not made any object yet"""
        world = World()
        names = case['names']
        classes = {'word': world.words.Word, 'props': world.words.Properties, 'template': world.templates.Template}
        restored = []
        for kind, data, value in stored:
            try:
                restored.append(classes[kind].deserialize(json.loads(data)))
            except Exception as e:
                raise Violation('restore-error', 'another process cannot restore %s: %s' % (show(data), describe(e)))
        words = [(value, obj) for (kind, data, value), obj in zip(stored, restored) if kind == 'word']
        for value, w in words:
            judge(world, 'form-text', 'forms of a word restored by another process', expected(lambda: [M.form_text(f) for f in M.all_forms(value)]),
                  [f.form for f in w.all_forms()], None)
        complete = [(v, w) for v, w in words if all(v['forms'])]
        d = world.dictionary.Dictionary(words=[w for _, w in complete])
        m_d = M.Dictionary([v for v, _ in complete])
        ext = {n: world.external(e) for n, e in case['ext'].items()}
        m_ext = {n: G.model_external(e) for n, e in case['ext'].items()}
        for (kind, data, value), obj in zip(stored, restored):
            if kind == 'template':
                want = expected(lambda: M.render(M.parse(value, names), m_ext, m_d))
                result = error = None
                try:
                    result = obj.substitute(ext, d)
                except Exception as e:
                    error = e
                judge(world, 'render', 'template of %r restored by another process' % value, want, result, error)
            own = world.word(value) if kind == 'word' else world.props(value) if kind == 'props' else world.template(value, names)
            self.equal(kind, obj, own, 'object restored by another process')
            if plain(obj.serialize()) != json.loads(data):
                raise Violation('state-wrong', 'another process saves %s again as %s' % (show(data), show(plain(obj.serialize()))))

    @staticmethod
    def equal(kind, a, b, what):
        if not (a == b) or not (b == a) or (kind != 'template' and (a != b or hash(a) != hash(b))):
            raise Violation('restored-unequal', '%s: a %s does not equal the original' % (what, kind))

    @staticmethod
    def scribble(kind, rec, n):
        if kind == 'word':
            rec['forms'][n % len(rec['forms'])] = 'КАРАКУЛИ'
            if n % 3 == 0:
                rec['forms'].append('лишняя')
            if n % 5 == 0:
                del rec['forms'][:]
            rec['properties'][3] = 1
            if n % 2:
                rec['properties'].clear()
            rec['type'] = 9
        elif kind == 'props':
            if n % 2:
                rec.clear()
            else:
                rec[3] = 2
                rec['7'] = 0
        else:
            for s in rec['substitutions']:
                s['id'] = 'каракули'
                for d in s['dependencies']:
                    if isinstance(d, dict):
                        d.clear()
                if n % 2:
                    s['dependencies'].append('каракули')
                else:
                    del s['dependencies'][:]
            if n % 3 == 0:
                del rec['substitutions'][:]
            rec['template'] = 'каракули'


SCENARIO = C11()
