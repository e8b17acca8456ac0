"""C12: damaged or foreign stored records are rejected or safely reduced."""
import itertools
import json

from .base import Scenario, number_ops
from .. import damage as D
from .. import gen as G
from .. import model as M
from ..core import Op, Violation
from ..world import World, expected, judge, show, describe


def plain_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def props_outcome(rec):
    """-> ('ok', props) when the outcome is prescribed, ('any', None) otherwise"""
    if not isinstance(rec, dict):
        return ('any', None)
    out = {}
    for k, v in rec.items():
        if isinstance(v, (list, dict, bool, float)):
            return ('any', None)
        try:
            code = int(k)
        except ValueError:
            return ('any', None)
        if str(code) != k:
            return ('any', None)
        hit = M.BY_CODE.get((code, v)) if plain_int(v) else None
        if hit:
            out[hit[0]] = hit[1]
    return ('ok', out)


def word_outcome(rec):
    """-> ('ok', word) | ('reject', why) | ('any', None)"""
    if not isinstance(rec, dict):
        return ('any', None)
    lacks = {'type', 'forms', 'properties'} - set(rec)
    if lacks:
        return ('reject', 'without %s' % sorted(lacks))
    t, forms = rec['type'], rec['forms']
    if isinstance(t, (bool, float)):
        return ('any', None)
    if not plain_int(t) or t not in M.TYPE_BY_CODE:
        return ('reject', 'unknown part of speech %r' % (t,))
    if not isinstance(forms, list):
        return ('any', None)
    name = M.TYPE_BY_CODE[t]
    if len(forms) != M.SIZE[name]:
        return ('reject', '%d forms of %s instead of %d' % (len(forms), name, M.SIZE[name]))
    p = props_outcome(rec['properties'])
    if p[0] != 'ok' or not all(isinstance(f, str) for f in forms):
        return ('any', None)
    return ('ok', {'type': name, 'forms': forms, 'props': p[1]})


class C12(Scenario):
    id = 'C12'
    title = 'damaged records'
    fault_share = 0.45
    quick_runs = 12000
    thorough_runs = 250000
    rule = ('one case = 1-3 readers that restore words, property sets and templates from a store whose disk flips, cuts, tears, swaps and replaces bytes, serves '
            'stale and foreign records and records of other versions, next to objects in use; non-trivial = a decision (damage, preemption, fault) was '
            'taken; distinct by case and decisions')

    def gen(self, rng, tier):
        names = ['герой', 'n'][:rng.randint(1, 2)]
        ext = {n: G.external(rng, 'ё') for n in names}
        words = [G.word(rng, tag='абв'[k]) for k in range(rng.randint(2, 3))]
        words = [G.holes(rng, w) if rng.random() < 0.1 else w for w in words]
        texts = G.usable_texts([w for w in words if all(w['forms'])])[:60] or ['нет']
        templates = []
        while len(templates) < 2:
            t = G.template_text(rng, names, texts, lo=1, hi=3, bad=0)
            try:
                M.parse(t, names)
                templates.append(t)
            except M.ModelError:
                pass
        sets = [G.prop_set(rng, 1, 4) for _ in range(2)]
        threads = []
        many = rng.random() < 0.02
        for _ in range(rng.randint(1, 3)):
            ops = []
            for _o in range(rng.randint(30, 90) if many else rng.randint(2, 9)):
                kind = rng.choices(['word', 'props', 'template', 'use'], [8, 3, 3, 2])[0]
                op = {'op': kind, 'i': rng.randrange(2), 'n': rng.randrange(1 << 16), 'share': rng.choice([0.5, 0.9]), 'retry': rng.random() < 0.8}
                if kind == 'word':
                    op['i'] = rng.randrange(len(words))
                ops.append(op)
            threads.append(ops)
        return {'names': names, 'ext': ext, 'words': words, 'templates': templates, 'sets': sets, 'phases': number_ops([threads])}

    def run(self, sim, case):
        world = World()
        names = case['names']
        ext = {n: world.external(e) for n, e in case['ext'].items()}
        m_ext = {n: G.model_external(e) for n, e in case['ext'].items()}
        classes = {'word': world.words.Word, 'props': world.words.Properties, 'template': world.templates.Template}
        full = [w for w in case['words'] if all(w['forms'])]
        live_words = [world.word(w) for w in case['words']]
        live_sets = [world.props(p) for p in case['sets']]
        live_templates = [world.template(t, names) for t in case['templates']]
        dictionary = world.dictionary.Dictionary(words=[o for o, w in zip(live_words, case['words']) if all(w['forms'])])
        m_dictionary = M.Dictionary(full)
        wants = [expected(lambda: M.render(M.parse(t, names), m_ext, m_dictionary)) for t in case['templates']]
        records = {'word': [M.word_record(w) for w in case['words']],
                   'props': [{str(k): v for k, v in M.props_record(p).items()} for p in case['sets']],
                   'template': [M.template_record(t, names) for t in case['templates']]}
        store = {(k, i): json.dumps(r, ensure_ascii=False).encode('utf-8') for k, rs in records.items() for i, r in enumerate(rs)}
        everything = sorted(store)

        def undisturbed(what, sample):
            for i, w in enumerate(case['words']):
                if live_words[i].serialize() != {'type': M.TYPES[w['type']]['code'], 'forms': w['forms'], 'properties': M.props_record(w['props'])}:
                    raise Violation('disturbed', '%s changed a word in use to %s' % (what, show(live_words[i].serialize())))
            for p, o in zip(case['sets'], live_sets):
                if world.props_of(o) != p:
                    raise Violation('disturbed', '%s changed a property set in use to %s' % (what, show(world.props_of(o))))
            i = sample % len(live_templates)
            try:
                r, e = live_templates[i].substitute(ext, dictionary), None
            except Exception as err:
                r, e = None, err
            judge(world, 'disturbed', '%s; template %r in use' % (what, case['templates'][i]), wants[i], r, e)

        def own_forms(obj, rec, n):
            """whatever was restored answers from its own stored forms"""
            name = world.type_names.get(id(obj.type))
            if name is None:
                raise Violation('half-word', 'a damaged record gave a word of no part of speech: %s' % show(rec))
            if len(obj.forms) != M.SIZE[name]:
                raise Violation('half-word', 'a damaged record gave a %s with %d forms: %s' % (name, len(obj.forms), show(rec)))
            if isinstance(rec, dict) and isinstance(rec.get('forms'), list) and list(obj.forms) != rec['forms']:
                raise Violation('foreign-form', 'a damaged record gave a word with forms %s instead of %s' % (show(obj.forms), show(rec['forms'])))
            own = world.props_of(obj.properties)
            schema = M.SCHEMA[name]
            for k in range(6):
                p = {g: M.VALUES[g][(n >> (k + j)) % len(M.VALUES[g])] for j, g in enumerate(schema) if (n + k * 3 + j) % 3}
                want = obj.forms[M.form_index(name, M.merge(p, own))]
                try:
                    got = obj.form(world.props(p))
                except Exception as e:
                    raise Violation('half-word', 'a word restored from a damaged record cannot give form %s: %s; %s' % (show(p), describe(e), show(rec)))
                if got != want:
                    raise Violation('foreign-form', 'form %s of a word restored from a damaged record is %r instead of %r: %s' % (show(p), got, want, show(rec)))

        def make(o):
            kind, i, n = o['op'], o['i'], o['n']
            if kind == 'use':
                t = live_templates[i]
                return Op(o['id'], 'use', lambda: t.substitute(ext, dictionary),
                          lambda r, e: judge(world, 'disturbed', 'template %r in use' % case['templates'][i], wants[i], r, e), est=900)
            # what the disk gives back
            src = (kind, i)
            roll = sim.decide('x:read:%s' % o['id'], lambda r: 'foreign' if r.random() < 0.12 else 'own', 'own')
            if roll == 'foreign':
                src = everything[n % len(everything)]
                sim.count('fault:foreign-record')
            dmg = sim.decide('x:disk:%s' % o['id'], lambda r: D.draw(r, o['share']), None)
            data = store[src]
            if dmg is not None:
                sim.count('fault:disk-' + dmg['kind'])
                data = D.apply(data, dmg, old=store[everything[(n >> 4) % len(everything)]])
            try:
                rec = json.loads(data.decode('utf-8'))
            except ValueError:
                rec = None
                sim.count('unreadable')
            cls = classes[kind]
            what = 'restoring a %s from %s' % (kind, show(rec))
            keep = json.dumps(rec, ensure_ascii=False)

            def fn():
                if rec is None:
                    return None
                return cls.deserialize(rec)

            def check(r, e):
                if rec is None:
                    return
                if e is not None and not isinstance(e, Exception):
                    raise Violation('not-an-error', '%s ended with %s' % (what, describe(e)))
                if json.dumps(rec, ensure_ascii=False) != keep:
                    raise Violation('record-changed', '%s changed the record to %s' % (what, show(rec)))
                if kind == 'word':
                    want = word_outcome(rec)
                    if want[0] == 'ok':
                        if e is not None:
                            raise Violation('reduced-error', '%s failed: %s' % (what, describe(e)))
                        if world.word_of(r) != want[1]:
                            raise Violation('reduced-wrong', '%s gave %s' % (what, show(world.word_of(r))))
                        if not (r == world.word(want[1])):
                            raise Violation('reduced-wrong', '%s gave a word that does not equal one made directly' % what)
                    elif want[0] == 'reject':
                        sim.count('must_reject')
                        if e is None:
                            raise Violation('accepted', '%s (%s) gave a word' % (what, want[1]))
                    if e is None:
                        own_forms(r, rec, n)
                elif kind == 'props':
                    want = props_outcome(rec)
                    if want[0] == 'ok':
                        if e is not None:
                            raise Violation('reduced-error', '%s failed: %s' % (what, describe(e)))
                        if world.props_of(r) != want[1]:
                            raise Violation('reduced-wrong', '%s gave %s' % (what, show(world.props_of(r))))
                else:
                    self.template(world, rec, r, e, what)
                undisturbed(what, n)
            return Op(o['id'], kind, fn, check, est=250, retry=o['retry'])

        sim.run([[make(o) for o in th] for th in case['phases'][0]])
        for i, w in enumerate(case['words']):
            obj = world.words.Word.deserialize(json.loads(store[('word', i)]))
            if world.word_of(obj) != {'type': w['type'], 'forms': w['forms'], 'props': w['props']}:
                raise Violation('later-restore', 'an undamaged record read after damaged ones gives %s' % show(world.word_of(obj)))
        for i in range(len(live_templates)):
            undisturbed('at the end', i)

    @staticmethod
    def template(world, rec, r, e, what):
        """property kinds and values nobody knows are dropped from dependencies, all else stays"""
        if not isinstance(rec, dict) or not isinstance(rec.get('template'), str) or not isinstance(rec.get('substitutions'), list):
            if isinstance(rec, dict) and not {'template', 'substitutions'} <= set(rec) and e is None:
                raise Violation('accepted', '%s, which lacks a part, gave a template' % what)
            return
        subs = []
        for s in rec['substitutions']:
            if isinstance(s, dict) and not {'id', 'dependencies'} <= set(s):
                if e is None:
                    raise Violation('accepted', '%s, a variable of which lacks a part, gave a template' % what)
                return
            if not isinstance(s, dict) or not isinstance(s.get('id'), str) or not isinstance(s.get('dependencies'), list):
                return
            deps = []
            for d in s['dependencies']:
                if isinstance(d, str):
                    deps.append(d)
                    continue
                p = props_outcome(d)
                if p[0] != 'ok':
                    return
                deps.append({str(k): v for k, v in M.props_record(p[1]).items()})
            subs.append({'id': s['id'], 'dependencies': deps})
        if e is not None:
            raise Violation('reduced-error', '%s failed: %s' % (what, describe(e)))
        got = json.loads(json.dumps(r.serialize()))
        if got != {'template': rec['template'], 'substitutions': subs}:
            raise Violation('reduced-wrong', '%s gave a template with record %s' % (what, show(got)))


SCENARIO = C12()
