"""C09: filling in missing forms."""
from .base import Scenario, number_ops
from .. import gen as G
from .. import model as M
from ..core import Op, Violation
from ..world import World, expected, judge, show, describe


class C09(Scenario):
    id = 'C09'
    title = 'filling in'
    fault_share = 0.6
    quick_runs = 4000
    thorough_runs = 80000
    rule = ('one case = 1-3 words with random missing forms, filled in by 1-3 threads (interrupted, repeated, concurrently) while others take snapshots '
            'and ask for forms; non-trivial = a decision was taken; distinct by case and decisions')

    def gen(self, rng, tier):
        words = []
        for _ in range(rng.randint(1, 3)):
            t = rng.choices(['NOUN', 'ADJECTIVE', 'PRONOUN', 'VERB', 'PARTICIPLE', 'PREPOSITION', 'TEXT'], [8, 2, 4, 5, 1, 3, 1])[0]
            w = G.word(rng, type=t, tag='абв'[len(words)])
            if rng.random() < 0.25:
                # several forms spelled alike
                some = rng.sample(w['forms'], min(len(w['forms']), rng.randint(1, 4)))
                w['forms'] = [rng.choice(some) for _f in w['forms']]
            if rng.random() < 0.12:
                # forms which are given, though not much of a text
                for k in rng.sample(range(len(w['forms'])), min(len(w['forms']), rng.randint(1, 4))):
                    w['forms'][k] = rng.choice([' ', '-', '—', '0', '\t', 'None', '\u200b', '?'])
            roll = rng.random()
            if roll < 0.08:
                w['forms'] = [''] * len(w['forms'])
            elif roll > 0.16:
                w = G.holes(rng, w)
            words.append(w)
        phases = []
        for _ in range(rng.choice([1, 1, 2])):
            threads = []
            for _t in range(rng.randint(1, 4)):
                ops = []
                for _o in range(rng.randint(1, 3)):
                    i = rng.randrange(len(words))
                    roll = rng.random()
                    if rng.random() < 0.08:
                        ops.append({'op': 'passing', 'w': i, 'words': [self.passing(rng, words[i]) for _ in range(rng.randint(1, 3))],
                                    'times': 1 if rng.random() < 0.85 else rng.choice([8, 30])})
                    if roll < 0.5:
                        ops.append({'op': 'fill', 'w': i, 'retry': rng.random() < 0.7})
                    elif roll < 0.56:
                        ops.append({'op': 'fact', 'w': i, 'name': rng.choice(['number_of_syllables', 'has_fluent_vowel'])})
                    elif roll < 0.75:
                        ops.append({'op': rng.choice(['record', 'list']), 'w': i})
                    else:
                        ops.append({'op': 'form', 'w': i, 'p': G.merge_sets(G.schema_props(rng, words[i]['type']), G.prop_set(rng, 0, 1))})
                threads.append(ops)
            phases.append(threads)
        return {'words': words, 'phases': number_ops(phases)}

    @staticmethod
    def passing(rng, like):
        """a word somebody makes, fills in and drops: of the kind of one in use, with other gaps or other forms, or another small one"""
        given = [k for k, f in enumerate(like['forms']) if f]
        gaps = [k for k, f in enumerate(like['forms']) if not f]
        if rng.random() < 0.35 and len(given) > 1 and gaps and M.SIZE[like['type']] < 40:
            # as many gaps, one of them at another place
            w = {'type': like['type'], 'forms': list(like['forms']), 'props': dict(like['props'])}
            i, j = rng.choice(given[1:]), rng.choice(gaps)
            w['forms'][j], w['forms'][i] = w['forms'][i], ''
            return w
        if rng.random() < 0.5 and M.SIZE[like['type']] < 40:
            w = {'type': like['type'], 'forms': [f or 'зз' + str(k) for k, f in enumerate(like['forms'])], 'props': dict(like['props'])}
            if rng.random() < 0.3:
                w['forms'] = ['щ' + f for f in w['forms']]
        else:
            w = G.word(rng, type=rng.choice(['NOUN', 'NOUN', 'PRONOUN', 'PREPOSITION', 'TEXT']), tag='э')
        return G.holes(rng, w)

    def run(self, sim, case):
        world = World()
        words = [world.word(w) for w in case['words']]
        before = [list(w['forms']) for w in case['words']]
        after = [M.autofill(w['type'], w['forms']) for w in case['words']]
        fills = []          # (word, op)
        lists = [w.forms for w in words]

        def state(i, op):
            """forms an observer may see during op"""
            done = any(w == i and f.end is not None and f.end < op.start and not f.on_fault.gave_up for w, f in fills)
            begun = any(w == i and f.start is not None for w, f in fills)
            return [after[i]] if done else [before[i], after[i]] if begun else [before[i]]

        def make(o):
            i = o['w']
            w = words[i]
            if o['op'] == 'fill':
                def fault(e):
                    # between attempts the word must be whole
                    got = list(w.forms)
                    if got != before[i] and got != after[i]:
                        raise Violation('half-filled', 'an interrupted filling left %s' % show(self.diff(before[i], after[i], got)))
                    fault.gave_up = not o['retry']
                fault.gave_up = False

                class F:
                    pass

                def check(r, e):
                    if e is not None:
                        raise Violation('fill-error', 'filling failed: %s' % describe(e))
                    if list(w.forms) != after[i]:
                        raise Violation('fill-wrong', 'word with forms %s: %s' % (show(before[i]), show(self.diff(before[i], after[i], list(w.forms)))))
                op = Op(o['id'], 'fill', lambda: w.autofill_missed_forms(), check, est=1500 + 60 * sum(1 for x in before[i] if not x) * max(1, sum(1 for x in before[i] if x)),
                        retry=o['retry'], on_fault=fault)
                fills.append((i, op))
                return op
            if o['op'] in ('record', 'list'):
                fn = (lambda: w.serialize()['forms']) if o['op'] == 'record' else (lambda: list(w.forms))
                op = Op(o['id'], o['op'], fn, None, est=60)

                def check(r, e):
                    if e is not None:
                        raise Violation('read-error', 'saving a word failed: %s' % describe(e))
                    if list(r) not in state(i, op):
                        raise Violation('half-filled', 'an observer saw %s' % show(self.diff(before[i], after[i], list(r))))
                op.check = check
                return op
            if o['op'] == 'fact':
                fact = {'number_of_syllables': M.syllables, 'has_fluent_vowel': M.fluent}[o['name']]
                ok = [fact(before[i]), fact(after[i])]

                def check(r, e):
                    if e is not None:
                        raise Violation('read-error', 'asking for %s failed: %s' % (o['name'], describe(e)))
                    if r not in ok:
                        raise Violation('fact-wrong', '%s is %r, possible are %s' % (o['name'], r, show(ok)))
                return Op(o['id'], 'fact', lambda: getattr(w, o['name']), check, est=120)
            if o['op'] == 'passing':
                wants = [M.autofill(x['type'], x['forms']) for x in o['words']]

                def passing():
                    out = []
                    for n in range(o['times']):
                        for x in o['words']:
                            y = world.word(x)
                            y.autofill_missed_forms()
                            out.append(list(y.forms))
                    return out

                def check(r, e):
                    if e is not None:
                        raise Violation('fill-error', 'filling a passing word failed: %s' % describe(e))
                    for n, got in enumerate(r):
                        k = n % len(wants)
                        if got != wants[k]:
                            raise Violation('fill-wrong', 'passing word with forms %s: %s' % (show(o['words'][k]['forms']), show(self.diff(o['words'][k]['forms'], wants[k], got))))
                return Op(o['id'], 'passing', passing, check, est=8000 * len(wants) * o['times'])
            p = world.props(o['p'])
            op = Op(o['id'], 'form', lambda: w.form(p), None, est=120)

            def check(r, e):
                if e is not None:
                    raise Violation('read-error', 'asking for a form failed: %s' % describe(e))
                ok = [M.word_form_text(dict(case['words'][i], forms=f), o['p']) for f in state(i, op)]
                if r not in ok:
                    raise Violation('form-wrong', 'form %s is %r, possible are %s' % (show(o['p']), r, show(ok)))
            op.check = check
            return op

        threads = [[[make(o) for o in th] for th in ph] for ph in case['phases']]
        for ph in threads:
            sim.run(ph)
        for i, w in enumerate(words):
            w.autofill_missed_forms()
            if list(w.forms) != after[i]:
                raise Violation('fill-wrong', 'after a last undisturbed filling: %s' % show(self.diff(before[i], after[i], list(w.forms))))
            if world.props_of(w.properties) != case['words'][i]['props']:
                raise Violation('fill-props', 'filling changed the properties of a word')

    @staticmethod
    def diff(before, after, got):
        if len(got) != len(before):
            return 'a word with %d forms instead of %d' % (len(got), len(before))
        return [(i, 'given %r, should be %r, is %r' % (b, a, g)) for i, (b, a, g) in enumerate(zip(before, after, got)) if g != a][:5]


SCENARIO = C09()
