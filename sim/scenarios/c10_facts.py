"""C10: derived facts match the forms."""
from .base import Scenario, number_ops
from .. import gen as G
from .. import model as M
from ..core import Op, Violation, INJECTED
from ..world import World, expected, judge, show, describe


class C10(Scenario):
    id = 'C10'
    title = 'derived facts'
    fault_share = 0.55
    quick_runs = 5000
    thorough_runs = 120000
    rule = ('one case = 1-4 words (some incomplete, some alike) and their word forms; threads query facts concurrently and with interruptions, then fill in '
            'the words, then query again and render preposition phrases; non-trivial = a decision was taken; distinct by case and decisions')

    letters = 'абвгдеёжзийклмнопрстуфхцчшщъыьэюяАБВГДЕЁЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯёЁьЬйЙaeiouy-’ '

    def gen(self, rng, tier):
        words = []
        for _ in range(rng.randint(1, 4)):
            if words and rng.random() < 0.35:
                w = rng.choice(words)
                w = {'type': w['type'], 'forms': list(w['forms']), 'props': dict(w['props'])}
                if rng.random() < 0.7:
                    i = rng.randrange(len(w['forms']))
                    w['forms'][i] = rng.choice(['а', 'ст', 'е', 'вр']) + w['forms'][i]
                words.append(w)
                continue
            t = rng.choices(['NOUN', 'PRONOUN', 'VERB', 'ADJECTIVE', 'TEXT', 'PREPOSITION'], [10, 3, 2, 1, 4, 1])[0]
            w = G.word(rng, type=t, tag='абв'[len(words) % 3])
            if rng.random() < 0.2:
                # other letters, capital ones too
                for i in [0] + [rng.randrange(len(w['forms'])) for _ in range(rng.randint(0, 4))]:
                    f = w['forms'][i]
                    k = rng.randrange(len(f) + 1) if rng.random() < 0.6 else 0
                    w['forms'][i] = f[:k] + rng.choice(self.letters) + f[k + rng.randrange(2):]
            elif rng.random() < 0.05:
                w['forms'] = [rng.choice([str.upper, str.capitalize, str.title])(f) for f in w['forms']]
            if w['type'] == 'TEXT' and rng.random() < 0.8 or rng.random() < 0.05:
                # any letters at all
                w['forms'] = [''.join(rng.choice(self.letters) for _ in range(rng.randint(1, 5))) for _ in w['forms']]
                if rng.random() < 0.6:
                    consonants = 'бвгджзйклмнпрстфхцчшщъьБВГДЖЗЙКЛМНПРСТФХЦЧШЩЪЬ'
                    w['forms'] = [rng.choice(consonants) + rng.choice(consonants) + f for f in w['forms']]
            if rng.random() < 0.5:
                w = G.holes(rng, w)
            words.append(w)
        preps = rng.sample(G.PREPS, 2)

        def queries(lo, hi, late):
            threads = []
            for _t in range(rng.randint(1, 3)):
                ops = []
                for _o in range(rng.randint(lo, hi)):
                    kind = rng.choices(['syllables', 'fluent', 'text', 'cluster', 'phrase', 'texts'], [3, 3, 2, 3, 3, 1])[0]
                    i = rng.randrange(len(words))
                    ops.append({'op': kind, 'w': i, 'p': G.merge_sets(G.schema_props(rng, words[i]['type']), {'WORD_CASE': 'UPPER'} if rng.random() < 0.1 else {}), 'prep': rng.randrange(2), 'retry': rng.random() < 0.8,
                                'shared': rng.random() < 0.7})
                    if rng.random() < 0.12:
                        ops.append({'op': 'churn', 'w': i, 'words': [self.passing(rng, words[i]) for _ in range(rng.randint(1, 4))],
                                    'times': 1 if rng.random() < 0.9 else rng.choice([20, 60])})
                threads.append(ops)
            return threads
        phases = [queries(1, 5, False)]
        if rng.random() < 0.5:
            # queries while the same words are being filled in
            mixed = queries(1, 4, False)
            for th in mixed:
                th[:] = [o for o in th if o['op'] in ('syllables', 'fluent', 'text', 'cluster')]
                for o in th:
                    o['mixed'] = True
            mixed.append([{'op': 'fill', 'w': i, 'retry': rng.random() < 0.6, 'mixed': True}
                          for i in rng.sample(range(len(words)), rng.randint(1, len(words)))])
            phases = (phases if rng.random() < 0.6 else []) + [mixed, queries(1, 5, True)]
        elif rng.random() < 0.6:
            fills = [[] for _ in range(rng.randint(1, 2))]
            for i in range(len(words)):
                if rng.random() < 0.8:
                    rng.choice(fills).append({'op': 'fill', 'w': i, 'retry': True})
            phases.append(fills)
            phases.append(queries(1, 5, True))
        return {'words': words, 'preps': preps, 'phases': number_ops(phases)}

    def passing(self, rng, like):
        """a word somebody makes, asks about and drops: often of the same kind as one in use, sometimes with forms in common"""
        if rng.random() < 0.5:
            w = {'type': like['type'], 'forms': list(like['forms']), 'props': dict(like['props'])}
            for _ in range(rng.randint(1, 3)):
                i = rng.choice([0, rng.randrange(len(w['forms']))])
                w['forms'][i] = rng.choice(['а', 'ст', 'е', 'вр', 'ау']) + w['forms'][i]
            return w
        return G.word(rng, type=rng.choice(['NOUN', 'NOUN', 'PRONOUN', 'TEXT', 'PREPOSITION']), tag='э')

    def run(self, sim, case):
        world = World()
        words = [world.word(w) for w in case['words']]
        forms = [list(w['forms']) for w in case['words']]          # current, per model
        preps = [world.form(world.word({'type': 'PREPOSITION', 'forms': list(p), 'props': {}})) for p in case['preps']]
        m_preps = [M.make_form({'type': 'PREPOSITION', 'forms': list(p), 'props': {}}) for p in case['preps']]
        template = world.template('[p|w] [w]', ['p', 'w'])
        parts = M.parse('[p|w] [w]', ['p', 'w'])
        empty = world.dictionary.Dictionary()
        shared = {}

        def current(i):
            return dict(case['words'][i], forms=forms[i])

        def word_form(i, p, share):
            key = (i, repr(sorted(p.items())))
            if not share:
                return world.form(words[i], p)
            if key not in shared:
                shared[key] = world.form(words[i], p)
            return shared[key]

        def make(o):
            i, kind = o['w'], o['op']
            w = words[i]
            mw = current(i)
            if o.get('mixed'):
                return self.mixed(world, w, mw, o, word_form)
            if kind == 'fill':
                def check(r, e):
                    if e is not None:
                        raise Violation('fill-error', 'filling failed: %s' % describe(e))
                    forms[i] = M.autofill(mw['type'], mw['forms'])
                return Op(o['id'], 'fill', lambda: w.autofill_missed_forms(), check, est=4000)
            if kind == 'syllables':
                want = ('ok', M.syllables(mw['forms']))
                return Op(o['id'], kind, lambda: w.number_of_syllables, lambda r, e: judge(world, 'syllables', 'syllables of %r' % mw['forms'][0], want, r, e), est=180, retry=o['retry'])
            if kind == 'fluent':
                want = ('ok', M.fluent(mw['forms']))
                return Op(o['id'], kind, lambda: bool(w.has_fluent_vowel), lambda r, e: judge(world, 'fluent', 'fluent vowel of %s' % show(mw['forms']), want, r, e), est=500, retry=o['retry'])
            if kind == 'churn':
                return self.churn(world, template, parts, preps, m_preps, o)
            f = word_form(i, o['p'], o['shared'])
            mf = M.make_form(mw, o['p'])
            text = M.form_text(mf)
            if kind == 'text':
                want = ('ok', text)
                return Op(o['id'], 'text', lambda: f.form, lambda r, e: judge(world, 'form-text', 'form %s' % show(o['p']), want, r, e), est=150, retry=o['retry'])
            if kind == 'cluster':
                want = ('ok', M.cluster(text))
                return Op(o['id'], kind, lambda: bool(f.starts_with_consonant_cluster), lambda r, e: judge(world, 'cluster', 'initial cluster of %r' % text, want, r, e), est=180, retry=o['retry'])
            if kind == 'texts':
                want = ('ok', [M.form_text(x) for x in M.all_forms(mw)])
                return Op(o['id'], kind, lambda: [x.form for x in w.all_forms()], lambda r, e: judge(world, 'form-text', 'all forms', want, r, e), est=3000, retry=o['retry'])
            want = ('ok', M.render(parts, {'p': m_preps[o['prep']], 'w': mf}, M.Dictionary()))
            return Op(o['id'], 'phrase', lambda: template.substitute({'p': preps[o['prep']], 'w': f}, empty),
                      lambda r, e: judge(world, 'phrase', 'phrase %r with %r' % (case['preps'][o['prep']][0], text), want, r, e), est=900, retry=o['retry'])

        for ph in case['phases']:
            sim.run([[make(o) for o in th] for th in ph])
            for o in (o for th in ph for o in th if o['op'] == 'fill' and o.get('mixed')):
                # a filling that was not repeated happened or did not
                i = o['w']
                full = M.autofill(case['words'][i]['type'], forms[i])
                now = list(words[i].forms)
                if now != full and (now != forms[i] or o['retry']):
                    raise Violation('fill-result', 'filling left %s of %s' % (show(now), show(forms[i])))
                forms[i] = now
        for i, w in enumerate(words):
            mw = current(i)
            for name, want in (('number_of_syllables', M.syllables(mw['forms'])), ('has_fluent_vowel', M.fluent(mw['forms']))):
                got = getattr(w, name)
                if got != want:
                    raise Violation('facts-final', '%s of %s is %r, should be %r' % (name, show(mw['forms']), got, want))

    def mixed(self, world, w, mw, o, word_form):
        """an answer given while the word is being filled in is right for the forms before or for the forms after"""
        i, kind = o['w'], o['op']
        full = dict(mw, forms=M.autofill(mw['type'], mw['forms']))
        if kind == 'fill':
            def filled(r, e):
                if e is not None:
                    raise Violation('fill-error', 'filling failed: %s' % describe(e))
            return Op(o['id'], 'fill', lambda: w.autofill_missed_forms(), filled, est=4000, retry=o['retry'])
        if kind == 'syllables':
            fn, wants, est = (lambda: w.number_of_syllables), [M.syllables(x['forms']) for x in (mw, full)], 180
        elif kind == 'fluent':
            fn, wants, est = (lambda: bool(w.has_fluent_vowel)), [M.fluent(x['forms']) for x in (mw, full)], 500
        else:
            f = word_form(i, o['p'], o['shared'])
            wants, est = [M.form_text(M.make_form(x, o['p'])) for x in (mw, full)], 150
            fn = lambda: f.form
            if kind == 'cluster':
                fn, wants, est = (lambda: bool(f.starts_with_consonant_cluster)), [M.cluster(x) for x in wants], 200

        def check(r, e):
            if e is not None:
                raise Violation('facts-error', '%s of a word that is being filled in failed: %s' % (kind, describe(e)))
            if r not in wants:
                raise Violation('facts-mixed', '%s of a word that is being filled in is %s, neither the one before nor the one after: %s' % (kind, show(r), show(wants)))
        return Op(o['id'], kind, fn, check, est=est, retry=o['retry'])

    def churn(self, world, template, parts, preps, m_preps, o):
        wants = []
        for w in o['words']:
            f = M.make_form(w)
            wants.append(expected(lambda: [M.syllables(w['forms']), M.fluent(w['forms']), M.form_text(f), M.cluster(M.form_text(f)),
                                           M.render(parts, {'p': m_preps[0], 'w': f}, M.Dictionary())]))
        empty = world.dictionary.Dictionary()

        def fn():
            out = []
            for n in range(o['times']):
                for w in o['words']:
                    x = world.word(w)
                    f = world.form(x)
                    try:
                        out.append(([x.number_of_syllables, bool(x.has_fluent_vowel), f.form, bool(f.starts_with_consonant_cluster),
                                     template.substitute({'p': preps[0], 'w': f}, empty)], None))
                    except Exception as e:
                        if isinstance(e, INJECTED):
                            raise
                        out.append((None, e))
            return out

        def check(r, e):
            if e is not None:
                raise Violation('passing-error', describe(e))
            for n, (got, err) in enumerate(r):
                w = o['words'][n % len(wants)]
                judge(world, 'passing', 'facts of the passing word %s' % show(w['forms']), wants[n % len(wants)], got, err)
        return Op(o['id'], 'churn', fn, check, est=1500 * len(o['words']) * o['times'])


SCENARIO = C10()
