"""C02: interrupted calls leave no trace; inputs are never modified."""
from .base import Scenario, number_ops
from .c01_render import Shared, make_case, render_op
from .. import gen as G
from .. import model as M
from ..core import Op, Violation
from ..world import World, expected, judge


def form_record(form):
    return {'word': {'type': form['word']['type'], 'forms': list(form['word']['forms']), 'props': dict(form['word']['props'])},
            'props': dict(form['props']), 'fprops': dict(form['fprops'])}


class C02(Scenario):
    id = 'C02'
    title = 'interrupted calls'
    fault_share = 0.92
    quick_runs = 4000
    thorough_runs = 120000
    rule = ('one case = random inputs and 1-3 threads making 3-12 calls of every kind, attempts of which are cut short by injected exceptions and then retried; '
            'non-trivial = at least one fault fired or preemption happened; distinct by case and decisions')

    def gen(self, rng, tier):
        case = make_case(rng, rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4))
        texts = G.usable_texts(case['words']) or ['нет']
        threads = []
        for _t in range(rng.choice([1, 1, 2, 2, 3])):
            ops = []
            for _o in range(rng.randint(2, 6)):
                kind = rng.choices(['render', 'again', 'missing', 'form', 'parse', 'word', 'number', 'lookup', 'words', 'facts', 'clone', 'dictionary', 'external'],
                                   [8, 1, 1, 1, 3, 1, 3, 1, 1, 2, 2, 1, 4])[0]
                o = {'op': kind, 'retry': rng.random() < 0.8}
                if kind in ('render', 'again', 'missing'):
                    o.update(d=rng.randrange(len(case['dicts'])), t=rng.randrange(len(case['templates'])), e=rng.randrange(len(case['externals'])), n=2)
                elif kind == 'external':
                    o.update(n=rng.choice(case['names']), e=rng.randrange(len(case['externals'])))
                elif kind == 'form':
                    o.update(w=rng.randrange(len(case['words'])), p=G.prop_set(rng, 0, 4))
                elif kind == 'parse':
                    o.update(text=G.template_text(rng, case['names'], texts, bad=0.1), e=rng.randrange(len(case['externals'])))
                elif kind == 'word':
                    w = G.word(rng, tag='ф')
                    if rng.random() < 0.2:
                        w['forms'] = w['forms'][:-1] if rng.random() < 0.5 else w['forms'] + ['лишний']
                    o.update(word=w)
                elif kind == 'number':
                    o.update(n=G.number(rng))
                elif kind == 'lookup':
                    o.update(text=rng.choice(texts + ['нетслова']))
                elif kind == 'facts':
                    o.update(w=rng.randrange(len(case['words'])))
                elif kind == 'clone':
                    o.update(sets=[G.prop_set(rng, 0, 4) for _ in range(rng.randint(1, 4))])
                ops.append(o)
            threads.append(ops)
        case['phases'] = number_ops([threads])
        return case

    def run(self, sim, case):
        world = World()
        sh = Shared(world, case)
        texts = sorted(sh.m_dictionary.data)
        texts = texts[::max(1, len(texts) // 40)]
        before = self.snapshot(world, sh, case, texts)
        for ph in case['phases']:
            sim.run([[self.op(world, sh, case, o) for o in th] for th in ph])
        after = self.snapshot(world, sh, case, texts)
        for k in before:
            if before[k] != after[k]:
                raise Violation('input-changed', '%s changed: was %.300r, is %.300r' % (k, before[k], after[k]))
        # the same requests, undisturbed
        for i, t in enumerate(case['templates']):
            for j in range(len(case['externals'])):
                want = expected(lambda: M.render(sh.m_templates[i], sh.m_externals[j], sh.m_dictionary))
                error = result = None
                try:
                    result = sh.templates[i].substitute(sh.full_externals(j), sh.dictionary)
                except Exception as e:
                    error = e
                judge(world, 'afterwards', '%r' % t, want, result, error)

    def snapshot(self, world, sh, case, texts):
        out = {}
        for i, w in enumerate(sh.words):
            out['word %d' % i] = world.word_of(w)
        for i, t in enumerate(sh.templates):
            out['template %d' % i] = repr(t.serialize())
        for i, es in enumerate(sh.externals):
            for n, f in es.items():
                out['external %d %s' % (i, n)] = world.form_of(f)
            out['external set %d' % i] = list(es)
        for t in texts:
            out['dictionary %r' % t] = world.form_of(sh.dictionary.get_word(t))
        out['words'] = sorted(map(repr, (world.word_of(w) for w in sh.dictionary.get_words())))
        return out

    def op(self, world, sh, case, o):
        kind = o['op']
        if kind in ('render', 'again', 'missing', 'form', 'external'):
            op = render_op(world, sh, case, o)
        elif kind == 'parse':
            names = list(case['names'])
            want_parse = expected(lambda: M.parse(o['text'], case['names']))

            def check(r, e):
                if want_parse[0] == 'error' or e is not None:
                    judge(world, 'parse', 'parse %r' % o['text'], want_parse, r, e)
                    return
                want = expected(lambda: M.render(want_parse[1], sh.m_externals[o['e']], sh.m_dictionary))
                error = result = None
                try:
                    result = r.substitute(sh.full_externals(o['e']), sh.dictionary)
                except Exception as x:
                    error = x
                judge(world, 'parsed-text', '%r' % o['text'], want, result, error)
                if names != case['names']:
                    raise Violation('names-changed', 'parsing changed the list of names to %r' % (names,))
            op = Op(o['id'], kind, lambda: world.template(o['text'], names), check, est=500)
        elif kind == 'word':
            w = o['word']
            if len(w['forms']) == M.SIZE[w['type']]:
                want = ('ok', {'type': w['type'], 'forms': w['forms'], 'props': w['props']})
            else:
                want = ('error', 'WrongFormsNumberError')
            props = world.props(w['props'])
            op = Op(o['id'], kind, lambda: world.words.Word(type=world.types[w['type']], forms=list(w['forms']), properties=props),
                    lambda r, e: judge(world, 'word', 'word', want, world.word_of(r) if e is None else None, e), est=60)
        elif kind == 'number':
            want = ('ok', form_record(M.integer_form(o['n'])))
            op = Op(o['id'], kind, lambda: world.constructors.construct_integer(o['n']),
                    lambda r, e: judge(world, 'number', 'number %d' % o['n'], want, world.form_of(r) if e is None else None, e), est=4000)
        elif kind == 'lookup':
            want = expected(lambda: form_record(sh.m_dictionary.get(o['text'])))
            op = Op(o['id'], kind, lambda: sh.dictionary.get_word(o['text']),
                    lambda r, e: judge(world, 'lookup', 'word for %r' % o['text'], want, world.form_of(r) if e is None else None, e), est=20)
        elif kind == 'words':
            want = ('ok', sorted(repr(world.word_of(world.word(w))) for w in sh.m_dictionary.get_words()))
            op = Op(o['id'], kind, lambda: sh.dictionary.get_words(),
                    lambda r, e: judge(world, 'words', 'list of words', want, sorted(repr(world.word_of(w)) for w in r) if e is None else None, e), est=2500)
        elif kind == 'facts':
            w = case['words'][o['w']]
            want = ('ok', (M.syllables(w['forms']), M.fluent(w['forms']), M.word_form_text(w, w['props'])))
            word = sh.words[o['w']]
            op = Op(o['id'], kind, lambda: (word.number_of_syllables, bool(word.has_fluent_vowel), word.normal_form()),
                    lambda r, e: judge(world, 'facts', 'facts of word %d' % o['w'], want, r, e), est=1500)
        elif kind == 'clone':
            sets = [world.props(s) for s in o['sets']]
            want = ('ok', M.merge(*o['sets']))

            def check_clone(r, e):
                judge(world, 'combined', 'combination of %r' % (o['sets'],), want, world.props_of(r) if e is None else None, e)
                for s, m in zip(sets, o['sets']):
                    if world.props_of(s) != m:
                        raise Violation('input-changed', 'combining changed a property set: %r to %r' % (m, world.props_of(s)))
            op = Op(o['id'], kind, lambda: sets[0].clone(*sets[1:]), check_clone, est=80)
        elif kind == 'dictionary':
            words = [sh.words[i] for i in case['dicts'][0]['words']]
            count = len(words)
            want = ('ok', {t: form_record(f) for t, (_, f) in sh.m_dictionary.data.items()})

            def check_dict(r, e):
                got = {t: world.form_of(r.get_word(t)) for t in want[1]} if e is None else None
                judge(world, 'dictionary', 'dictionary of %d words' % len(words), want, got, e)
                if len(words) != count:
                    raise Violation('input-changed', 'building a dictionary changed the list of words')
            op = Op(o['id'], kind, lambda: world.dictionary.Dictionary(words=words), check_dict, est=8000)
        else:
            raise AssertionError(kind)
        op.retry = o.get('retry', True)
        return op


SCENARIO = C02()
