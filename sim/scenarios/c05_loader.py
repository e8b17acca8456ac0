"""C05: readers of a dictionary one thread is adding words to."""
from .base import Scenario, number_ops
from .c02_interrupt import form_record
from .c04_replicas import conflict_words, rank3, bulk_size, add_bulk, check_bulk
from .. import gen as G
from .. import model as M
from ..core import Op, Violation
from ..world import World, expected, judge, show, describe


class C05(Scenario):
    id = 'C05'
    title = 'reading while loading'
    fault_share = 0.25
    quick_runs = 6000
    thorough_runs = 80000
    rule = ('one case = 2-6 (rarely 20-60) competing words added by one thread (or 2-3) while 1-3 others look up, test presence, list words, check and render templates; every '
            'answer is judged against the additions finished before and begun by the end of the call; non-trivial = a decision was taken; distinct by '
            'case and decisions')

    def duel(self, rng):
        """short words which take one spelling from each other, one after the other, while somebody asks for that spelling"""
        text = rng.choice(['о', 'всё', 'стекло', 'ёж', 'что'])
        words = []
        for t in rng.sample(['PREPOSITION', 'TEXT', 'TEXT', 'NOUN', 'PREPOSITION', 'VERB'], rng.randint(2, 5)):
            forms = G.forms_for(rng, t, 'абвгд'[len(words)])
            for k in rng.sample(range(len(forms)), min(len(forms), rng.randint(1, 3))):
                forms[k] = text
            words.append({'type': t, 'forms': forms, 'props': G.props_for(rng, t)})
        if rng.random() < 0.3:
            # the same spellings all over
            like = rng.choice(words)
            for _ in range(rng.randint(1, 2)):
                words.append({'type': like['type'], 'forms': list(like['forms']), 'props': G.props_for(rng, like['type'])})
        words.sort(key=lambda w: (M.TYPES[w['type']]['code'], w['forms']), reverse=True)
        pre = rng.choice([0, 1, 1])
        threads = [[{'op': 'add', 'w': k} for k in range(pre, len(words))]]
        for _ in range(rng.choice([1, 1, 2])):
            ops = []
            for _o in range(rng.randint(3, 12)):
                o = {'op': rng.choice(['get', 'get', 'has', 'missing', 'sweep', 'render', 'words']), 'text': text, 'props': ''}
                if o['op'] in ('missing', 'sweep'):
                    o['texts'] = [text] * rng.randint(1, 4)
                if o['op'] in ('get', 'has') and rng.random() < 0.2:
                    o['text'] = rng.choice(G.near_misses(text))
                ops.append(o)
            threads.append(ops)
        cfg = {'mode': rng.choice(['mutate', 'mutate', 'test', 'store', 'uniform']), 'gap': rng.choice([1, 2, 4, 8])}
        return {'cfg': cfg, 'words': words, 'pre': list(range(pre)), 'bulk': 0, 'phases': number_ops([threads])}

    def gen(self, rng, tier):
        if rng.random() < 0.25:
            return self.duel(rng)
        words = conflict_words(rng, rng.randint(20, 60) if rng.random() < 0.03 else rng.randint(2, 6))
        if len(words) < 12 and rng.random() < 0.5:
            # one spelling in several parts of speech
            text = rng.choice([f for w in words for f in w['forms'] if f] or ['нет'])
            for t in rng.sample(['NOUN', 'VERB', 'PREPOSITION', 'TEXT', 'PRONOUN', 'ADJECTIVE'], rng.randint(1, 2)):
                forms = G.forms_for(rng, t, 'ю')
                for k in rng.sample(range(len(forms)), min(len(forms), rng.randint(1, 4))):
                    forms[k] = text
                words.append({'type': t, 'forms': forms, 'props': G.props_for(rng, t)})
        order = list(range(len(words)))
        if rng.random() < 0.3:
            order.append(rng.randrange(len(words)))
        rng.shuffle(order)
        if rng.random() < 0.4:
            # less preferred words first: the contested spellings change hands
            order.sort(key=lambda i: (M.TYPES[words[i]['type']]['code'], words[i]['forms']), reverse=True)
        pre = rng.choice([0, 0, 1, 2]) if len(words) < 12 else rng.randint(0, len(words))
        loaders = [[{'op': 'add', 'w': w} for w in order[pre:]]]
        if rng.random() < 0.3:
            # the words come from several threads, some of them twice
            rest, n = order[pre:], rng.choice([2, 2, 3])
            rest += rng.sample(rest, min(len(rest), rng.choice([0, 0, 1, 2])))
            loaders = [[{'op': 'add', 'w': w} for w in rest[k::n]] for k in range(n)]
        texts = sorted(set(t for w in words for t in (M.form_text(f) for f in M.all_forms(w)) if t)) or ['нет']
        usable = G.usable_texts(words) or ['нет']
        owners = [set(M.form_text(f) for f in M.all_forms(w)) for w in words[:12]]
        contested = [t for t in texts if sum(t in o for o in owners) > 1] or texts
        hot = [rng.choice(contested if rng.random() < 0.7 else texts) for _ in range(rng.randint(1, 6))]
        threads = loaders
        # (listing takes time quadratic in the number of words alike: their hashes are equal)
        bulk = bulk_size(rng)
        reads = [5, 3, 0 if bulk else 1, 2, 2, 3]
        for _ in range(rng.randint(1, 3) if len(loaders) == 1 else rng.randint(0, 2)):
            ops = []
            for _o in range(rng.randint(2, 8)):
                kind = rng.choices(['get', 'has', 'words', 'missing', 'render', 'sweep'], reads)[0]
                o = {'op': kind, 'text': rng.choice(hot + [rng.choice(texts)])}
                if kind in ('get', 'has') and rng.random() < 0.2:
                    o['text'] = rng.choice(G.near_misses(o['text']))
                if kind == 'sweep':
                    o['texts'] = [rng.choice(texts if rng.random() < 0.5 else contested) for _ in range(8)]
                if kind == 'missing':
                    o['texts'] = [rng.choice(usable) for _ in range(rng.randint(1, 4))] + (['нетслова'] if rng.random() < 0.3 else [])
                if kind == 'render':
                    o['text'] = rng.choice(usable)
                    o['props'] = ','.join(G.verbose(rng) for _ in range(rng.randint(0, 2)))
                ops.append(o)
            threads.append(ops)
        return {'words': words, 'pre': order[:pre], 'bulk': bulk, 'phases': number_ops([threads])}

    def run(self, sim, case):
        world = World()
        objs = [world.word(w) for w in case['words']]
        d = world.dictionary.Dictionary(words=[objs[i] for i in case['pre']])
        if case.get('bulk'):
            sim.count('bulk_words', case['bulk'])
            add_bulk(world, case['bulk'], 0, d.add_word)
        adds = []                     # [word index, op or None]
        for i in case['pre']:
            adds.append((i, None))
        threads = []
        forms = []                    # per word: text -> list of (rank, record)
        for w in case['words']:
            by = {}
            for f in M.all_forms(w):
                by.setdefault(M.form_text(f), []).append((rank3(f), form_record(f)))
            forms.append(by)
        seen = {}                     # text -> [(end, rank)]

        def window(op):
            """-> (finished before op began, begun by now), as lists of word indexes in order of addition"""
            done, begun = [], []
            for i, a in adds:
                if a is None:
                    done.append(i)
                    begun.append(i)
                elif a.start is not None:
                    begun.append(i)
                    if a.end is not None and a.end < op.start:
                        done.append(i)
            return done, begun

        def allowed(text, op):
            """-> (may be absent, {repr(record): rank})"""
            done, begun = window(op)
            best = min((min(r for r, _ in forms[i][text]) for i in done if text in forms[i]), default=None)
            ok = {}
            for i, a in adds:
                if a is not None and a.start is None or text not in forms[i]:
                    continue
                # words which were there before this addition began, or before the question
                before = [min(r for r, _ in forms[j][text]) for j, b in adds if text in forms[j] and (
                    b is None or b.end is not None and (b.end < op.start or a is not None and b.end < a.start))]
                for r, rec in forms[i][text]:
                    if not before or r <= min(before):
                        ok[repr(rec)] = r
            return best is None, ok

        def judge_get(op, text, got, error):
            absent, ok = allowed(text, op)
            if error is not None:
                if not world.is_error(error, 'NoWordsFoundError'):
                    raise Violation('read-error', 'looking up %r failed while a word was being added: %s' % (text, describe(error)))
                if not absent:
                    raise Violation('lost', '%r is not found although its addition had finished' % text)
                got_rank = None
            else:
                rec = world.form_of(got)
                if repr(rec) not in ok:
                    raise Violation('unsound', 'looking up %r gave %s; possible answers are %s' % (text, show(rec), show(sorted(ok))))
                got_rank = ok[repr(rec)]
            for end, rank in seen.get(text, ()):
                if end < op.start and rank is not None and (got_rank is None or got_rank > rank):
                    raise Violation('regressed', '%r was answered with a preferred word before and with a less preferred one now: %s' % (text, show(got_rank)))
            seen.setdefault(text, []).append((op.end, got_rank))

        def make(o):
            kind = o['op']
            if kind == 'add':
                op = Op(o['id'], 'add', lambda: d.add_word(objs[o['w']]), None, est=6000)

                def check(r, e):
                    if e is not None:
                        raise Violation('add-error', 'adding failed: %s' % describe(e))
                op.check = check
                adds.append((o['w'], op))
            elif kind == 'get':
                op = Op(o['id'], 'get', lambda: d.get_word(o['text']), None, est=20)
                op.check = lambda r, e: judge_get(op, o['text'], r, e)
            elif kind == 'sweep':
                def sweep():
                    out = []
                    for t in o['texts']:
                        try:
                            out.append((t, d.get_word(t), None))
                        except world.exceptions.NoWordsFoundError as e:
                            out.append((t, None, e))
                    return out
                op = Op(o['id'], 'sweep', sweep, None, est=100)

                def check(r, e):
                    if e is not None:
                        raise Violation('read-error', 'looking up failed while a word was being added: %s' % describe(e))
                    for t, got, err in r:
                        judge_get(op, t, got, err)
                op.check = check
            elif kind == 'has':
                op = Op(o['id'], 'has', lambda: d.has_word(o['text']), None, est=10)

                def check(r, e):
                    if e is not None:
                        raise Violation('read-error', 'presence test failed while a word was being added: %s' % describe(e))
                    absent, ok = allowed(o['text'], op)
                    if r and not ok:
                        raise Violation('phantom', '%r is reported present before any addition of it' % o['text'])
                    if not r and not absent:
                        raise Violation('lost', '%r is reported absent although its addition had finished' % o['text'])
                op.check = check
            elif kind == 'words':
                op = Op(o['id'], 'words', lambda: d.get_words(), None, est=2500)

                def check(r, e):
                    if e is not None:
                        raise Violation('list-error', 'listing words failed while a word was being added: %s' % describe(e))
                    done, begun = window(op)
                    got = set(repr(world.word_of(w)) for w in r)
                    possible = set(repr(self.rec(case['words'][i])) for i in begun)
                    if not got <= possible:
                        raise Violation('phantom', 'listing reports words nobody has begun to add: %s' % show(sorted(got - possible)))
                    for t in set(t for i in done for t in forms[i]):
                        _, ok = allowed(t, op)
                        owners = set(repr(self.rec(case['words'][i])) for i in begun for _, rec in forms[i].get(t, ()) if repr(rec) in ok)
                        if not owners & got:
                            raise Violation('lost', 'listing misses the word for %r' % t)
                op.check = check
            elif kind == 'missing':
                template = world.template(' '.join('[%s]' % t for t in o['texts']), [])
                op = Op(o['id'], 'missing', lambda: template.get_undictionaried_words({}, d), None, est=100)

                def check(r, e):
                    if e is not None:
                        raise Violation('read-error', 'checking a template failed while a word was being added: %s' % describe(e))
                    rest = list(r)
                    for t in o['texts']:
                        absent, ok = allowed(t, op)
                        if rest and rest[0] == t and absent:
                            rest.pop(0)
                        elif not ok:
                            raise Violation('phantom', 'template check misses %r, which nobody has begun to add' % t)
                    if rest:
                        raise Violation('lost', 'template check reports %r although they were added' % rest)
                op.check = check
            else:
                text = '[%s|%s]' % (o['text'], o['props'])
                template = world.template(text, [])
                parts = M.parse(text, [])
                op = Op(o['id'], 'render', lambda: template.substitute({}, d), None, est=300)

                def check(r, e):
                    absent, ok = allowed(o['text'], op)
                    if e is not None and world.is_error(e, 'NoWordsFoundError') and absent:
                        return
                    _, begun = window(op)
                    texts = set()
                    for i in begun:
                        for f in M.all_forms(case['words'][i]):
                            if M.form_text(f) == o['text'] and repr(form_record(f)) in ok:
                                class One:
                                    get = staticmethod(lambda t, f=f: f)
                                try:
                                    texts.add(M.render(parts, {}, One))
                                except M.ModelError:
                                    return          # nothing is promised for a capital letter of an empty form
                    if e is not None:
                        raise Violation('read-error', 'rendering failed while a word was being added: %s' % describe(e))
                    if r not in texts:
                        raise Violation('unsound', 'rendering %r gave %r; possible texts are %s' % (text, r, show(sorted(texts))))
                op.check = check
            return op

        sim.run([[make(o) for o in th] for th in case['phases'][0]])
        final = M.Dictionary([case['words'][i] for i, a in adds])
        plain = world.dictionary.Dictionary(words=[objs[i] for i, a in adds])
        if case.get('bulk'):
            check_bulk(world, case['bulk'], d)
        for t in sorted(final.data)[:200]:
            best = min(min(r for r, _ in forms[i][t]) for i, a in adds if t in forms[i])
            ok = [repr(rec) for i, a in adds for r, rec in forms[i].get(t, ()) if r == best]
            got = repr(world.form_of(d.get_word(t)))
            same = repr(world.form_of(plain.get_word(t)))
            if got != same:
                raise Violation('final', 'after loading, %r is answered with %s; a dictionary to which the words were added in turn answers %s' % (t, show(got), show(same)))
            if got not in ok:
                raise Violation('final', 'after loading, %r is answered with %s instead of %s' % (t, show(got), show(ok)))

    @staticmethod
    def rec(w):
        return {'type': w['type'], 'forms': list(w['forms']), 'props': dict(w['props'])}


SCENARIO = C05()
