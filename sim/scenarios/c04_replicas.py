"""C04: dictionaries with the same words converge."""
import random

from .base import Scenario, number_ops
from .c02_interrupt import form_record
from .. import gen as G
from .. import model as M
from ..core import Op, Violation, SimCrash
from ..world import World, expected, judge, show


def conflict_words(rng, n):
    """words that compete for spellings in every way the priority rules know"""
    words = []
    many = n > 12
    weights = [8, 0, 0, 0, 0, 6, 6, 4] if many else [8, 1, 2, 4, 1, 3, 2, 1]
    while len(words) < n:
        roll = rng.random()
        if not words or roll < 0.3:
            words.append(G.word(rng, type=rng.choices(['NOUN', 'ADJECTIVE', 'PRONOUN', 'VERB', 'PARTICIPLE', 'PREPOSITION', 'TEXT', 'INTEGER'],
                                                      weights)[0], tag='абвгдежз'[len(words) % 8]))
            continue
        base = rng.choice(words)
        w = {'type': base['type'], 'forms': list(base['forms']), 'props': dict(base['props'])}
        if roll < 0.5:
            # same forms, other properties: decided by distance or, failing that, tied
            g = rng.choice(['GENDER', 'ANIMALITY', 'PERSON', 'ASPECT', 'VOICE', 'PRONOUN_CATEGORY', 'ADJECTIVE_CATEGORY', 'NUMBER'])
            w['props'][g] = rng.choice(M.VALUES[g])
        elif roll < 0.75:
            # same spelling, other forms elsewhere
            for _ in range(rng.randint(1, 3)):
                i = rng.randrange(len(w['forms']))
                w['forms'][i] = rng.choice(['а', 'я', 'ъ', '']) + w['forms'][i]
        elif roll < 0.9:
            # same spelling, other part of speech
            t = rng.choice(['NOUN', 'PREPOSITION', 'TEXT'] if many else ['NOUN', 'VERB', 'PREPOSITION', 'TEXT', 'PRONOUN'])
            forms = G.forms_for(rng, t, 'ю')
            for _ in range(rng.randint(1, 3)):
                forms[rng.randrange(len(forms))] = rng.choice(base['forms'])
            w = {'type': t, 'forms': forms, 'props': G.props_for(rng, t)}
        else:
            # one spelling for several forms of a word
            i, j = rng.randrange(len(w['forms'])), rng.randrange(len(w['forms']))
            w['forms'][i] = w['forms'][j]
        if rng.random() < 0.15:
            # the same but for a capital letter, a blank or a similar letter
            for _ in range(rng.randint(1, 3)):
                i = rng.randrange(len(w['forms']))
                w['forms'][i] = rng.choice(G.near_misses(base['forms'][rng.randrange(len(base['forms']))]))
        words.append(w)
    if rng.random() < 0.15:
        # words which were described in part
        words = [G.holes(rng, w) if rng.random() < 0.5 else w for w in words]
    return words


def bulk_size(rng):
    """how many further words a dictionary is given, to see that their number does not matter"""
    return rng.choice([80, 80, 300, 300, 650]) if rng.random() < 0.012 else 0


def bulk_forms(i):
    return ['щ%d' % (i // 3)] + ['щ%d-%d' % (i, j) for j in range(1, M.SIZE['NOUN'])]


def add_bulk(world, n, shuffle, add):
    order = list(range(n))
    random.Random(shuffle).shuffle(order)
    for i in order:
        add(world.words.Word(world.types['NOUN'], bulk_forms(i)))


def check_bulk(world, n, d):
    winner = {}
    for i in range(n):
        if i // 3 not in winner or bulk_forms(i) < bulk_forms(winner[i // 3]):
            winner[i // 3] = i
    for i in range(n):
        forms = bulk_forms(i)
        for t, owner in ((forms[0], winner[i // 3]), (forms[1 + i % (len(forms) - 1)], i)):
            try:
                got = d.get_word(t)
            except Exception as e:
                raise Violation('lost', 'spelling %r, added among %d words, is not found: %r' % (t, n, e))
            if got.word.forms != bulk_forms(owner):
                raise Violation('not-preferred', 'spelling %r among %d words: the word of %r is found, not the one of %r' % (
                    t, n, got.word.forms[1], bulk_forms(owner)[1]))


def rank3(form):
    w = form['word']
    return (M.TYPES[w['type']]['code'], list(w['forms']), M.distance(form['props']))


def candidates(words):
    """text -> most preferred forms (several when tied)"""
    out = {}
    for w in words:
        for f in M.all_forms(w):
            t = M.form_text(f)
            k = rank3(f)
            old = out.get(t)
            if old is None or k < old[0]:
                out[t] = (k, [form_record(f)])
            elif k == old[0] and form_record(f) not in old[1]:
                old[1].append(form_record(f))
    return out


class C04(Scenario):
    id = 'C04'
    title = 'dictionary replicas'
    fault_kinds = ('interrupt', 'timeout', 'memory', 'crash')
    fault_share = 0.6
    quick_runs = 2000
    thorough_runs = 80000
    rule = ('one case = 2-7 (rarely 20-70) words competing for spellings, delivered to 2-4 dictionaries in different orders with duplicates, some up front, with '
            'interrupted additions, crashes and restarts that rebuild from the accepted words in another order; non-trivial = a decision was taken; '
            'distinct by case and decisions')

    def gen(self, rng, tier):
        words = conflict_words(rng, rng.randint(20, 70) if rng.random() < 0.03 else rng.randint(2, 7))
        threads, upfront = [], []
        shared = rng.random() < 0.5
        for r in range(rng.randint(2, 4)):
            order = list(range(len(words)))
            order += [rng.randrange(len(words)) for _ in range(rng.randint(0, 3))]
            rng.shuffle(order)
            k = rng.choice([0, 0, 0, 1, 2, len(order)])
            upfront.append(order[:k])
            ops = []
            for w in order[k:]:
                ops.append({'op': 'add', 'w': w})
                rare = 0.1 if len(words) > 12 else 1
                if rng.random() < 0.15 * rare:
                    ops.append({'op': 'restart', 'shuffle': rng.randrange(1000)})
                if rng.random() < 0.25 * rare:
                    ops.append({'op': 'check', 'n': rng.randrange(1000)})
            if rng.random() < 0.3:
                ops.append({'op': 'restart', 'shuffle': rng.randrange(1000)})
            threads.append(ops)
        return {'words': words, 'upfront': upfront, 'shared': shared, 'bulk': bulk_size(rng), 'phases': number_ops([threads])}

    def run(self, sim, case):
        world = World()
        common = [world.word(w) for w in case['words']]
        reps = []
        for r, th in enumerate(case['phases'][0]):
            objs = common if case['shared'] else [world.word(w) for w in case['words']]
            acc = list(case['upfront'][r])
            reps.append({'objs': objs, 'accepted': acc, 'd': world.dictionary.Dictionary(words=[objs[i] for i in acc]) if acc else world.dictionary.Dictionary()})

        def rebuild(rep, shuffle):
            order = list(rep['accepted'])
            random.Random(shuffle).shuffle(order)
            if shuffle % 2:
                rep['d'] = world.dictionary.Dictionary(words=[rep['objs'][i] for i in order])
            else:
                rep['d'] = world.dictionary.Dictionary()
                for i in order:
                    rep['d'].add_word(rep['objs'][i])

        def make(rep, o):
            if o['op'] == 'add':
                def done(r, e):
                    if e is not None:
                        raise Violation('add-error', 'adding a word failed: %r' % e)
                    rep['accepted'].append(o['w'])

                def on_fault(e):
                    if isinstance(e, SimCrash):
                        sim.count('restart')
                        rebuild(rep, o['w'])
                return Op(o['id'], 'add', lambda: rep['d'].add_word(rep['objs'][o['w']]), done, est=6000, on_fault=on_fault)
            if o['op'] == 'restart':
                def restart(r, e):
                    sim.count('restart')
                    rebuild(rep, o['shuffle'])
                return Op(o['id'], 'restart', lambda: None, restart, faultable=False)

            def look(r, e):
                self.compare(world, rep, case, o['n'])
            return Op(o['id'], 'check', lambda: None, look, faultable=False)

        sim.run([[make(reps[r], o) for o in th] for r, th in enumerate(case['phases'][0])])
        # operations may have been dropped by minimisation: compare replicas which accepted the same set of words
        state = {}
        for rep in reps:
            answers = self.compare(world, rep, case, None)
            key = tuple(sorted(set(rep['accepted'])))
            if key in state and state[key] != answers:
                diff = [t for t in answers if answers[t] != state[key].get(t)][:3]
                raise Violation('diverged', 'replicas with the same words answer differently: %s' % show(
                    [(t, answers[t], state[key].get(t)) for t in diff]))
            state[key] = answers
            if len(key) < len(rep['accepted']):
                sim.count('duplicate_delivery')
        if case.get('bulk'):
            sim.count('bulk_words', case['bulk'])
            for r, rep in enumerate(reps[:2]):
                add_bulk(world, case['bulk'], r, rep['d'].add_word)
                check_bulk(world, case['bulk'], rep['d'])
                self.compare(world, rep, case, 0)

    def compare(self, world, rep, case, sample):
        want = candidates([case['words'][i] for i in sorted(set(rep['accepted']))])
        texts = sorted(want)
        if sample is not None:
            k = max(1, len(texts) // 25)
            texts = texts[sample % k::k]
        answers = {}
        d = rep['d']
        for t in texts:
            try:
                got = world.form_of(d.get_word(t))
            except Exception as e:
                raise Violation('lost', 'spelling %r of an added word is not found: %r' % (t, e))
            if not d.has_word(t):
                raise Violation('lost', 'spelling %r of an added word is reported absent' % t)
            if got not in want[t][1]:
                raise Violation('not-preferred', 'spelling %r: preferred %s, got %s' % (t, show(want[t][1]), show(got)))
            answers[t] = got
        for t in texts[::max(1, len(texts) // 8)]:
            for x in G.near_misses(t):
                if x not in want:
                    if d.has_word(x):
                        raise Violation('phantom', 'spelling %r is reported present, it was never added' % x)
                    try:
                        got = d.get_word(x)
                    except world.exceptions.NoWordsFoundError:
                        continue
                    raise Violation('phantom', 'spelling %r is found, it was never added: %s' % (x, show(world.form_of(got))))
        if sample is None:
            listed = sorted(repr(world.word_of(w)) for w in d.get_words())
            # equal words are reported once
            expect = sorted(set(repr(f['word']) for f in answers.values()))
            if sorted(set(listed)) != expect:
                raise Violation('word-list', 'listed words are not the ones answers refer to: %s instead of %s' % (show(listed), show(expect)))
        for t in ('нетслова', 'zzz'):
            if t not in want and d.has_word(t):
                raise Violation('phantom', 'unknown spelling %r is reported present' % t)
        return answers


SCENARIO = C04()
