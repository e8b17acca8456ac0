"""Generators of workload data: words, external values, template texts.  Pure functions of the generator passed in."""
import re
import unicodedata

from . import model as M

CONS = 'бвгдзклмнпрст'
VOW = 'аеиоуыэюя'
ENDS = [c + v for v in VOW for c in 'бвгджзклмнпрстфхцчшщ']         # 180 different endings
ONE_SYLLABLE = [('лоб', 'лб'), ('рот', 'рт'), ('лев', 'льв'), ('сон', 'сн'), ('день', 'дн'), ('пёс', 'пс'), ('вшей', 'вш'), ('мох', 'мх')]
CLUSTER = ['вл', 'вн', 'сл', 'ст', 'кр', 'бр', 'зд', 'вз', 'ск', 'сн', 'тр']
SPECIAL = ['всех', 'мне', 'всём', 'что', 'всей']
PREPS = [['в', 'во', 'во'], ['с', 'со', 'со'], ['к', 'ко', 'ко'], ['из', 'изо', 'изо'], ['о', 'об', 'обо'], ['на', 'на', 'на'],
         ['под', 'подо', 'подо'], ['у', 'ув', 'уво'], ['от', 'ото', 'отто']]
TYPES = ['NOUN', 'ADJECTIVE', 'PRONOUN', 'VERB', 'PARTICIPLE', 'PREPOSITION', 'TEXT']
TYPE_WEIGHTS = [7, 4, 3, 4, 2, 3, 1]

LITERALS = ['', ' ', ' ', ' ', ' и ', ', ', '. Вчера ', '%', '100% ', '%s', '%%', '%(x)s', '{0}', '{', '}', '[]', ']', '\n', '\\n ', '"', ' № 5 ', ' | ', 'Ёлка ', '\t', '…']


def props_for(rng, type, extra=0.04):
    out = {}
    for g, required in M.TYPES[type]['properties'].items():
        if required or rng.random() < 0.4:
            out[g] = rng.choice(M.VALUES[g])
    if rng.random() < extra:
        g = rng.choice(['CASE', 'GENDER', 'TIME', 'PERSON', 'ANIMALITY', 'DEPENDENCY_MODE'])
        out[g] = rng.choice(M.VALUES[g])
    if type == 'PREPOSITION' and rng.random() < 0.12:
        out['PREPOSITION_FORM'] = rng.choice(M.VALUES['PREPOSITION_FORM'])        # the variant this one is in by itself
    if type == 'INTEGER':
        out['NUMBER'] = rng.choice(M.VALUES['NUMBER'])
    return out


def stem(rng, style=None):
    style = style or rng.choice(['plain', 'plain', 'cluster', 'vowel', 'jvowel'])
    body = ''.join(rng.choice(CONS) + rng.choice(VOW) for _ in range(rng.randint(1, 2)))
    if style == 'cluster':
        return rng.choice(CLUSTER) + rng.choice(VOW) + body
    if style == 'vowel':
        return rng.choice('аиоуэы') + body
    if style == 'jvowel':
        return rng.choice('еёюя') + body
    return body


def forms_for(rng, type, tag):
    """forms that are all different, so that a wrong choice is visible; tag keeps words apart"""
    n = M.SIZE[type]
    if type == 'PREPOSITION':
        return list(rng.choice(PREPS))
    if type == 'TEXT':
        return [rng.choice(['просто ', 'Некий ', '', '5% ', '%s']) + stem(rng) + tag]
    if type == 'INTEGER':
        return [str(rng.randint(0, 5000))]
    roll = rng.random()
    ends = ENDS[:]
    rng.shuffle(ends)
    if roll < 0.25:
        first, root = rng.choice(ONE_SYLLABLE)
        return [first] + [root + ends[i] + tag for i in range(1, n)]
    if roll < 0.33:
        forms = [stem(rng) + ends[i] + tag for i in range(n)]
        for s in SPECIAL:
            forms[rng.randrange(n)] = s
        return forms
    if roll < 0.40:
        # one syllable, cluster, nothing fluent
        s = rng.choice(CLUSTER)
        return [s + 'а'] + [s + 'а' + ends[i] + tag for i in range(1, n)]
    s = stem(rng)
    return [s + tag + ends[i] for i in range(n)]


def word(rng, type=None, tag=''):
    type = type or rng.choices(TYPES, TYPE_WEIGHTS)[0]
    forms = forms_for(rng, type, tag)
    if rng.random() < 0.1:
        forms = odd(rng, forms)
    return {'type': type, 'forms': forms, 'props': props_for(rng, type)}


def odd(rng, forms):
    """forms spelled in ways which are rare and legal"""
    style = rng.choice(['capitals', 'capitals', 'blank', 'mark', 'yo', 'start', 'inside'])
    one = rng.random() < 0.3
    if style == 'capitals':
        change = lambda f: f[:1] + ''.join(c.upper() if rng.random() < 0.4 else c for c in f[1:])
    elif style == 'blank':
        end = rng.choice([' %s', '%s ', ' %s ', '%s\u00a0', '%s\n'])
        change = lambda f: end.replace('%s', f)
    elif style == 'mark':
        mark = rng.choice(['и\u0306', 'е\u0308', 'а\u0301', 'e\u0301'])
        change = lambda f: f + mark
    elif style == 'yo':
        change = lambda f: f.replace('е', 'ё') + 'ё'
    elif style == 'start':
        start = rng.choice(['5й ', '«', '-', 'ß', 'ŉ', 'ǆ', 'ﬁ', '\U0001d7d8', 'x-', "'"])
        change = lambda f: start + f
    else:
        inside = rng.choice(['\u00ad', '-', ' ', '\u200d', '%%', '\\', '"'])
        change = lambda f: f[:2] + inside + f[2:]
    k = rng.randrange(len(forms))
    return [change(f) if f and (not one or i == k) else f for i, f in enumerate(forms)]


def demanding_word(rng):
    """a word before which a preposition takes another form, in one of the ways known"""
    type = rng.choice(['NOUN', 'ADJECTIVE', 'PRONOUN', 'VERB', 'PARTICIPLE', 'TEXT'])
    n = M.SIZE[type]
    style = rng.choice(['special', 'special', 'vowel', 'vowel', 'cluster', 'fluent', 'plain'])
    if style == 'special':
        forms = [rng.choice(SPECIAL)] * n
    elif style == 'fluent':
        first, root = rng.choice(ONE_SYLLABLE)
        forms = [first if i % 3 == 0 and rng.random() < 0.2 else root + e for i, e in zip(range(n), ENDS * 2)]
        forms[0] = first
    else:
        s = stem(rng, style)
        forms = [s + ENDS[i % len(ENDS)] for i in range(n)]
    return {'type': type, 'forms': forms, 'props': props_for(rng, type, 0)}


def holes(rng, w, keep=None):
    """the same word with some forms missing"""
    n = len(w['forms'])
    mode = rng.choice(['few', 'half', 'most', 'tail', 'head', 'one'])
    p = {'few': 0.15, 'half': 0.5, 'most': 0.85}.get(mode)
    forms = list(w['forms'])
    if p is not None:
        forms = [f if rng.random() > p else '' for f in forms]
    elif mode == 'tail':
        k = rng.randint(1, n)
        forms = forms[:k] + [''] * (n - k)
    elif mode == 'head':
        k = rng.randint(0, n - 1)
        forms = [''] * k + forms[k:]
    else:
        k = rng.randrange(n)
        forms = [f if i == k else '' for i, f in enumerate(forms)]
    return dict(w, forms=forms)


FORM_GROUPS = ['CASE', 'NUMBER', 'GENDER', 'ANIMALITY', 'TIME', 'PERSON', 'VERB_FORM', 'GRADE', 'NOUN_FORM', 'ADJECTIVE_FORM', 'PARTICIPLE_FORM',
               'DEPENDENCY_MODE', 'INTEGER_FORM', 'WORD_CASE', 'PREPOSITION_FORM', 'VOICE', 'ASPECT']


def prop_set(rng, lo=0, hi=3):
    out = {g: rng.choice(M.VALUES[g]) for g in rng.sample(FORM_GROUPS, rng.randint(lo, hi))}
    if hi and rng.random() < 0.12:
        out['WORD_CASE'] = 'UPPER'
    return out


def schema_props(rng, type):
    schema = M.SCHEMA[type]
    return {g: rng.choice(M.VALUES[g]) for g in schema if rng.random() < 0.5}


NUMBERS = [0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 14, 15, 19, 20, 21, 22, 24, 25, 31, 99, 100, 101, 102, 104, 110, 111, 112, 114, 119, 121, 122, 211,
           1000, 1001, 1002, 1011, 1012, 1021, 9999, 10000, 10001, 10002, 10011, 10012, 10021, 10022, 999999, 1000000, 1000001, 1000002, 10 ** 9,
           10 ** 9 + 1, 10 ** 9 + 11, 10 ** 9 + 22, 2 * 10 ** 6, 10 ** 12, 10 ** 18 + 1, 2 ** 53 + 1, 10 ** 17 + 12, 10 ** 17 + 3, 10 ** 20 + 13, 10 ** 20 + 1, 10 ** 25 + 2, 10 ** 30 + 11,
           10 ** 40, 10 ** 310 + 14, 10 ** 310 + 2, -10 ** 20 - 11, -10 ** 22 - 3, 2 ** 31, 2 ** 32 + 1, 2 ** 63 + 3, 2 ** 64 + 6, -1, -2, -5, -11, -12, -21, -22, -100, -10 ** 6, -10 ** 9, -1000001]


def number(rng):
    roll = rng.random()
    if roll < 0.5:
        return rng.choice(NUMBERS)
    if roll < 0.8:
        return rng.randint(0, 130)
    if roll < 0.9:
        return rng.randint(0, 20000)
    if roll < 0.92:
        return rng.choice([1, -1]) * (10 ** rng.randint(15, 60) * rng.randint(1, 9) + rng.randint(0, 120))
    return rng.randint(-2000, 10 ** 10)


def external(rng, tag):
    """a word form given to rendering: {'word', 'props' | None, 'fprops' | None} or {'int': n}"""
    if rng.random() < 0.4:
        return {'int': number(rng)}
    w = word(rng, tag=tag)
    e = {'word': w, 'props': None, 'fprops': None}
    if rng.random() < 0.5:
        e['props'] = merge_sets(schema_props(rng, w['type']), prop_set(rng, 0, 1))
    if rng.random() < 0.2:
        e['fprops'] = merge_sets(schema_props(rng, w['type']), prop_set(rng, 0, 1))
    return e


def merge_sets(*sets):
    out = {}
    for s in sets:
        out.update(s)
    return out


def model_external(e):
    if 'int' in e:
        return M.integer_form(e['int'])
    return M.make_form(e['word'], e['props'], e['fprops'])


def template_text(rng, names, texts, lo=1, hi=5, bad=0.03):
    """names: variable names usable as external values; texts: spellings usable as dictionary words"""
    parts = [rng.choice(LITERALS)]
    count = rng.randint(lo, hi)
    if hi > 2 and rng.random() < 0.008:
        count, bad = rng.choice([12, 35, 70, 130, 300]), bad / 20
    for _ in range(count):
        roll = rng.random()
        if roll < bad:
            ident = 'нетслова%d' % rng.randint(0, 9)
        elif roll < 0.55 and texts:
            ident = rng.choice(texts)
        elif names:
            ident = rng.choice(names)
        else:
            ident = rng.choice(texts or ['нетслова'])
        if rng.random() < 0.2:
            ident = ident[:1].upper() + ident[1:]
        if rng.random() < 0.05:
            ident = rng.choice([' %s ', ' %s ', ' %s', '%s\n', '\t%s', '\u00a0%s']).replace('%s', ident)
        deps = []
        for _ in range(rng.choices([0, 1, 2, 3, rng.randint(4, 20)], [30, 50, 30, 10, 1])[0]):
            if names and rng.random() < 0.6:
                d = rng.choice(names)
                if rng.random() < 0.1:
                    d = d.upper()
            else:
                d = ','.join(verbose(rng) for _ in range(rng.randint(0, 3) if rng.random() < 0.93 else rng.randint(4, 12)))
                if rng.random() < 0.1:
                    d = d.upper()
            if ',' in d and rng.random() < 0.15:
                # more commas than properties
                d = rng.choice([d.replace(',', ',,', 1), d.replace(',', ',,,'), ',' + d, d + ','])
            if rng.random() < 0.1:
                d = rng.choice([' %s ', ' %s ', '%s ', '\n%s', '%s\n  ', '\t%s']).replace('%s', d)
            deps.append(d)
        parts.append('[' + '|'.join([ident] + deps) + ']')
        parts.append(rng.choice(LITERALS))
    return ''.join(parts)


def vary_text(rng, text):
    """a template that differs from the given one in one place only"""
    parts = re.split(r'(\[[^]]*\])', text)
    places = [i for i, p in enumerate(parts) if p.startswith('[') and p.endswith(']')]
    if not places or rng.random() < 0.1:
        i = rng.randrange(0, len(parts), 2)
        parts[i] += rng.choice(LITERALS)
        return ''.join(parts)
    i = rng.choice(places)
    items = parts[i][1:-1].split('|')
    k = rng.randrange(len(items))
    roll = rng.random()
    if roll < 0.5 and k:
        names = items[k].split(',')
        j = rng.choice([len(names) - 1, rng.randrange(len(names))])
        names[j] = rng.choice([verbose(rng), verbose(rng), 'нетсвойства'])
        items[k] = ','.join(names)
    elif roll < 0.5:
        # another identifier
        others = [p[1:-1].split('|')[0] for p in parts if p.startswith('[') and p.endswith(']')]
        items[0] = rng.choice(others + ['n', 'герой', 'слово', items[0] + 'а', items[0][:-1] or 'а'])
    elif roll < 0.6 and k:
        del items[k]
    elif roll < 0.75:
        items.append(verbose(rng))
    elif roll < 0.85 and len(items) > 2:
        items[1:] = items[:0:-1]
    elif roll < 0.95:
        items[0] = items[0][:1].upper() + items[0][1:] if items[0][:1].islower() else items[0].lower()
    else:
        items[k] = ' ' + items[k]
    parts[i] = '[' + '|'.join(items) + ']'
    return ''.join(parts)


def shuffled(rng, items):
    """first one in its place, the others mostly"""
    return items if rng.random() < 0.8 else [items[0]] + rng.sample(items[1:], len(items) - 1)


def family(rng, names, texts, n):
    """long templates which are alike but for one place, mostly near an end"""
    kind = rng.choice(['literal', 'list', 'list', 'dependencies', 'places', 'name'])
    count = rng.choice([4, 6, 9, 14, 30])
    items = [verbose(rng) for _ in range(count)]
    head, tail = rng.choice(names + texts), rng.choice(['', ' и', '.'])
    out = []
    for _ in range(n):
        mine = list(items)
        mine[rng.choice([-1, -1, -1, 0, rng.randrange(count)])] = rng.choice([verbose(rng), verbose(rng), 'нетсвойства'])
        if rng.random() < 0.2:
            mine.pop(rng.choice([-1, 0]))
        if kind == 'literal':
            out.append('%s [%s|%s]%s' % (' '.join(mine * 3), head, items[0], ' '.join(mine)))
        elif kind == 'list':
            out.append('[%s|%s]%s' % (head, ','.join(mine), tail))
        elif kind == 'dependencies':
            out.append('[%s|%s]%s' % (head, '|'.join(mine), tail))
        elif kind == 'places':
            out.append(' '.join('[%s|%s]' % (head, m) for m in mine) + tail)
        else:
            out.append('[%s|%s]%s' % ('-'.join(mine), items[0], tail))
    return out


_VERBOSE = [v for (g, n), v in M.VERBOSE_OF.items() if g in FORM_GROUPS]
_VERBOSE_COMMON = [M.VERBOSE_OF[(g, n)] for g in ('CASE', 'NUMBER', 'GENDER', 'TIME', 'VERB_FORM', 'DEPENDENCY_MODE', 'ANIMALITY', 'PERSON') for n in M.VALUES[g]]
_VERBOSE_ALL = list(M.VERBOSE)


def verbose(rng):
    roll = rng.random()
    if roll < 0.6:
        return rng.choice(_VERBOSE_COMMON)
    if roll < 0.9:
        return rng.choice(_VERBOSE)
    return rng.choice(_VERBOSE_ALL)


def near_misses(t):
    """spellings that resemble t and are not t"""
    out = [t.upper(), t.capitalize(), t.lower(), t.strip(), ' ' + t, t + ' ', t[:-1], t[1:], t + 'а', t.replace('ё', 'е'), t.replace('е', 'ё'), unicodedata.normalize('NFC', t), unicodedata.normalize('NFD', t), t.casefold(), t.replace(' ', '\u00a0'), t + '\u0301', t.replace('й', 'и'), '-', '']
    return [x for x in dict.fromkeys(out) if x != t]


def usable_texts(words):
    """spellings under which the words can be written in a template"""
    out = []
    for w in words:
        for f in M.all_forms(w):
            t = M.form_text(f) if M.raw_form(f['word'], f['fprops']) else ''
            if t and not set(t) & set('[]|\n') and t == t.strip() and t == t.lower():
                out.append(t)
    return out
