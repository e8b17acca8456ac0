#!/opt/venv/bin/python
"""Writes /verif/spec/grammar.json: the frozen reference (names, codes, layouts, migration maps).

Run once by the author against the pinned commit; checks only ever read the committed file, so a change in /repo cannot
change the reference.  Layouts are re-derived here by an independent algorithm (filter over the cartesian product) and
compared with what the code produced, so that the frozen file is not merely a copy of the code's output.
"""
import itertools, json, os, sys
sys.path.insert(0, '/repo')
from utg import relations as r, data, restrictions
from utg.migrations import m_0007_reduce_words_forms as m7, m_0008_lower_animiality_nearest_priority as m8, m_0009_pronoun_modernization as m9

def nm(rec): return None if rec is None else rec._relation.__name__ + '.' + rec.name

groups = {}
for pt in r.PROPERTY_TYPE.records:
    g = pt.relation
    groups[g.__name__] = {'code': pt.value, 'values': [[x.name, x.value, x.verbose_id] for x in g.records]}

# independent derivation of the layouts ------------------------------------------------------------
def derive(schema, restr, parts):
    out = []
    for combo in itertools.product(*[list(g.records) for g in schema]):
        key = []
        for g, val in zip(schema, combo):
            if any(u is not None and u in restr and g in restr[u] for u in key): key.append(None)
            else: key.append(val)
        key = tuple(key)
        if key in out: continue
        if any(all(p in key for p in part) for part in parts): continue
        out.append(key)
    return out

def sim(a, b):
    s = 0
    for i, (x, y) in enumerate(zip(a, b)):
        if x == y: s += (1 + 0.01 * i)
    return s

types = {}
for t in r.WORD_TYPE.records:
    keys = derive(t.schema, restrictions.RESTRICTIONS[t], restrictions.RESTRICTED_KEY_PARTS.get(t, ()))
    assert keys == data.INVERTED_WORDS_CACHES[t], t.name
    # full table: exact expansions first, in layout order (later wins), then the rest, in schema order, nearest to what is already there
    table = {}
    for i, key in enumerate(keys):
        for full in itertools.product(*[[k] if k is not None else list(g.records) for k, g in zip(key, t.schema)]):
            table[full] = i
    for full in itertools.product(*[list(g.records) for g in t.schema]):
        if full in table: continue
        best, bs = None, -1
        for cand in table:
            s = sim(full, cand)
            if s > bs: best, bs = cand, s
        table[full] = table[best]
    assert table == data.RAW_WORDS_CACHES[t], t.name
    types[t.name] = {'code': t.value, 'verbose': t.verbose_id,
                     'schema': [g.__name__ for g in t.schema],
                     'keys': [[nm(x) for x in k] for k in keys],
                     'table': [[[nm(x) for x in k], i] for k, i in table.items()],
                     'properties': {p.relation.__name__: req for p, req in
                                    ((pt, v) for pt in r.PROPERTY_TYPE.records for g2, v in t.properties.items() if pt.relation is g2)}}
    assert len(types[t.name]['properties']) == len(t.properties)

migr = {}
for name, m in (('7', m7), ('8', m8), ('9', m9)):
    migr[name] = {}
    for t in r.WORD_TYPE.records:
        old, new = m.OLD_CACHES[t], m.NEW_CACHES[t]
        mp = [None] * len(new)
        for nk, ni in new.items():
            best, bs = None, -1
            for ok in old:
                s = sim(nk, ok)
                if s > bs: best, bs = ok, s
            mp[ni] = old[best]
        migr[name][t.name] = {'old_len': (max(old.values()) + 1) if old else 0, 'map': mp}
assert m9.NEW_CACHES == data.WORDS_CACHES

spec = {'groups': groups, 'types': types, 'migrations': migr}
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'grammar.json')
with open(out, 'w') as f:
    json.dump(spec, f, ensure_ascii=False, indent=None, separators=(',', ':'), sort_keys=True)
    f.write('\n')
print({k: (len(v['keys']), len(v['table'])) for k, v in types.items()})
print({n: {t: (x['old_len'], len(x['map'])) for t, x in m.items()} for n, m in migr.items()})
