"""Disk faults: ways in which stored bytes come back different from what was written.  A damage is a JSON value, so it is part of the trace."""
import json

from . import model as M

BYTE_KINDS = ['flip', 'cut', 'zero', 'torn', 'swap', 'digit']
SHAPE_KINDS = ['unknown_kind', 'unknown_kind', 'unknown_value', 'unknown_value', 'type_other', 'type_unknown', 'forms_less', 'forms_more', 'forms_none',
               'drop_field', 'null_field', 'odd_value', 'odd_key', 'all_unknown', 'form_null']


def draw(rng, share):
    if rng.random() >= share:
        return None
    kinds = BYTE_KINDS if rng.random() < 0.35 else SHAPE_KINDS
    return {'kind': rng.choice(kinds), 'a': rng.randrange(1 << 16), 'b': rng.randrange(1 << 16)}


def apply(data, damage, old=b''):
    """-> damaged bytes"""
    if damage is None:
        return data
    kind, a, b = damage['kind'], damage['a'], damage['b']
    n = len(data)
    if kind == 'flip':
        i = a % n
        return data[:i] + bytes([data[i] ^ (1 << b % 8)]) + data[i + 1:]
    if kind == 'digit':
        places = [i for i in range(n) if data[i:i + 1].isdigit()]
        if not places:
            return data[:a % n]
        i = places[a % len(places)]
        return data[:i] + b'%d' % (b % 30) + data[i + 1:]
    if kind == 'cut':
        return data[:a % n]
    if kind == 'zero':
        i = a % n
        k = 1 + b % 64
        return (data[:i] + b'\0' * k + data[i + k:])[:n]
    if kind == 'torn':
        i = a % n
        return data[:i] + old[i:]
    if kind == 'swap':
        i = a % n
        k = 1 + b % 12
        return data[:i] + data[i + k:i + 2 * k] + data[i:i + k] + data[i + 2 * k:]
    rec = json.loads(data)
    reshape(rec, kind, a, b)
    return json.dumps(rec, ensure_ascii=False).encode('utf-8')


def reshape(rec, kind, a, b):
    sets = property_sets(rec)
    props = sets[b % len(sets)] if sets else None
    unknown_kinds = ['17', '18', '40', '999', '-1', '100500', '29']
    known_codes = {str(v['code']) for v in M.GROUPS.values()}
    unknown_kinds = [k for k in unknown_kinds if k not in known_codes]
    if kind == 'unknown_kind' and props is not None:
        for j in range(1 + a % 3):
            props[unknown_kinds[(a + j) % len(unknown_kinds)]] = (a * 7 + j) % 12
        if b % 5 == 0:
            # many of them, before the known ones
            known = dict(props)
            props.clear()
            props.update({str(200 + j): j % 4 for j in range(4 + a % 40)})
            props.update(known)
    elif kind in ('unknown_value', 'all_unknown') and props is not None:
        odd = [99, 17, -1, 50, 'абв', None, '0', '', 1000000]
        if kind == 'all_unknown':
            for k in list(props):
                props[k] = 99
        if props and a % 3:
            k = sorted(props)[a % len(props)]
        else:
            k = sorted(known_codes)[a % len(known_codes)]
        props[k] = odd[b % len(odd)]
    elif kind == 'odd_value' and props is not None:
        k = sorted(props)[a % len(props)] if props else '1'
        props[k] = [[1], {}, 1.0, True, False, 2.5, {'1': 1}][b % 7]
    elif kind == 'odd_key' and props is not None:
        props[['', 'абв', '1.0', '0x1', ' 1', '１', 'null'][a % 7]] = b % 3
    elif kind == 'type_other' and 'type' in rec:
        codes = sorted(M.TYPE_BY_CODE)
        rec['type'] = codes[a % len(codes)]
    elif kind == 'type_unknown' and 'type' in rec:
        rec['type'] = [9999, -1, 77, None, 'NOUN', '0', [0], {}, '', 3.5][a % 10]
    elif kind == 'forms_less' and rec.get('forms'):
        k = 1 + (a % 3 if a % 2 else a % len(rec['forms']))
        rec['forms'] = rec['forms'][k:] if b % 2 else rec['forms'][:-k]
    elif kind == 'forms_more' and 'forms' in rec:
        rec['forms'] = rec['forms'] + ['лишняя'] * (1 + a % 3)
    elif kind == 'forms_none' and 'forms' in rec:
        rec['forms'] = [[], None, 'строка', {}, 5, {'0': 'а'}, ''][a % 7]
    elif kind == 'form_null' and rec.get('forms') and isinstance(rec['forms'], list):
        rec['forms'][a % len(rec['forms'])] = [None, 0, '', [], 'иное', '\0'][b % 6]
    elif kind in ('drop_field', 'null_field') and rec:
        inner = [x for x in rec.get('substitutions') or () if isinstance(x, dict) and x]
        if inner and b % 7 < 4:
            rec = inner[(b >> 3) % len(inner)]
        k = sorted(rec)[a % len(rec)]
        if kind == 'drop_field':
            del rec[k]
        else:
            rec[k] = [None, [], {}, 0, ''][b % 5]


def property_sets(rec):
    """every property record inside rec"""
    if 'properties' in rec:
        return [rec['properties']]
    if 'substitutions' in rec:
        return [d for s in rec['substitutions'] for d in s['dependencies'] if isinstance(d, dict)]
    if 'template' in rec or 'forms' in rec:
        return []
    return [rec]
