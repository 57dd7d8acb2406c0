"""Reference construction of the form layout (independent of utg/logic.py).

From the literal tables (schema of every part of speech, exclusion rules and
forbidden combinations) it computes
  * the ordered list of keys of every part of speech,
  * the full resolution table: every complete combination of schema values ->
    position of the form.
The same construction replaces utg.logic.get_caches/get_raw_caches while OTHER
properties are analysed; the layout property itself compares the two."""

import itertools

from .domain import *
from . import builtins_model as bm


def order_keys(schema, exclude, forbidden):
    """exclude: {record: set of relations}; forbidden: list of sets of records"""
    keys = []

    def rec(prefix, rest):
        if not rest:
            keys.append(tuple(prefix))
            return
        head = rest[0]
        if any(head in exclude.get(p, ()) for p in prefix if p is not None):
            rec(prefix + [None], rest[1:])
            return
        for record in head.records:
            rec(prefix + [record], rest[1:])
    rec([], list(schema))
    return [k for k in keys if not any(f <= set(k) for f in forbidden)]


def similarity(a, b):
    return sum(100 + i for i, (x, y) in enumerate(zip(a, b)) if x is y)


def nearest(key, keys):
    best, score = None, -1
    for k in keys:
        s = similarity(key, k)
        if s > score:
            best, score = k, s
    return best


def resolution(schema, keys):
    table = {}
    for i, key in enumerate(keys):
        for full in itertools.product(*[list(rel.records) if v is None else [v] for v, rel in zip(key, schema)]):
            table[full] = i
    for full in itertools.product(*[list(rel.records) for rel in schema]):
        if full not in table:
            table[full] = table[nearest(full, table)]
    return table


def memo(I):
    # one per analysed world: keys hold that world's own records
    if not hasattr(I, 'layout_memo'):
        I.layout_memo = {}
    return I.layout_memo


def host_layout(I, word_type, restrictions, parts):
    """(keys, table) for one WORD_TYPE record"""
    schema = word_type.cols['schema']
    exclude = {r: set(rels) for r, rels in restrictions.items()}
    sig = (word_type.index, tuple((rel.name, len(rel.records)) for rel in schema),
           repr(sorted((repr(k), sorted(x.name for x in v)) for k, v in exclude.items())),
           repr(sorted(sorted(map(repr, p)) for p in parts)))
    _memo = memo(I)
    if sig not in _memo:
        keys = order_keys(schema, exclude, parts)
        _memo[sig] = (keys, resolution(schema, keys))
    return _memo[sig]


def members(I, v):
    return set(v.d.values()) if isinstance(v, ASet) else set(I.iterate(v))


def to_host(I, restrictions, parts):
    """Read the literal tables; None when they do not have the known shape."""
    res, par = {}, {}
    for wt, table in restrictions.d.values():
        res[wt] = {}
        for rec, rels in table.d.values():
            res[wt][rec] = members(I, rels)
    for wt, groups in parts.d.values():
        par[wt] = [members(I, g) for g in I.iterate(groups)]
    return res, par


def word_types(I):
    return I.load('utg.relations').env['WORD_TYPE'].records


def ref_get_caches(I, args, kw):
    names = ['restrictions', 'restricted_key_parts']
    vals = list(args) + [kw[n] for n in names[len(args):] if n in kw]
    if len(vals) != 2 or not all(isinstance(v, ADict) for v in vals):
        raise Unsupported('layout tables')
    res, par = to_host(I, *vals)
    caches, inverted = ADict(), ADict()
    for wt in word_types(I):
        keys, _ = host_layout(I, wt, res.get(wt, {}), par.get(wt, []))
        c = ADict()
        for i, k in enumerate(keys):
            bm.dict_set(I, c, k, i)
        bm.dict_set(I, caches, wt, c)
        bm.dict_set(I, inverted, wt, AList(list(keys)))
    return (caches, inverted)


def reference(I, word_type):
    m = I.load('utg.restrictions')
    res, par = to_host(I, m.env['RESTRICTIONS'], m.env['RESTRICTED_KEY_PARTS'])
    return host_layout(I, word_type, res.get(word_type, {}), par.get(word_type, []))


def ref_get_raw_caches(I, args, kw):
    inv = args[0] if args else list(kw.values())[0]
    out = ADict()
    for wt in word_types(I):
        keys = [tuple(k) for k in I.iterate(bm.dict_get(I, inv, wt))]
        schema = wt.cols['schema']
        sig = ('raw', wt.index, tuple(rel.name for rel in schema), tuple(repr(k) for k in keys))
        _memo = memo(I)
        if sig not in _memo:
            _memo[sig] = resolution(schema, keys)
        c = ADict()
        for k, i in _memo[sig].items():
            bm.dict_set(I, c, k, i)
        bm.dict_set(I, out, wt, c)
    return out


OVERRIDES = {('utg.logic', 'get_caches'): ref_get_caches, ('utg.logic', 'get_raw_caches'): ref_get_raw_caches}
