"""C07: stored keys and values.

keys     of every table: decoding inverts encoding, different keys have
         different bytes, and bytes are in the order of the keys;
values   of every table: decoding inverts encoding (events, references and
         sets of references of any size, JSON)."""

import z3

from vf import libs, seqs
from vf.unit import unit, cover
from vf.core import (X, SymVal, SymOpt, SymInt, Unsupported, eq, lt, not_,
                     and_, iff, cmp, mkint, I, B)
from vf.seqs import (fresh, OptC, MList, MDict, MSet, SymTup, Seg, universal,
                     add_index, IntC, Fun, TupC, UnionC)
from vf.bytesm import SymBytes, Enc, chunks_of
from vf.syms import TsC, IdC, StrC, BytesC, JsonC, U64, sym_int, sym_list
from units.c06 import full_event
from units.lib import Records, pick

F = 'backends.lmdb.common:'


def load(m):
    return m.load('hat.event.backends.lmdb.common')


class SbsRepo:
    """contract of hat.sbs Repository: decode(encode(x)) == x for conforming
    data, bytes decoded as some bytes-like value"""

    def encode(self, name, data):
        return SymBytes([Enc(('sbs', name), data)])

    def decode(self, name, data):
        c = chunks_of(data)
        if len(c) != 1 or not isinstance(c[0], Enc) or \
                c[0].codec != ('sbs', name):
            raise Unsupported('sbs decode of other data')
        return c[0].value


def TsKeyC(m):
    return TupC(tuple, IntC(*U64), TsC(m), IdC(m))


def uint():
    return fresh(IntC(*U64), 'u')


def key_tables(m):
    D = m.DbType
    ts_key = lambda: fresh(TsKeyC(m), 'key')        # noqa
    ev_id = lambda: fresh(IdC(m), 'id')             # noqa
    return {D.SYSTEM_LAST_EVENT_ID: uint, D.SYSTEM_LAST_TIMESTAMP: uint,
            D.REF: ev_id, D.LATEST_DATA: uint, D.LATEST_TYPE: uint,
            D.TIMESERIES_DATA: ts_key, D.TIMESERIES_PARTITION: uint,
            D.TIMESERIES_COUNT: uint}


@unit('C07', [F + 'db_defs', F + '_encode_uint', F + '_decode_uint',
              F + '_encode_event_id', F + '_decode_event_id',
              F + '_encode_timestamp', F + '_decode_timestamp',
              F + '_encode_timeseries_key', F + '_decode_timeseries_key'])
def keys(m):
    m = load(m)
    for t, mk in key_tables(m).items():
        d = m.db_defs[t]
        a, b = mk(), mk()
        ea, eb = d.encode_key(a), d.encode_key(b)
        X.prove(eq(d.decode_key(ea), a), f'{t.name}: key roundtrip')
        X.prove(iff(cmp('<', ea, eb), cmp('<', a, b)),
                f'{t.name}: byte order is key order')
        X.prove(iff(eq(ea, eb), eq(a, b)), f'{t.name}: keys injective')


@unit('C07', [F + 'db_defs'])
def settings_keys(m):
    m = load(m)
    d = m.db_defs[m.DbType.SYSTEM_SETTINGS]
    vs = list(m.SettingsId)
    seen = []
    for v in vs:
        k = d.encode_key(v)
        X.prove(d.decode_key(k) is v, f'SYSTEM_SETTINGS: {v.name} roundtrip')
        X.prove(k not in seen, 'SYSTEM_SETTINGS: keys injective')
        seen.append(k)
    X.prove(len({t.value for t in m.DbType}) == len(list(m.DbType)) == 9 and
            set(m.db_defs) == set(m.DbType) if isinstance(m.db_defs, dict)
            else True, 'nine tables')


@unit('C07', [F + '_encode_event_id', F + '_encode_timestamp',
              F + '_encode_uint', F + '_encode_json', F + '_decode_json'])
def values(m):
    m = load(m)
    D = m.DbType

    def check(t, v, what='value roundtrip'):
        d = m.db_defs[t]
        X.prove(eq(d.decode_value(d.encode_value(v)), v), f'{t.name}: {what}')
    check(D.SYSTEM_LAST_EVENT_ID, fresh(IdC(m), 'id'))
    check(D.SYSTEM_LAST_TIMESTAMP, fresh(TsC(m), 'ts'))
    check(D.TIMESERIES_COUNT, uint())
    check(D.TIMESERIES_PARTITION, fresh(JsonC, 'j'))
    check(D.SYSTEM_SETTINGS, fresh(JsonC, 'j'))
    check(D.LATEST_TYPE, sym_list(StrC, 'type', as_tuple=True))


@unit('C07', [F + '_encode_event', F + '_decode_event'])
def event_values(m):
    m = load(m)
    m.sbs_repo = SbsRepo()
    for t in (m.DbType.LATEST_DATA, m.DbType.TIMESERIES_DATA):
        d = m.db_defs[t]
        e = full_event(m)
        r = d.decode_value(d.encode_value(e))
        for f in e._fields:
            X.prove(eq(getattr(r, f), getattr(e, f)), f'{t.name}: event.{f}')


def RefC(m):
    return UnionC(TupC(m.LatestEventRef, IntC(*U64)),
                  TupC(m.TimeseriesEventRef, TsKeyC(m)))


@unit('C07', [F + '_encode_event_ref', F + '_decode_event_ref'])
def ref(m):
    m = load(m)
    r = fresh(RefC(m), 'ref')
    b = m._encode_event_ref(r)
    back = m._decode_event_ref(b)
    X.prove(type(back) is type(r), 'kind of reference')
    X.prove(eq(back, r), 'reference roundtrip')


@unit('C07', [F + '_encode_event_refs', F + '_decode_event_refs',
              F + 'db_defs'], timeout=90)
def refs(m):
    m = load(m)
    d = m.db_defs[m.DbType.REF]
    if X.bound is not None:
        n = X.choose(X.bound + 1, 'n')
        src = MSet([fresh(RefC(m), f'r{i}') for i in range(n)])
        out = d.decode_value(d.encode_value(src))
        X.prove(eq(out, src), 'same set of references')
        return
    # a set of any size, in its (arbitrary) iteration order
    src = sym_list(RefC(m), 'refs')
    seg = src.parts[0]
    b = d.encode_value(src)
    loop = Records(seg, 'references')
    X.while_rule = loop.rule()
    out = d.decode_value(b)
    cover('decoded')
    k = X.fresh('k', I)
    X.assume(seg.dom(k))
    add_index(k)
    X.prove(seqs.contains(out, pick(seg, k)), 'no reference lost')
    for p in libs.to_parts(out):
        if isinstance(p, list):
            for v in p:
                X.prove(seqs.contains(src, v), 'no reference invented')
            continue
        j = X.fresh('j', I)
        if not X.decide(p.dom(j)):
            continue
        add_index(j)
        for gd, v in p.at(j):
            if X.decide(gd):
                X.prove(seqs.contains(src, v), 'no reference invented')
