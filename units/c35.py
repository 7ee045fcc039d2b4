"""C35: conversion of 0.6 databases.

latest_*, ordered_*
             converting writes, for every stored 0.6 event, exactly the
             translated row of its table, adds the reference to the row to
             those of the event and raises the last identifier of the event's
             own server (so, by induction over the rows, references and last
             identifiers are exactly those of the written rows), and every
             partition and count;
decode       0.6 keys, events and values are decoded as they are encoded;
encode       0.7 rows are written as the following conversion reads them;
encode_refs  sets of references of any size too."""

import types

import z3

from vf import libs, seqs
from vf.unit import unit, cover
from units.lib import *     # noqa
from units.lmdbm import Coded
from units import c30
from units.c07 import SbsRepo, TsKeyC
from vf.syms import (IdC, TsC, U64, StrC, BytesC, JsonC, sym_str, sym_int,
                     sym_list)

C6 = 'hat.event.backends.lmdb.convert.convert_v06_to_v07'
V6 = 'hat.event.backends.lmdb.convert.v06'
V7 = 'hat.event.backends.lmdb.convert.v07'
F = c30.F
A = c30.A + ['0.6 keys of timeseries have the instance of their event; '
             'server identifiers of local events do not collide with those '
             'of other servers once 0 is replaced with 1']
TABLES = ['system', 'latest', 'ordered_data', 'ordered_partition',
          'ordered_count']


class Env(c30.Env):

    def open_db(self, name, create=True, txn=None):
        X.prove(self.name == 'src' and name.decode() in TABLES,
                'table of the source')
        return c30.Db(self, types.SimpleNamespace(name=name.decode()))

    def begin(self, db=None, parent=None, write=False, buffers=False):
        X.prove(self.open, 'environment is open')
        if self.name == 'src':
            X.prove(not write, 'source is only read')
        elif write:
            X.prove(not any(t.open and t.write for t in self.w.txns),
                    'one write transaction at a time')
        return Txn(self, write, db)


class Txn(c30.Txn):

    def get(self, key, default=None, db=None):
        db = db or self.db
        X.prove(self.open and db.env is self.env, 'open transaction')
        if self.env.name == 'src':
            if db.type.name != 'system' or key != b'server_id':
                raise Unsupported('get')
            return Item(z3.IntVal(0), 'value.server_id', {})
        return self.env.w.get(db.type, key)


class Conversion(c30.World):

    def __init__(w, m):
        super().__init__()
        w.r = m.load(C6)
        w.o, w.n = w.r.v06, w.r.v07
        o = w.o
        U = IntC(*U64)
        Ev = TupC(o.EventId, U, U)
        w.local = sym_int('local server', 0)
        X.assume(int_term(w.local) < 2 ** 63)
        ET = OpC('EventType', tuple)
        w.ev = {}
        for t in ('latest', 'ordered_data'):
            w.ev[t] = types.SimpleNamespace(
                id=w.fn(t + '.id', Ev), type=w.fn(t + '.type', ET),
                ts=w.fn(t + '.ts', TsC(o)), sts=w.fn(t + '.sts', TsC(o)),
                data=w.fn(t + '.data', OpC('Data', bytes)),
                json=w.fn(t + '.json', JsonC), mod=w.fn(t + '.mod', StrC),
                sbs=w.fn(t + '.sbs', StrC))
        w.part = {t: w.fn('key.' + t, U) for t in TABLES[2:]}
        w.kts = w.fn('key.ts', TsC(o))
        w.value = {'ordered_partition': w.fn('partition', JsonC),
                   'ordered_count': w.fn('count', U)}
        w.chosen = {}
        w.old = {}
        w.counters = []

    # contracts of decoders (see `decode`)

    def decoders(w):
        def at(kind, names, b):
            t, k = w.at(kind, names, b)
            X.prove(w.cur is None or w.cur.txn.open,
                    'buffer of an open transaction')
            return t, k

        def uint(b):
            if isinstance(b, Item) and b.kind == 'value.server_id':
                return w.local
            t, k = at('key', TABLES[3:], b)
            return w.part[t](k)

        def json(b):
            t, k = at('value', TABLES[3:], b)
            return w.value[t](k)

        def key(b):
            t, k = at('key', ['ordered_data'], b)
            i = w.ev[t].id(k).instance
            return w.part[t](k), w.kts(k), i
        return {'decode_uint': uint, 'decode_json': json,
                'decode_uint_timestamp_uint': key,
                'decode_event': lambda b: w.event(
                    *at('value', ['latest', 'ordered_data'], b))}

    def codecs(w):
        """0.7 rows (see `encode`)"""
        def enc(n, kind, x):
            return {f'encode_{n}_db_{kind}': lambda v: Coded(
                (kind, n.upper()), v)}

        def dec(n):
            def f(b):
                if not isinstance(b, Coded):
                    raise Unsupported('decoded row')
                X.prove(b.what == ('value', n.upper()), 'row of its table')
                return b.v
            return {f'decode_{n}_db_value': f}
        d = {}
        for n in ('system', 'latest_data', 'latest_type', 'ordered_data',
                  'ordered_partition', 'ordered_count', 'ref'):
            d.update(enc(n, 'key', None))
            d.update(enc(n, 'value', None))
        d.update(dec('system'))
        d.update(dec('ref'))
        return d

    choice = c30.Conversion.choice

    def event(w, t, k):
        o, f = w.o, w.ev[t]
        if not z3.simplify(k).eq(z3.simplify(w.k)):
            raise Unsupported('event of other row')
        P = o.EventPayloadType
        p = w.choice('payload', 5)
        if p == 0:
            pl = None
        elif p == 1:
            pl = o.EventPayload(P.BINARY, f.data(k))
        elif p == 2:
            pl = o.EventPayload(P.JSON, f.json(k))
        else:
            pl = o.EventPayload(P.SBS, o.SbsData(
                f.mod(k) if p == 3 else None, f.sbs(k), f.data(k)))
        return o.Event(f.id(k), f.type(k), f.ts(k), f.sts(k) if
                       w.choice('source timestamp', 2) else None, pl)

    # rows of the destination

    def refc(w):
        n = w.n
        return UnionC(TupC(n.LatestEventRef, IntC(*U64)),
                      TupC(n.OrderedEventRef, TsKeyC(n)))

    def own(w):
        return mkint(z3.If(int_term(w.local) < 1, z3.IntVal(1),
                           int_term(w.local)))

    def id(w, v):
        s = int_term(v.server)
        return w.n.EventId(mkint(z3.If(s > 0, s, int_term(w.own()))),
                           v.instance, v.instance)

    def ts(w, v):
        return w.n.Timestamp(v.s, v.us)

    def row(w, t):
        """row of the event's references or server before the round"""
        if t not in w.old:
            n = w.n
            e = w.event(w.cur.db.type.name, w.k)
            if not X.choose(2, 'earlier ' + t):
                v = None
            elif t == 'REF':
                v = MSet(sym_list(w.refc(), 'refs'))
            else:
                i = fresh(IdC(n), 'last id')
                X.assume(eq(i.server, w.id(e.event_id).server))
                v = i, fresh(TsC(n), 'last timestamp')
            w.old[t] = v
        return w.old[t]

    def row_key(w, t):
        e = w.event(w.cur.db.type.name, w.k)
        i = w.id(e.event_id)
        return i if t == 'REF' else i.server

    def get(w, t, key):
        if w.cur is None or t.name not in ('REF', 'SYSTEM') or \
                w.cur.db.type.name not in w.ev:
            raise Unsupported('get')
        if not isinstance(key, Coded):
            raise Unsupported('key')
        if any(i[0] is t for i in w.log):
            raise Unsupported('row read after it is written')
        X.prove(key.what == ('key', t.name), 'key of its table')
        X.prove(eq(key.v, w.row_key(t.name)), 'own row is read')
        v = w.row(t.name)
        if v is None:
            return None
        return Coded(('value', t.name), MSet(v) if t.name == 'REF' else v)

    def rules(w, n):
        return Rules(*[w.rule() for _ in range(n)])

    def rule(w):
        r = super().rule()
        init, before, after, final = r.f
        state = {}

        def inplace(name, v):
            return isinstance(v, libs.CountModel)

        def before2(start, v, k):
            before(start, v, k)
            if w.cur.db.type.name not in w.focus:
                raise seqs_cut()    # rounds of other tables: other units
            w.old, w.chosen = {}, {}
            for n, c in r.obj.items():
                s = X.fresh('next', I)
                X.assume(z3.And(s >= 1, s < 2 ** 63))
                c.start = mkint(s)
                state[n] = s
            w.counters = [(c, state[n]) for n, c in r.obj.items()]

        def init2():
            for n, v in r.bound.items():
                if isinstance(v, libs.CountModel):
                    X.prove(cmp('>=', v.start, 1), 'first reference')
            return init()
        r.inplace = inplace
        r.f = init2, before2, after, final
        return r

    def is_event(w, got, t, k):
        n, e = w.n, w.event(t, k)
        if not isinstance(got, n.Event):
            raise Unsupported('written event')
        X.prove(eq(got.event_id, w.id(e.event_id)),
                'identifier of the event')
        X.prove(eq(got.event_type, e.event_type), 'type of the event')
        X.prove(eq(got.timestamp, w.ts(e.timestamp)),
                'timestamp of the event')
        X.prove((got.source_timestamp is None) ==
                (e.source_timestamp is None), 'presence of source timestamp')
        if e.source_timestamp is not None:
            X.prove(eq(got.source_timestamp, w.ts(e.source_timestamp)),
                    'source timestamp of the event')
        p, q = got.payload, e.payload
        X.prove((p is None) == (q is None), 'presence of payload')
        if q is None:
            return
        X.prove(isinstance(p, n.EventPayload) and
                p.type is n.EventPayloadType[q.type.name],
                'kind of the payload')
        if q.type is w.o.EventPayloadType.SBS:
            for f in ('type', 'data'):
                X.prove(eq(getattr(p.data, f), getattr(q.data, f)),
                        f'{f} of the payload')
            X.prove((p.data.module is None) == (q.data.module is None) and
                    (q.data.module is None or
                     eq(p.data.module, q.data.module)),
                    'module of the payload')
        else:
            X.prove(eq(p.data, q.data), 'data of the payload')

    def is_refs(w, got, ref):
        old = w.row('REF')
        old = MSet() if old is None else old
        if not isinstance(got, (MSet, set)):
            raise Unsupported('written references')
        k = X.choose(3, 'references')
        if k == 0:
            X.prove(has(got, ref), 'reference to the row is added')
        elif k == 1:
            each(old, lambda v, j: X.prove(has(got, v),
                                           'earlier references are kept'))
        else:
            v = fresh(w.refc(), 'any reference')
            X.assume(bool_term(has(got, v)))
            X.prove(or_(eq(v, ref), has(old, v)) if type(v) is type(ref)
                    else has(old, v), 'no reference is invented')

    def check(w, t, k):
        n = w.n
        t = t.name
        rows = {}
        for d, key, value, txn in w.log:
            for x, kind in ((key, 'key'), (value, 'value')):
                if not isinstance(x, Coded):
                    raise Unsupported('written data')
                X.prove(x.what == (kind, d.name), 'encoded for its table')
            X.prove(d.name not in rows, 'every row is written once')
            X.prove(txn.open or txn.done == 'commit', 'row is committed')
            rows[d.name] = key.v, value.v
        got = set(rows)
        cover(t)
        if t in ('ordered_partition', 'ordered_count'):
            name = t.upper()
            if not got:
                X.prove(False, 'every row is written')
            X.prove(got == {name}, 'written table')
            X.prove(eq(rows[name][0], w.part[t](k)), 'key of the row')
            X.prove(eq(rows[name][1], w.value[t](k)), 'value of the row')
            return
        e = w.event(t, k)
        i = w.id(e.event_id)
        data = ['LATEST_DATA', 'LATEST_TYPE'] if t == 'latest' else [
            'ORDERED_DATA']
        want = {*data, 'REF'}
        if got < want and got:
            raise Unsupported('table is converted in several loops')
        X.prove(got == want or got == {*want, 'SYSTEM'},
                'rows of the event are written')
        if t == 'latest':
            key = rows['LATEST_DATA'][0]
            X.prove(eq(key, rows['LATEST_TYPE'][0]),
                    'type of the entry')
            X.prove(eq(rows['LATEST_TYPE'][1], e.event_type),
                    'type of the entry')
            if not w.counters:
                raise Unsupported('references of entries')
            X.prove(or_(*[and_(cmp('>=', key, mkint(s)),
                               cmp('>', c.start, key))
                          for c, s in w.counters]),
                    'entries have different references')
            ref = n.LatestEventRef(key)
        else:
            key = rows['ORDERED_DATA'][0]
            want = w.part[t](k), w.ts(w.kts(k)), i
            X.prove(eq(key, want), 'key of the row')
            ref = n.OrderedEventRef(want)
        part = w.part_
        if part == 0:
            w.is_event(rows[data[0]][1], t, k)
        elif part == 1:
            X.prove(eq(rows['REF'][0], i), 'references of the event')
            w.is_refs(rows['REF'][1], ref)
        else:
            old = w.row('SYSTEM')
            new = i, w.ts(e.timestamp)
            later = cmp('>', i, n.EventId(i.server, 0, 0) if old is None
                        else old[0])
            if 'SYSTEM' not in rows:
                X.prove(not_(later), 'later identifier is recorded')
                return
            cover('last')
            sk, v = rows['SYSTEM']
            X.prove(eq(sk, i.server), 'server of the event')
            if X.decide(bool_term(later)) or old is None:
                X.prove(and_(eq(v[0], new[0]), eq(v[1], new[1])),
                        'last identifier and timestamp')
            else:
                X.prove(or_(and_(eq(v[0], old[0]), eq(v[1], old[1])),
                            and_(eq(i, old[0]), eq(v[0], new[0]))),
                        'last identifier does not decrease')


def rows(m, focus, part):
    w = Conversion(m)
    w.focus, w.part_ = focus, part
    r, o, n = w.r, w.o, w.n
    src, dst = Env(w, 'src'), Env(w, 'dst')
    ps, pd = object(), object()

    def env(e, path):
        def create(p):
            X.prove(p is path, 'path of the database')
            return e
        return create

    def open_db(env, db_type):
        X.prove(env is dst and isinstance(db_type, n.DbType), 'opened table')
        return c30.Db(env, db_type)
    X.for_rule = w.rules(5)
    with Patch(o, create_env=env(src, ps), **w.decoders()), \
            Patch(n, create_env=env(dst, pd), open_db=open_db, **w.codecs()):
        r.convert(ps, pd)
    if sorted(w.opened) != sorted(w.seen) or len(set(w.seen)) != len(w.seen):
        raise Unsupported('rows are read in other ways')
    cover('end')
    X.prove(set(w.seen) == set(TABLES[1:]), 'every table is converted')
    X.prove(not w.log, 'only rows of the source are written')
    X.prove(all(not t.open for t in w.txns), 'transactions are ended')


def parts_of_rows():
    # obligations of every table, and of every part of its rows, in turn
    for t, parts in (('latest', PARTS), ('ordered_data', PARTS),
                     ('ordered_partition', ['row']),
                     ('ordered_count', ['row'])):
        for i, p in enumerate(parts):
            def f(m, focus=(t,), part=i):
                rows(m, focus, part)
            f.__name__ = f'{t}_{p}'
            unit('C35', [F + 'convert_v06_to_v07:' + i for i in (
                'convert', '_convert_latest', '_convert_ordered',
                '_update_ref_db', '_update_system_db', '_get_server_id',
                '_convert_event', '_convert_event_id',
                '_convert_event_payload', '_convert_timestamp')],
                assumes=A, timeout=240, bounds=())(f)


PARTS = ['event', 'references', 'last']
parts_of_rows()


# --------------------------------------------------------------- encodings

pack, p_ts, p_id = c30.pack, c30.p_ts, c30.p_id

# published schema of events of 0.6 databases
SCHEMA = c30.SCHEMA.replace('HatEventer', 'HatEvent').replace(
    'session: Integer ', '')


def payloads(o, J, j):
    """payload of any kind and its sbs data"""
    P = o.EventPayloadType
    p = X.choose(5, 'payload')
    s, d = sym_str('s'), fresh(BytesC, 'data')
    if p == 0:
        return None, ('none', None)
    if p == 1:
        return o.EventPayload(P.BINARY, d), ('value', ('binary', d))
    if p == 2:
        return o.EventPayload(P.JSON, j), ('value', ('json', J.encode(j)))
    mod = sym_str('module') if p == 3 else None
    return o.EventPayload(P.SBS, o.SbsData(mod, s, d)), ('value', ('sbs', {
        'module': ('none', None) if mod is None else ('value', mod),
        'type': s, 'data': d}))


@unit('C35', [F + 'v06:decode_uint', F + 'v06:decode_json',
              F + 'v06:decode_uint_timestamp_uint', F + 'v06:decode_event',
              F + 'v06:_event_from_sbs', F + 'v06:_event_payload_from_sbs',
              F + 'v06:_timestamp_from_sbs', F + 'v06:_event_id_from_sbs',
              F + 'v06:_sbs_data_from_sbs', F + 'v06:_optional_from_sbs'],
      assumes=['hat.sbs decode(encode(x)) == x', 'hat.json decode(encode(x)) '
               '== x'], bounds=())
def decode(m):
    o = m.load(V6)
    from hat import sbs

    def types_(repo):
        return {n: t for i in repo.to_json() if i['name'] == 'HatEvent'
                for n, t in i['type_defs'].items()}
    got, want = types_(o._sbs_repo), types_(sbs.Repository(SCHEMA))
    if any(got.get(k) != v for k, v in want.items()):
        raise Unsupported('other schema of events')
    U = IntC(*U64)
    u, i, t = fresh(U, 'u'), fresh(U, 'i'), fresh(TsC(o), 't')
    J = m.hat.json
    j = fresh(JsonC, 'json')
    repo = SbsRepo()
    with Patch(o, _sbs_repo=repo):
        X.prove(eq(o.decode_uint(pack('Q', u)), u), 'uint')
        X.prove(eq(o.decode_json(J.encode(j).encode('utf-8')), j), 'json')
        a, b, c = o.decode_uint_timestamp_uint(
            pack('Q', u) + p_ts(t) + pack('Q', i))
        X.prove(and_(eq(a, u), eq(b, t), eq(c, i)), 'timeseries key')
        pl, raw = payloads(o, J, j)
        sts = fresh(TsC(o), 'sts') if X.choose(2, 'sts') else None
        et = sym_list(StrC, 'type', as_tuple=True)
        raw = repo.encode('HatEvent.Event', {
            'id': {'server': u, 'instance': i},
            'type': libs.vc_list(et),
            'timestamp': {'s': t.s, 'us': t.us},
            'sourceTimestamp': ('none', None) if sts is None else (
                'value', {'s': sts.s, 'us': sts.us}),
            'payload': raw})
        want = o.Event(o.EventId(u, i), et, t, sts, pl)
        e = o.decode_event(raw)
        for n in want._fields:
            X.prove(eq(getattr(e, n), getattr(want, n)), 'event: ' + n)


@unit('C35', [F + 'v07:encode_*_db_key', F + 'v07:encode_*_db_value',
              F + 'v07:_encode_*', F + 'v07:_event_to_sbs'],
      assumes=['hat.sbs decode(encode(x)) == x', 'hat.json decode(encode(x)) '
               '== x'], bounds=())
def encode(m):
    o = m.load(V7)
    U = IntC(*U64)
    u, t, i = fresh(U, 'u'), fresh(TsC(o), 't'), fresh(IdC(o), 'id')
    j = fresh(JsonC, 'json')
    J = m.hat.json
    repo = SbsRepo()
    with Patch(o, _sbs_repo=repo):
        for n in ('system', 'latest_data', 'latest_type',
                  'ordered_partition', 'ordered_count'):
            X.prove(eq(getattr(o, f'encode_{n}_db_key')(u), pack('Q', u)),
                    f'{n} key')
        X.prove(eq(o.encode_ref_db_key(i), p_id(i)), 'ref key')
        X.prove(eq(o.encode_ordered_data_db_key((u, t, i)),
                   pack('Q', u) + p_ts(t) + p_id(i)), 'ordered data key')
        v = o.encode_system_db_value((i, t))
        X.prove(eq(v, p_id(i) + p_ts(t)), 'last identifier and timestamp')
        a, b = o.decode_system_db_value(v)
        X.prove(and_(eq(a, i), eq(b, t)), 'last identifier and timestamp')
        X.prove(eq(o.encode_ordered_count_db_value(u), pack('Q', u)),
                'count')
        X.prove(eq(o.decode_ordered_partition_db_value(
            o.encode_ordered_partition_db_value(j)), j), 'partition')
        et = sym_list(StrC, 'type', as_tuple=True)
        X.prove(eq(o.decode_latest_type_db_value(
            o.encode_latest_type_db_value(et)), et), 'latest type')
        pl, _ = payloads(o, J, j)
        sts = fresh(TsC(o), 'sts') if X.choose(2, 'sts') else None
        want = o.Event(i, et, t, sts, pl)
        for n in ('latest', 'ordered'):
            e = getattr(o, f'decode_{n}_data_db_value')(
                getattr(o, f'encode_{n}_data_db_value')(want))
            for x in want._fields:
                X.prove(eq(getattr(e, x), getattr(want, x)), 'event: ' + x)


@unit('C35', [F + 'v07:encode_ref_db_value', F + 'v07:_encode_event_ref',
              F + 'v07:decode_ref_db_value', F + 'v07:_decode_event_ref'],
      bounds=(), timeout=90)
def encode_refs(m):
    o = m.load(V7)
    src = sym_list(UnionC(TupC(o.LatestEventRef, IntC(*U64)),
                          TupC(o.OrderedEventRef, TsKeyC(o))), 'refs')
    seg = src.parts[0]
    b = o.encode_ref_db_value(src)
    loop = Records(seg, 'references')
    X.while_rule = loop.rule()
    out = o.decode_ref_db_value(b)
    if not isinstance(out, MSet):
        raise Unsupported('decoded references')
    cover('decoded')
    if X.choose(2, 'lost'):
        j = X.fresh('j', I)
        X.assume(seg.dom(j))
        add_index(j, seg.sp)
        X.prove(has(out, pick(seg, j)), 'no reference is lost')
    else:
        each(out, lambda v, j: X.prove(has(MSet(src), v),
                                       'no reference is invented'))
