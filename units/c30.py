"""C30: database conversion and copy.

rows         converting writes, for every row of every 0.7 table, exactly the
             translated row (events, latest entries, partitions, counts,
             references, last identifiers and timestamps), and the version;
decode       0.7 tables are decoded as they are encoded;
chain        databases are converted version by version into the destination,
             the source is not changed, other versions are refused;
version      the version of a database is recognized by its tables;
copy         copying gives every kept table row by row; with parts skipped
             only references to what was kept stay."""

import types

import z3

from vf import libs, seqs
from vf.unit import unit, cover
from units.lib import *     # noqa
from units import lmdbm
from units.lmdbm import Coded
from units.c07 import SbsRepo, TsKeyC
from vf.syms import (IdC, TsC, U64, StrC, BytesC, JsonC, sym_str, sym_int,
                     sym_list)
from vf.bytesm import StructModel, SymBytes, RecSeq

CONV = 'hat.event.backends.lmdb.convert.'
COPY = 'hat.event.backends.lmdb.manager.copy'
F = 'backends.lmdb.convert.'
A = ['lmdb: a cursor gives the rows of its table once each; put sets the '
     'value of a key; a write transaction left without exception is '
     'committed']


class Env:
    def __init__(self, w, name):
        self.w, self.name = w, name
        self.open = False

    def __enter__(self):
        X.on_undo(lambda v=self.open: setattr(self, 'open', v))
        self.open = True
        return self

    def __exit__(self, *a):
        self.open = False
        return False

    def begin(self, db=None, parent=None, write=False, buffers=False):
        X.prove(self.open, 'environment is open')
        if self.name == 'src':
            X.prove(not write, 'source is only read')
        return Txn(self, write, db)

    def close(self):
        self.open = False


class Txn:
    def __init__(self, env, write, db):
        self.env, self.write, self.db = env, write, db
        self.open = False
        env.w.txns.append(self)

    def __enter__(self):
        X.on_undo(lambda v=self.open: setattr(self, 'open', v))
        self.open = True
        self.done = None
        return self

    def __exit__(self, et, ev, tb):
        self.open = False
        self.done = 'commit' if et is None else 'abort'
        return False

    def cursor(self, db=None):
        db = db or self.db
        X.prove(self.open and db.env is self.env, 'cursor of the database')
        if self.env.name != 'src':
            raise Unsupported('cursor of the destination')
        return Cursor(self, db)

    def put(self, key, value, dupdata=True, overwrite=True, append=False,
            db=None):
        db = db or self.db
        X.prove(self.open and self.write and db.env is self.env and
                self.env.name == 'dst', 'row is written to the destination')
        if append or not overwrite:
            raise Unsupported('put')
        self.env.w.put(db.type, key, value, self)
        return True

    def get(self, *a, **kw):
        raise Unsupported('get')


class Db:
    def __init__(self, env, type_):
        self.env, self.type = env, type_


class Cursor:
    def __init__(self, txn, db):
        self.txn, self.db = txn, db
        w = txn.env.w
        w.opened.append(db.type.name)
        g = z3.Const(X.name('g'), I)
        n = z3.Const('rows.' + db.type.name, I)
        X.assume(n >= 0)
        t = db.type.name
        self.seg = Seg(g, z3.IntVal(0), n, [(T, (
            Item(g, 'key.' + t, {}), Item(g, 'value.' + t, {})))])
        self.seg.sp = ('rows', t)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def _parts_(self):
        X.prove(self.txn.open, 'transaction is open')
        return [self.seg]

    def __iter__(self):
        raise Unsupported('iteration')

    def iternext(self, keys=True, values=True):
        if not (keys and values):
            raise Unsupported('iternext')
        return self


class World:
    """source tables of any contents, written rows of the destination"""

    def __init__(w):
        w.opened, w.txns, w.log = [], [], []
        w.seen = []
        w.fs = {}
        w.cur = None

    def put(w, t, key, value, txn):
        w.log.append((t, key, value, txn))

    def fn(w, name, codec):
        if name not in w.fs:
            w.fs[name] = fn(codec, name)
        return w.fs[name]

    def rules(w, n):
        return Rules(*[w.rule() for _ in range(n)])

    def rule(w):
        rule = None

        def over(src):
            if not isinstance(src, Cursor):
                return False
            rule.cursor = src
            return True

        def before(start, v, k):
            w.cur = rule.cursor
            w.k = k
            w.log = []

        def after(start, end, v, k):
            w.check(rule.cursor.db.type, k)

        def final(start):
            w.seen = [*w.seen, rule.cursor.db.type.name]
        rule = ForRule(over, lambda: None, before, after, final,
                       anyorder=True)
        return rule

    def at(w, kind, names, b):
        """table and row of raw data of the given kind"""
        if not isinstance(b, Item) or not b.kind.startswith(kind + '.'):
            raise Unsupported('decoded data')
        t = b.kind[len(kind) + 1:]
        if t not in names:
            raise Unsupported('decoder of other table')
        return t, b.t


# ------------------------------------------------------------- conversion

UINTS = ['SYSTEM', 'LATEST_DATA', 'LATEST_TYPE', 'ORDERED_PARTITION',
         'ORDERED_COUNT']
EVENTS = ['LATEST_DATA', 'ORDERED_DATA']


class Conversion(World):

    def __init__(w, m):
        super().__init__()
        w.r = m.load(CONV + 'convert_v07_to_v09')
        w.o, w.n = w.r.v07, w.r.v09
        o = w.o
        U = IntC(*U64)
        w.key = {t: w.fn('key.' + t, U) for t in UINTS}
        w.key['ORDERED_DATA'] = w.fn('key.ORDERED_DATA',
                                     TupC(tuple, U, TsC(o), IdC(o)))
        w.key['REF'] = w.fn('key.REF', IdC(o))
        ET = OpC('EventType', tuple)
        w.ev = {}
        for t in EVENTS:
            f = w.ev[t] = types.SimpleNamespace(
                id=w.fn(t + '.id', IdC(o)), type=w.fn(t + '.type', ET),
                ts=w.fn(t + '.ts', TsC(o)), sts=w.fn(t + '.sts', TsC(o)),
                has=w.fn(t + '.has', BoolC()), kind=w.fn(t + '.k', U),
                data=w.fn(t + '.data', OpC('Data', bytes)),
                json=w.fn(t + '.json', JsonC),
                mod=w.fn(t + '.module', StrC), hasm=w.fn(t + '.hm', BoolC()),
                sbs=w.fn(t + '.sbstype', StrC))
        w.val = {'SYSTEM': w.fn('value.SYSTEM', TupC(tuple, IdC(o), TsC(o))),
                 'LATEST_TYPE': w.fn('value.LT', ET),
                 'ORDERED_COUNT': w.fn('value.OC', U)}
        w.order = w.fn('partition.order', U)
        w.subs = w.fn('partition.subs', JsonC)
        w.chosen = {}
        w.refs = {}

    # contract of decoders (see `decode`)

    def decoders(w):
        d = {}

        def key(n, names):
            def f(b):
                t, k = w.at('key', names, b)
                return w.key[t](k)
            d['decode_' + n + '_db_key'] = f

        def value(n, names, get):
            def f(b):
                return get(*w.at('value', names, b))
            d['decode_' + n + '_db_value'] = f
        for n in ('system', 'latest_data', 'latest_type',
                  'ordered_partition', 'ordered_count'):
            key(n, UINTS)
        key('ordered_data', ['ORDERED_DATA'])
        key('ref', ['REF'])
        value('system', ['SYSTEM'], lambda t, k: w.val[t](k))
        value('latest_type', ['LATEST_TYPE'], lambda t, k: w.val[t](k))
        value('ordered_count', ['ORDERED_COUNT'], lambda t, k: w.val[t](k))
        value('latest_data', EVENTS, w.event)
        value('ordered_data', EVENTS, w.event)
        value('ordered_partition', ['ORDERED_PARTITION'], w.partition)
        value('ref', ['REF'], w.ref_set)
        return d

    def choice(w, what, n):
        """decided once per row"""
        if what not in w.chosen:
            w.chosen[what] = X.choose(n, what)
            X.on_undo(lambda: w.chosen.pop(what, None))
        return w.chosen[what]

    def event(w, t, k):
        o, f = w.o, w.ev[t]
        if not z3.simplify(k).eq(z3.simplify(w.k)):
            raise Unsupported('event of other row')
        P = o.EventPayloadType
        p = w.choice('payload', 5)
        if p == 0:
            pl = None
        elif p == 1:
            pl = o.EventPayload(P.BINARY, f.data(k))
        elif p == 2:
            pl = o.EventPayload(P.JSON, f.json(k))
        else:
            pl = o.EventPayload(P.SBS, o.SbsData(
                f.mod(k) if p == 3 else None, f.sbs(k), f.data(k)))
        return o.Event(f.id(k), f.type(k), f.ts(k), f.sts(k) if
                       w.choice('source timestamp', 2) else None, pl)

    def partition(w, t, k):
        i = w.choice('order', 2)
        return {'order': list(w.o.OrderBy)[i].value,
                'subscriptions': w.subs(k)}

    def ref_set(w, t, k):
        if 'refs' not in w.refs:
            o = w.o
            w.refs['refs'] = sym_list(UnionC(
                TupC(o.LatestEventRef, IntC(*U64)),
                TupC(o.OrderedEventRef, TsKeyC(o))), 'refs')
            X.on_undo(lambda: w.refs.clear())
        return MSet(w.refs['refs'])

    # expected rows

    def ts(w, v):
        return w.n.Timestamp(v.s, v.us)

    def id(w, v):
        return w.n.EventId(v.server, v.session, v.instance)

    def is_event(w, got, t, k):
        n, e = w.n, w.event(t, k)
        if not isinstance(got, n.Event):
            raise Unsupported('written event')
        X.prove(eq(got.id, w.id(e.event_id)), 'identifier of the event')
        X.prove(eq(got.type, e.event_type), 'type of the event')
        X.prove(eq(got.timestamp, w.ts(e.timestamp)), 'timestamp of the event')
        if e.source_timestamp is None:
            X.prove(got.source_timestamp is None, 'no source timestamp')
        else:
            X.prove(got.source_timestamp is not None and
                    eq(got.source_timestamp, w.ts(e.source_timestamp)),
                    'source timestamp of the event')
        p, q = got.payload, e.payload
        if q is None:
            X.prove(p is None, 'no payload')
            return
        P = w.o.EventPayloadType
        if q.type is P.JSON:
            X.prove(isinstance(p, n.EventPayloadJson), 'json payload')
            X.prove(eq(p.data, q.data), 'data of the payload')
            return
        X.prove(isinstance(p, n.EventPayloadBinary), 'binary payload')
        if q.type is P.BINARY:
            X.prove(eq(p.type, ''), 'binary payload has no type')
            X.prove(eq(p.data, q.data), 'data of the payload')
            return
        X.prove(eq(p.data, q.data.data), 'data of the payload')
        X.prove(eq(p.type, q.data.type if q.data.module is None else
                   libs.vc.fstr(q.data.module, '.', q.data.type)),
                'type of the payload')

    def is_refs(w, got, k):
        src = w.refs.get('refs')
        if src is None:
            raise Unsupported('references are not decoded')
        if not isinstance(got, MSet):
            raise Unsupported('written references')
        o, n = w.o, w.n

        def conv(v):
            if isinstance(v, o.LatestEventRef):
                return n.LatestEventRef(v.key)
            p, t, i = v.key
            return n.TimeseriesEventRef((p, w.ts(t), w.id(i)))

        def back(v):
            if isinstance(v, n.LatestEventRef):
                return o.LatestEventRef(v.key)
            if not isinstance(v, n.TimeseriesEventRef):
                raise Unsupported('written reference')
            p, t, i = v.key
            return o.OrderedEventRef((p, o.Timestamp(t.s, t.us), o.EventId(
                i.server, i.session, i.instance)))
        if X.choose(2, 'lost'):
            seg = src.parts[0]
            j = X.fresh('j', I)
            X.assume(seg.dom(j))
            add_index(j, seg.sp)
            X.prove(has(got, conv(pick(seg, j))), 'no reference is lost')
        else:
            each(got, lambda v, j: X.prove(has(MSet(src), back(v)),
                                           'no reference is invented'))

    def check(w, t, k):
        """writes of a round for row k of table t"""
        n, D, t = w.n, w.n.DbType, t.name
        want = {}
        key = w.key[t](k)

        def row(d, kv, check):
            want[d] = kv, check
        if t == 'SYSTEM':
            row(D.SYSTEM_LAST_EVENT_ID, key, lambda v: X.prove(
                eq(v, w.id(w.val[t](k)[0])), 'last event identifier'))
            row(D.SYSTEM_LAST_TIMESTAMP, key, lambda v: X.prove(
                eq(v, w.ts(w.val[t](k)[1])), 'last timestamp'))
        elif t == 'REF':
            row(D.REF, w.id(key), lambda v: w.is_refs(v, k))
        elif t == 'LATEST_DATA':
            row(D.LATEST_DATA, key, lambda v: w.is_event(v, t, k))
        elif t == 'LATEST_TYPE':
            row(D.LATEST_TYPE, key, lambda v: X.prove(
                eq(v, w.val[t](k)), 'type of the latest entry'))
        elif t == 'ORDERED_DATA':
            p, ts, i = key
            row(D.TIMESERIES_DATA, (p, w.ts(ts), w.id(i)),
                lambda v: w.is_event(v, t, k))
        elif t == 'ORDERED_PARTITION':
            def check(v):
                p = w.partition(t, k)
                X.prove(set(libs.native(v.keys())) ==
                        {'order', 'subscriptions'}, 'partition data')
                X.prove(eq(v['subscriptions'], p['subscriptions']),
                        'query types of the partition')
                name = w.o.OrderBy(p['order']).name
                X.prove(eq(v['order'], n.OrderBy[name].value),
                        'ordering of the partition')
            row(D.TIMESERIES_PARTITION, key, check)
        elif t == 'ORDERED_COUNT':
            row(D.TIMESERIES_COUNT, key, lambda v: X.prove(
                eq(v, w.val[t](k)), 'number of events'))
        got = [i[0] for i in w.log]
        if set(got) < set(want) and got:
            raise Unsupported('table is converted in several loops')
        X.prove(sorted(i.name for i in got) == sorted(i.name for i in want),
                'every row is written once, to its table')
        cover(t)
        i = X.choose(len(w.log), 'write')
        d, ek, ev, _ = w.log[i]
        for x, kind in ((ek, 'key'), (ev, 'value')):
            if not isinstance(x, Coded):
                raise Unsupported('written data')
            X.prove(x.what == (kind, d.name), 'encoded for its table')
        X.prove(eq(ek.v, want[d][0]), 'key of the row')
        want[d][1](ev.v)


@unit('C30', [F + 'convert_v07_to_v09:' + i for i in (
    'convert', '_convert_system_db', '_convert_ref_db', '_convert_latest_db',
    '_convert_timeseries_db', '_convert_event', '_convert_payload',
    '_convert_event_ref', '_convert_event_id', '_convert_timestamp',
    '_convert_partition_data', '_convert_order_by')] + [F + 'v09:write'],
    assumes=A + ['encoded rows of the destination decode to what was '
                 'encoded (C07)'], timeout=120, bounds=())
def rows(m):
    w = Conversion(m)
    r, o, n = w.r, w.o, w.n
    src, dst = Env(w, 'src'), Env(w, 'dst')
    ps, pd = object(), object()

    def env(e, path):
        def create(p, readonly=False):
            X.prove(p is path, 'path of the database')
            return e
        return create

    def open_db(t, e):
        def f(env, db_type, create=True):
            X.prove(env is e and isinstance(db_type, t), 'opened table')
            return Db(env, db_type)
        return f
    X.for_rule = w.rules(8)
    with Patch(o, create_env=env(src, ps), open_db=open_db(o.DbType, src),
               **w.decoders()), \
            Patch(n, create_env=env(dst, pd), open_db=open_db(n.DbType, dst),
                  db_defs=lmdbm.defs(n.DbType)):
        r.convert(ps, pd)
    if sorted(w.opened) != sorted(w.seen) or len(set(w.seen)) != len(w.seen):
        raise Unsupported('rows are read in other ways')
    cover('end')
    X.prove(set(w.seen) == {t.name for t in o.DbType},
            'every table is converted')
    D, S = n.DbType, n.SettingsId
    log = [i for i in w.log if i[0] is D.SYSTEM_SETTINGS]
    X.prove(len(log) == 1, 'settings')
    _, k, v, _ = log[0]
    X.prove(k.v is S.VERSION and v.v == '0.9', 'version of the database')
    X.prove(all(not t.open and t.done == 'commit' for t in w.txns if t.write),
            'writes are committed')


# ---------------------------------------------------------- 0.7 tables

# published schema of events of 0.7 databases
SCHEMA = r"""
module HatEventer
Timestamp = Record { s: Integer  us: Integer }
EventId = Record { server: Integer  session: Integer  instance: Integer }
EventType = Array(String)
EventPayload = Choice {
    binary:  Bytes
    json:    String
    sbs:     Record { module: Optional(String)  type: String  data: Bytes }
}
Event = Record {
    id:               EventId
    type:             EventType
    timestamp:        Timestamp
    sourceTimestamp:  Optional(Timestamp)
    payload:          Optional(EventPayload)
}
"""


def schema_types(repo):
    return {n: t for i in repo.to_json() if i['name'] == 'HatEventer'
            for n, t in i['type_defs'].items()}


def pack(fmt, *a):
    return StructModel.pack('>' + fmt, *a)


def p_ts(t):
    return pack('QI', t.s + (1 << 63), t.us)


def p_id(i):
    return pack('QQQ', i.server, i.session, i.instance)


@unit('C30', [F + 'v07:decode_*_db_key', F + 'v07:decode_*_db_value',
              F + 'v07:_decode_*', F + 'v07:_event_from_sbs'],
      assumes=['hat.sbs decode(encode(x)) == x', 'hat.json decode(encode(x)) '
               '== x'], bounds=())
def decode(m):
    o = m.load(CONV + 'v07')
    from hat import sbs
    import hat.json
    got, want = schema_types(o._sbs_repo), schema_types(sbs.Repository(SCHEMA))
    U = IntC(*U64)
    D = o.DbType
    if any(got.get(k) != v for k, v in want.items()):
        raise Unsupported('other schema of events')
    X.prove([(i.name, i.value) for i in D] == [
        ('SYSTEM', 0), ('LATEST_DATA', 1), ('LATEST_TYPE', 2),
        ('ORDERED_DATA', 3), ('ORDERED_PARTITION', 4), ('ORDERED_COUNT', 5),
        ('REF', 6)], 'tables')
    u, t, i = fresh(U, 'u'), fresh(TsC(o), 't'), fresh(IdC(o), 'id')
    repo = SbsRepo()
    with Patch(o, _sbs_repo=repo):
        for n in ('system', 'latest_data', 'latest_type',
                  'ordered_partition', 'ordered_count'):
            X.prove(eq(getattr(o, f'decode_{n}_db_key')(pack('Q', u)), u),
                    f'{n} key')
        X.prove(eq(o.decode_ref_db_key(p_id(i)), i), 'ref key')
        k = (u, t, i)
        X.prove(eq(o.decode_ordered_data_db_key(
            pack('Q', u) + p_ts(t) + p_id(i)), k), 'ordered data key')
        a, b = o.decode_system_db_value(p_id(i) + p_ts(t))
        X.prove(eq(a, i), 'last event identifier')
        X.prove(eq(b, t), 'last timestamp')
        X.prove(eq(o.decode_ordered_count_db_value(pack('Q', u)), u),
                'count')
        j = fresh(JsonC, 'json')
        J = m.hat.json
        X.prove(eq(o.decode_ordered_partition_db_value(
            J.encode(j).encode('utf-8')), j), 'partition')
        et = sym_list(StrC, 'type', as_tuple=True)
        X.prove(eq(o.decode_latest_type_db_value(
            J.encode(libs.vc_list(et)).encode('utf-8')), et), 'latest type')
        # references
        w = o._decode_event_ref
        rest = fresh(BytesC, 'rest')
        for v, raw in ((o.LatestEventRef(u), pack('B', 1) + pack('Q', u)),
                       (o.OrderedEventRef(k), pack('B', 3) + pack('Q', u) +
                        p_ts(t) + p_id(i))):
            ref, left = w(raw + rest)
            X.prove(type(ref) is type(v), 'kind of a reference')
            X.prove(eq(ref, v), 'reference')
            X.prove(eq(left, rest), 'rest of the references')
        # events
        P = o.EventPayloadType
        p = X.choose(5, 'payload')
        s, d = sym_str('s'), fresh(BytesC, 'data')
        if p == 0:
            pl, raw = None, ('none', None)
        elif p == 1:
            pl, raw = o.EventPayload(P.BINARY, d), ('value', ('binary', d))
        elif p == 2:
            pl = o.EventPayload(P.JSON, j)
            raw = ('value', ('json', J.encode(j)))
        else:
            mod = sym_str('module') if p == 3 else None
            pl = o.EventPayload(P.SBS, o.SbsData(mod, s, d))
            raw = ('value', ('sbs', {
                'module': ('none', None) if mod is None else ('value', mod),
                'type': s, 'data': d}))
        sts = fresh(TsC(o), 'sts') if X.choose(2, 'sts') else None
        data = {'id': {'server': i.server, 'session': i.session,
                       'instance': i.instance},
                'type': libs.vc_list(et),
                'timestamp': {'s': t.s, 'us': t.us},
                'sourceTimestamp': ('none', None) if sts is None else (
                    'value', {'s': sts.s, 'us': sts.us}),
                'payload': raw}
        want = o.Event(i, et, t, sts, pl)
        raw = repo.encode('HatEventer.Event', data)
        for f in (o.decode_latest_data_db_value,
                  o.decode_ordered_data_db_value):
            e = f(raw)
            for n in want._fields:
                X.prove(eq(getattr(e, n), getattr(want, n)), 'event: ' + n)


@unit('C30', [F + 'v07:decode_ref_db_value', F + 'v07:_decode_event_ref'],
      bounds=())
def decode_refs(m):
    """set of references of any size, from their encodings one after other"""
    o = m.load(CONV + 'v07')
    src = sym_list(UnionC(TupC(o.LatestEventRef, IntC(*U64)),
                          TupC(o.OrderedEventRef, TsKeyC(o))), 'refs')
    seg = src.parts[0]

    def rec(k):
        v = pick(seg, k)
        if isinstance(v, o.LatestEventRef):
            return pack('B', 1) + pack('Q', v.key)
        u, t, i = v.key
        return pack('B', 3) + pack('Q', u) + p_ts(t) + p_id(i)
    loop = Records(seg, 'references')
    X.while_rule = loop.rule()
    out = o.decode_ref_db_value(SymBytes([RecSeq(rec, z3.IntVal(0),
                                                 seg.hi)]))
    if not loop.done:
        raise Unsupported('loop over records')
    if not isinstance(out, MSet):
        raise Unsupported('decoded references')
    cover('decoded')
    if X.choose(2, 'lost'):
        j = X.fresh('j', I)
        X.assume(seg.dom(j))
        add_index(j, seg.sp)
        X.prove(has(out, pick(seg, j)), 'no reference is lost')
    else:
        each(out, lambda v, j: X.prove(has(MSet(src), v),
                                       'no reference is invented'))


# ------------------------------------------------------------------ chain

class Path:
    """path in a directory of database files given by their version"""

    def __init__(self, fs, name):
        self.fs, self.name = fs, name

    suffix = property(lambda s: '.' + s.name.rpartition('.')[2])

    def with_suffix(self, x):
        return Path(self.fs, self.name.rpartition('.')[0] + x)

    def exists(self):
        return self.name in self.fs

    def unlink(self, missing_ok=False):
        X.prove(self.name != 'src.db', 'source is kept')
        if self.name not in self.fs and not missing_ok:
            raise FileNotFoundError(self.name)
        self.fs.pop(self.name, None)

    def __eq__(self, o):
        return isinstance(o, Path) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __str__(self):
        return self.name


@unit('C30', [F + 'main:convert', F + 'main:conversions'], bounds=())
def chain(m):
    r = m.load(CONV + 'main')
    V = r.Version
    steps = {V.v06: (V.v07, r.convert_v06_to_v07.convert),
             V.v07: (V.v09, r.convert_v07_to_v09.convert)}
    src = list(V)[X.choose(3, 'version')]
    fs = {'src.db': (src, ())}
    if X.choose(2, 'stale'):
        fs['dst.db.v07'] = ('stale', ())
    if X.choose(2, 'existing'):
        fs['dst.db'] = ('existing', ())
    fails = X.choose(3, 'step that fails')
    log = []
    todo = libs.native(r.conversions)
    for c in todo:
        X.prove(c.src_version in steps and steps[c.src_version] ==
                (c.dst_version, c.convert), 'conversion of its versions')

    def step(c):
        def f(a, b):
            log.append(c)
            v, h = fs[a.name]
            X.prove(v is c.src_version, 'source of its version')
            X.prove(b.name not in fs, 'new database')
            if len(log) == fails:
                fs[b.name] = ('partial', ())
                raise OSError('failed')
            fs[b.name] = (c.dst_version, (*h, c.convert))
        return f
    with Patch(r, conversions=MList([c._replace(convert=step(c))
                                     for c in todo]),
               get_version=lambda p: fs[p.name][0]):
        try:
            r.convert(Path(fs, 'src.db'), Path(fs, 'dst.db'))
        except Ctl:
            raise
        except Exception as e:
            limit()
            X.prove(fs['src.db'] == (src, ()), 'source is not changed')
            if type(e) is OSError:
                cover('failed')
                return
            if type(e) is not Exception:
                raise
            cover('refused')
            X.prove(src is V.v09, 'older version is converted')
            return
    cover('converted')
    X.prove(src is not V.v09, 'current version is refused')
    X.prove(fs['src.db'] == (src, ()), 'source is not changed')
    want, v = (), src
    while v is not V.v09:
        v, f = steps[v]
        want = *want, f
    X.prove(fs.get('dst.db') == (V.v09, want),
            'destination is converted version by version')
    X.prove(set(fs) <= {'src.db', 'dst.db', 'dst.db.v07'} and (
        src is not V.v06 or 'dst.db.v07' not in fs),
        'no intermediate databases are left')


@unit('C30', [F + 'version:get_version'], bounds=(), assumes=[
    'lmdb: open_db without create fails exactly when the table is missing'])
def version(m):
    import struct
    r = m.load(CONV + 'version')
    V = r.Version
    kind = X.choose(5, 'database')
    old = [b'SYSTEM', b'LATEST_DATA', b'LATEST_TYPE', b'ORDERED_DATA',
           b'ORDERED_PARTITION', b'ORDERED_COUNT', b'REF']
    older = [b'system', b'latest', b'ordered_data', b'ordered_partition',
             b'ordered_count']
    n = m.load('hat.event.backends.lmdb.common')
    now = [t.name.encode() for t in libs.native(n.DbType)] if isinstance(
        n.DbType, MList) else [t.name.encode() for t in n.DbType]
    tables = [now, old, older, now, [b'other']][kind]
    stored = ['"0.9"', None, None, '"0.8"', None][kind]
    want = [V.v09, V.v07, V.v06, None, None][kind]
    path = 'some/path'

    class E:
        def __init__(self, p, **kw):
            X.prove(p == path and not kw.get('subdir', True),
                    'database is opened')

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def open_db(self, name=None, create=True, txn=None):
            if name not in tables:
                raise OSError('missing')
            return name

        def begin(self, buffers=False, write=False, db=None):
            X.prove(not write, 'database is only read')
            return self

        def get(self, key, default=None, db=None):
            X.prove(db == b'SYSTEM_SETTINGS' and
                    key == struct.pack('>Q', 0), 'stored version')
            return stored.encode()
    with Patch(r, lmdb=types.SimpleNamespace(Environment=E)):
        try:
            v = r.get_version(path)
        except Ctl:
            raise
        except Exception as e:
            if type(e) is not Exception:
                raise
            X.prove(want is None, 'version is recognized')
            return
    cover('version')
    X.prove(v is want, 'version of the database')


# ------------------------------------------------------------------- copy

class Copy(World):

    def __init__(w, m, skip_latest, skip_timeseries):
        super().__init__()
        w.r = m.load(COPY)
        w.c = w.r.common
        w.skip = skip_latest, skip_timeseries
        D = w.c.DbType
        w.skipped = set()
        if skip_latest:
            w.skipped |= {D.LATEST_DATA, D.LATEST_TYPE}
        if skip_timeseries:
            w.skipped |= {D.TIMESERIES_DATA, D.TIMESERIES_PARTITION,
                          D.TIMESERIES_COUNT}
        w.refs = {}

    def src_refs(w):
        if 'refs' not in w.refs:
            c = w.c
            w.refs['refs'] = sym_list(UnionC(
                TupC(c.LatestEventRef, IntC(*U64)),
                TupC(c.TimeseriesEventRef, TsKeyC(c))), 'refs', lo=1)
            X.on_undo(lambda: w.refs.clear())
        return w.refs['refs']

    def defs(w):
        D = w.c.DbType
        d = lmdbm.defs(D)

        def decode(b):
            t, k = w.at('value', ['REF'], b)
            return MSet(w.src_refs())
        d[D.REF].decode_value = decode
        return d

    def kept(w, v):
        return not w.skip[0 if isinstance(v, w.c.LatestEventRef) else 1]

    def raw(w, x, kind, t, k):
        X.prove(isinstance(x, Item) and x.kind == f'{kind}.{t}' and
                eq(mkint(x.t), mkint(k)), f'{kind} of the row')

    def check(w, t, k):
        D = w.c.DbType
        cover(t.name)
        if t in w.skipped:
            X.prove(not w.log, 'skipped table is not copied')
            return
        if t is not D.REF or not w.skipped:
            X.prove(len(w.log) == 1, 'every row is copied once')
            d, key, value, _ = w.log[0]
            X.prove(d is t, 'row of the same table')
            w.raw(key, 'key', t.name, k)
            w.raw(value, 'value', t.name, k)
            return
        X.prove(len(w.log) <= 1, 'row is copied once')
        src = w.src_refs()
        seg = src.parts[0]
        if not w.log:
            cover('dropped')
            j = X.fresh('j', I)
            X.assume(seg.dom(j))
            add_index(j, seg.sp)
            X.prove(not w.kept(pick(seg, j)),
                    'row with kept references is copied')
            return
        cover('kept')
        d, key, value, _ = w.log[0]
        X.prove(d is t, 'row of the same table')
        w.raw(key, 'key', t.name, k)
        if isinstance(value, Item):
            X.prove(False, 'references to skipped parts are dropped')
            return
        if not isinstance(value, Coded) or not isinstance(value.v, MSet):
            raise Unsupported('copied references')
        X.prove(value.what == ('value', 'REF'), 'encoded references')
        got = value.v
        n = X.choose(3, 'check')
        if n == 0:
            j = X.fresh('j', I)
            X.assume(seg.dom(j))
            add_index(j, seg.sp)
            v = pick(seg, j)
            if w.kept(v):
                X.prove(has(got, v), 'kept reference is copied')
        elif n == 1:
            def one(v, j):
                X.prove(has(MSet(src), v), 'no reference is invented')
                X.prove(w.kept(v), 'references to skipped parts are dropped')
            each(got, one)
        else:
            if not got:
                X.prove(False, 'row without references is dropped')


@unit('C30', ['backends.lmdb.manager.copy:' + i for i in (
    'copy', '_copy_system', '_copy_ref', '_copy_latest', '_copy_timeseries',
    '_copy_db')], assumes=A + ['stored sets of references are not empty '
                               '(C12)', 'codecs of references (C07)'],
    timeout=120, bounds=())
def copy(m):
    sl, st = (bool(X.choose(2, i)) for i in ('latest', 'timeseries'))
    w = Copy(m, sl, st)
    r, c = w.r, w.c
    src, dst = Env(w, 'src'), Env(w, 'dst')
    exists = X.choose(2, 'exists')
    ps = object()
    pd = types.SimpleNamespace(exists=lambda: bool(exists))
    made = []

    def create(p, readonly=False):
        if p is ps:
            return src
        X.prove(p is pd and not exists and not readonly,
                'new destination')
        made.append(p)
        return dst

    def open_db(env, t, create=True):
        X.prove(create is (env is dst), 'tables of the source are opened')
        return Db(env, t)
    X.for_rule = w.rules(10)
    args = types.SimpleNamespace(src_path=ps, dst_path=pd, skip_latest=sl,
                                 skip_timeseries=st)
    with Patch(c, ext_create_env=create, ext_open_db=open_db,
               db_defs=w.defs()):
        try:
            r.copy(args)
        except Ctl:
            raise
        except Exception as e:
            if type(e) is not Exception:
                raise
            cover('refused')
            X.prove(bool(exists), 'new destination is accepted')
            return
    X.prove(not exists, 'existing destination is refused')
    if sorted(w.opened) != sorted(w.seen) or len(set(w.seen)) != len(w.seen):
        raise Unsupported('rows are read in other ways')
    cover('end')
    X.prove({t for t in c.DbType if t.name in w.seen} | w.skipped ==
            set(c.DbType), 'every table is copied')
    X.prove(all(not t.open and t.done == 'commit' for t in w.txns if t.write)
            and any(t.write for t in w.txns), 'writes are committed')


@unit('C30', ['backends.lmdb.manager.copy:create_argument_parser',
              'backends.lmdb.manager.main:main',
              'backends.lmdb.manager.main:create_argument_parser'],
      assumes=['argparse: the value of an option is its converted argument, '
               'or its default; positional arguments in their order'],
      bounds=())
def arguments(m):
    from units.c34 import Parser, Str, conv
    r = m.load('hat.event.backends.lmdb.manager.main')
    cp = m.load(COPY)
    top = Parser()
    calls = []
    src, dst = Str(), Str()
    sl, st = (bool(X.choose(2, i)) for i in ('latest', 'timeseries'))

    def parse():
        X.prove(top.sub is not None and top.sub.dest == 'action' and
                'copy' in top.sub.parsers, 'copy command')
        p = top.sub.parsers['copy']
        if p.sub is not None:
            raise Unsupported('commands of copy')
        X.prove(set(p.opts) == {'src_path', 'dst_path', 'skip_latest',
                                'skip_timeseries'} and
                [k for k, (_, kw) in p.opts.items() if not kw['option']] ==
                ['src_path', 'dst_path'], 'source, destination and skips')
        return types.SimpleNamespace(
            action='copy', src_path=p.value('src_path', True, src),
            dst_path=p.value('dst_path', True, dst),
            skip_latest=p.value('skip_latest', sl),
            skip_timeseries=p.value('skip_timeseries', st))
    top.parse = parse
    A_ = types.SimpleNamespace(ArgumentParser=lambda *a, **kw: top)
    with Patch(r, argparse=A_), Patch(cp, copy=calls.append,
                                      Path=conv('path')):
        r.main()
    X.prove(len(calls) == 1, 'copy is made once')
    a, = calls
    X.prove(a.src_path == ('path', src) and a.dst_path == ('path', dst),
            'from the given source to the given destination')
    X.prove(a.skip_latest is sl and a.skip_timeseries is st, 'given skips')
    cover('copied')
