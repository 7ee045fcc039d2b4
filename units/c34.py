"""C34: queries of the database manager.

select       query prints, row by row in order of the table, exactly the rows
             that the given filters select, each with its decoded data, of the
             given database, which is only read;
refs         references of events: one result for each reference;
events       events, identifiers and timestamps are printed with all their
             data;
arguments    every filter of a query is an option of its command."""

import pathlib
import types

import z3

from vf import libs, seqs
from vf.unit import unit, cover
from units.lib import *     # noqa
from units import lmdbm
from units.lmdbm import Coded
from units.c07 import TsKeyC
from vf.syms import IdC, TsC, U64, StrC, JsonC, sym_str, sym_int

MOD = 'hat.event.backends.lmdb.manager.query'
F = 'backends.lmdb.manager.query:'
A = ['lmdb: a cursor gives the rows of its table in key order; get gives the '
     'value of a key',
     'codecs of tables (C07); the type of a latest entry that is referenced '
     'is stored (C10)',
     'create_subscription(types).matches(type) (C02)']


class EType(Sym):
    """event type of row t of the table"""
    __slots__ = ('n', 't')

    def __init__(self, n, t):
        self.n, self.t = n, t

    def _subst_(self, pairs):
        return EType(self.n, seqs.tsub(self.t, pairs))

    def __iter__(self):
        raise Unsupported('iteration over event type')

    def _parts_(self):
        g = z3.Const(X.name('g'), I)
        n = z3.Function(f'{self.n}.type.len', I, I)
        s = z3.Function(f'{self.n}.type', I, I, StrC.sorts[0])
        X.assume(n(self.t) >= 0)
        return [Seg(g, z3.IntVal(0), n(self.t), [
            (T, StrC.build([s(self.t, g)]))])]


class Listed(Sym):
    """list of the segments of an event type"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def _subst_(self, pairs):
        return Listed(seqs.subst(self.v, pairs))


def lst(x=()):
    return Listed(x) if isinstance(x, EType) else libs.vc_list(x)


class Json(Sym):
    """encoded json data"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def _subst_(self, pairs):
        return Json(seqs.subst(self.v, pairs))


class EvJson(Sym):
    """json of an event"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _subst_(self, pairs):
        return EvJson(seqs.subst(self.e, pairs))


class World:

    def __init__(w, m):
        w.r = r = m.load(MOD)
        w.c = r.common
        w.D = w.c.DbType
        w.open = {'env': False, 'txn': False}
        w.out = MList()
        w.path = object()
        w.subs = []
        U = IntC(*U64)
        c = w.c
        w.key = {'SYSTEM_SETTINGS': fn(SettingC(c), 'key.settings'),
                 'SYSTEM_LAST_EVENT_ID': fn(U, 'key.id'),
                 'SYSTEM_LAST_TIMESTAMP': fn(U, 'key.ts'),
                 'REF': fn(IdC(c), 'key.ref'),
                 'LATEST_DATA': fn(U, 'key.latest'),
                 'TIMESERIES_PARTITION': fn(U, 'key.partition'),
                 'TIMESERIES_DATA': fn(TupC(tuple, U, TsC(c), IdC(c)),
                                       'key.timeseries')}
        w.val = {'SYSTEM_SETTINGS': fn(JsonC, 'value.settings'),
                 'SYSTEM_LAST_EVENT_ID': fn(IdC(c), 'value.id'),
                 'SYSTEM_LAST_TIMESTAMP': fn(TsC(c), 'value.ts'),
                 'TIMESERIES_PARTITION': fn(JsonC, 'value.partition'),
                 'LATEST_DATA': w.event('LATEST_DATA'),
                 'TIMESERIES_DATA': w.event('TIMESERIES_DATA'),
                 'REF': w.refs}
        w.nrefs = z3.Function('refs', I, I)
        w.ref = fn(UnionC(TupC(c.LatestEventRef, U),
                          TupC(c.TimeseriesEventRef, TsKeyC(c))),
                   'ref', I, I)
        w.refc = UnionC(TupC(c.LatestEventRef, U),
                        TupC(c.TimeseriesEventRef, TsKeyC(c)))
        w.match = z3.Function('matches', I, B)

    def event(w, name):
        f = {'type': lambda k: EType(name, k)}
        return lambda k: Item(k, 'event.' + name, f)

    def refs(w, k):
        g = z3.Const(X.name('g'), I)
        ts = w.ref.terms(k, g)
        # a set gives its items in some order
        (a, x), (_, y) = w.refc.alternatives(ts)
        return MList.of([Seg(g, z3.IntVal(0), w.nrefs(k),
                             [(a, x), (z3.Not(a), y)])])

    def rows(w, name):
        g = z3.Const(X.name('g'), I)
        n = z3.Const('rows', I)
        X.assume(n >= 0)
        s = Seg(g, z3.IntVal(0), n, [(T, (
            Coded(('key', name), w.key[name](g)),
            Coded(('value', name), w.val[name](g))))])
        s.sp = ('rows',)
        return s

    # lmdb

    def create_env(w, path, max_size=None, readonly=False):
        X.prove(path is w.path, 'given database')
        X.prove(readonly is True, 'database is only read')
        return Ctx(w, 'env', w)

    def open_db(w, env, db_type, create=True):
        X.prove(env is w and w.open['env'] and create is False,
                'table of the database is opened')
        return 'db', db_type

    def begin(w, db=None, parent=None, write=False, buffers=False):
        X.prove(not write and w.open['env'], 'database is only read')
        return Ctx(w, 'txn', Txn(w, db))

    # contracts

    def subscription(w, types_):
        X.on_undo(lambda n=len(w.subs): w.subs.__delitem__(slice(n, None)))
        w.subs.append(types_)

        def matches(t):
            if not isinstance(t, EType):
                raise Unsupported('matched type')
            return mkbool(w.match(t.t))
        return types.SimpleNamespace(matches=matches)

    def printed(w, *a, **kw):
        if kw.keys() - {'flush'} or len(a) != 1 or \
                not isinstance(a[0], Json):
            raise Unsupported('printed data')
        w.out.append(a[0].v)

    def run(w, subaction, **filters):
        r, c = w.r, w.c
        J = types.SimpleNamespace(encode=Json, Data=object)
        args = types.SimpleNamespace(action='query', subaction=subaction,
                                     db=w.path, **filters)
        with Patch(r, json=J, print=w.printed, list=lst), \
                Patch(c, ext_create_env=w.create_env, ext_open_db=w.open_db,
                      db_defs=lmdbm.defs(w.D), list=lst,
                      create_subscription=w.subscription,
                      event_to_json=EvJson):
            out = r.query(args)
        X.prove(out is None and not w.open['env'] and not w.open['txn'],
                'database is closed')
        return w.out


class Ctx:
    def __init__(self, w, name, v):
        self.w, self.name, self.v = w, name, v

    def __enter__(self):
        self.w.open[self.name] = True
        return self.v

    def __exit__(self, *a):
        self.w.open[self.name] = False
        return False


class SettingC(seqs.Codec):
    """setting identifier"""

    def __init__(self, c):
        self.c, self.sorts = c, []

    def build(self, ts):
        return self.c.SettingsId.VERSION

    def flatten(self, v):
        return []

    def facts(self, ts):
        return []


class Txn:
    def __init__(self, w, db):
        self.w, self.db = w, db

    def table(self, db):
        db = db or self.db
        X.prove(self.w.open['txn'] and type(db) is tuple,
                'table is read in a transaction')
        return db[1]

    def cursor(self, db=None):
        return Cursor(self.w, self.table(db).name)

    def get(self, key, default=None, db=None):
        w, t = self.w, self.table(db)
        if t is not w.D.LATEST_TYPE:
            raise Unsupported('value of a table')
        X.prove(isinstance(key, Coded) and key.what == ('key', t.name),
                'key of the table')
        return Coded(('value', t.name), EType('LATEST', int_term(key.v)))


class Cursor:
    def __init__(self, w, name):
        self.w, self.name = w, name

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def _parts_(self):
        return [self.w.rows(self.name)]

    def iternext(self, keys=True, values=True):
        if not (keys and values):
            raise Unsupported('iternext')
        return self


def filt(name, lo=0, hi=1 << 64):
    """given integer filter or None"""
    return sym_int(name, lo, hi) if X.choose(2, name) else None


def equal(f, v):
    return T if f is None else bool_term(eq(f, v))


def is_id(got, i):
    fields(got, {'server': i.server, 'session': i.session,
                 'instance': i.instance}, 'identifier')


def is_ts(got, t):
    fields(got, {'s': t.s, 'us': t.us}, 'timestamp')


def fields(got, want, label):
    if isinstance(got, MDict):
        ks = set(libs.native(got.keys()))
    elif isinstance(got, dict):
        ks = set(got)
    else:
        raise Unsupported('printed result')
    X.prove(ks == set(want), label + ' (fields)')
    for k, v in want.items():
        if callable(v):
            v(got[k])
        else:
            X.prove(eq(got[k], v), f'{label}: {k}')


def is_type(got, t):
    if isinstance(got, MList):
        seg, = t._parts_()

        def check(v, k):
            X.prove(eq(v, seg.at(k)[0][1]), 'segments of the event type')
        run_of(got, mkint(seg.hi), check, 'segments of the event type')
        return
    X.prove(isinstance(got, Listed) and isinstance(got.v, EType) and
            got.v.n == t.n and eq(mkint(got.v.t), mkint(t.t)),
            'segments of the event type')


def type_filter():
    """given event types: None or strings of segments"""
    if not X.choose(2, 'event types'):
        return None
    n = X.fresh('types', I)
    X.assume(n >= 0)
    g = z3.Const(X.name('g'), I)
    f = {'split': lambda k: lambda sep: split(k, sep)}

    def split(k, sep):
        X.prove(sep == '/', 'separator of segments')
        return EType('arg', k)
    r = MList.of([Seg(g, z3.IntVal(0), n, [(T, Item(g, 'arg', f))])])
    r.n = n
    return r


def tup(x=()):
    return x if isinstance(x, EType) else libs.vc_tuple(x)


def types_ok(w, given):
    """subscription is of the given types"""
    X.prove(len(w.subs) == 1, 'one subscription')
    got = w.subs[0]
    if given is None:
        X.prove(seqs.is_native(got) and libs.native(got) == [('*',)],
                'all types are selected')
        return

    def check(v, k):
        X.prove(isinstance(v, EType) and v.n == 'arg' and
                eq(mkint(v.t), mkint(k)), 'given event type')
    run_of(got, mkint(given.n), check, 'given event types')


def selected(w, out, name, cond, check):
    """out has an item of each row that fulfills the condition"""
    s = w.rows(name)
    g = z3.Const(X.name('g'), I)
    want = MList.of([Seg(g, s.lo, s.hi, [(cond(g), Item(g, 'row', {}))])])
    want.parts[0].sp = s.sp
    same(out, want, lambda a, b: check(a, b.t), 'selected rows')


@unit('C34', [F + i for i in ('query', '_query_settings',
                              '_query_last_event_id', '_query_last_timestamp',
                              '_query_partition', '_print_result')],
      assumes=A, bounds=())
def select(m):
    w = World(m)
    k = X.choose(4, 'query')
    if k == 0:
        out = w.run('settings')
        return selected(w, out, 'SYSTEM_SETTINGS', lambda g: T,
                        lambda v, k: fields(v, {
                            'settings_id': 'VERSION',
                            'data': w.val['SYSTEM_SETTINGS'](k)}, 'setting'))
    if k < 3:
        s = filt('server')
        n = ['LAST_EVENT_ID', 'LAST_TIMESTAMP'][k - 1]
        out = w.run(n.lower(), server_id=s)
        n = 'SYSTEM_' + n
        return selected(w, out, n, lambda g: equal(s, w.key[n](g)),
                        lambda v, k: (is_id if 'ID' in n else is_ts)(
                            v, w.val[n](k)))
    p = filt('partition')
    n = 'TIMESERIES_PARTITION'
    out = w.run('partition', partition_id=p)
    selected(w, out, n, lambda g: equal(p, w.key[n](g)),
             lambda v, k: fields(v, {'partition_id': w.key[n](k),
                                     'data': w.val[n](k)}, 'partition'))


@unit('C34', [F + i for i in ('query', '_query_latest',
                              '_query_timeseries')], assumes=A, bounds=())
def select_events(m):
    w = World(m)
    ts = type_filter()
    latest = X.choose(2, 'latest')

    def is_event(v, k):
        X.prove(isinstance(v, EvJson) and isinstance(v.e, Item) and
                v.e.kind == 'event.' + n and eq(mkint(v.e.t), mkint(k)),
                'event of the row')
    with Patch(w.r, tuple=tup):
        if latest:
            n = 'LATEST_DATA'
            out = w.run('latest', event_types=ts)
            cond = w.match
        else:
            n = 'TIMESERIES_DATA'
            p, s = filt('partition'), filt('server')
            out = w.run('timeseries', partition_id=p, server_id=s,
                        event_types=ts)

            def cond(g):
                a, _, i = w.key[n](g)
                return z3.And(equal(p, a), equal(s, i.server), w.match(g))
    if X.choose(2, 'goal'):
        return types_ok(w, ts)
    selected(w, out, n, cond, is_event)


@unit('C34', [F + i for i in ('query', '_query_ref')], assumes=A, bounds=())
def refs(m):
    w = World(m)
    c = w.c
    s = filt('server')
    out = w.run('ref', server_id=s)
    g, h = (z3.Const(X.name('g'), I) for _ in range(2))
    rows = w.rows('REF')
    inner = Seg(h, z3.IntVal(0), w.nrefs(g), [(T, RefAt(g, h))])
    want = MList.of([Seg(g, rows.lo, rows.hi, [
        (equal(s, w.key['REF'](g).server), inner)])])
    want.parts[0].sp = rows.sp

    def check(got, at):
        ref = w.ref(at.k, at.h)
        i = w.key['REF'](at.k)
        if isinstance(ref, c.LatestEventRef):
            cover('latest')
            fields(got, {
                'event_id': lambda v: is_id(v, i), 'ref_type': 'latest',
                'event_type': lambda v: is_type(v, EType(
                    'LATEST', int_term(ref.key)))}, 'latest reference')
        else:
            cover('timeseries')
            p, t, _ = ref.key
            fields(got, {
                'event_id': lambda v: is_id(v, i), 'ref_type': 'timeseries',
                'partition_id': p, 'timestamp': lambda v: is_ts(v, t)},
                'timeseries reference')
    same(out, want, check, 'references of selected events')


class RefAt(Sym):
    """reference h of row k"""
    __slots__ = ('k', 'h')

    def __init__(self, k, h):
        self.k, self.h = k, h

    def _subst_(self, pairs):
        return RefAt(seqs.tsub(self.k, pairs), seqs.tsub(self.h, pairs))


CMN = 'hat.event.backends.lmdb.manager.common'


class Data(Sym):
    """bytes of a payload"""
    __slots__ = ('n',)

    def __init__(self, n='raw'):
        self.n = n

    def _bytes_(self):
        return Data('bytes')

    def hex(self):
        return Data('hex')


def tobytes(x=b''):
    return x._bytes_() if isinstance(x, Data) else libs.vc_bytes(x)


def event_json(m, cmn, payload, c=None):
    """json of every event"""
    c = c or cmn
    p = X.choose(3, 'payload')
    st, d, j = sym_str('subtype'), Data(), Val()
    pl = [None, c.EventPayloadBinary(st, d), c.EventPayloadJson(j)][p]
    sts = fresh(TsC(c), 'sts') if X.choose(2, 'sts') else None
    e = c.Event(fresh(IdC(c), 'id'), EType('event', z3.IntVal(0)),
                fresh(TsC(c), 'ts'), sts, pl)
    with Patch(cmn, list=lst, bytes=tobytes):
        out = cmn.event_to_json(e)

    def is_payload(got):
        if p == 0:
            X.prove(got is None, 'no payload')
            return
        want = payload[p - 1](st if p == 1 else None)
        ks = {k: v for k, v in want.items() if k != 'data'}
        ks['data'] = lambda v: X.prove(
            v is j if p == 2 else isinstance(v, Data) and v.n == 'hex',
            'data of the payload')
        fields(got, ks, 'payload')
    fields(out, {
        'id': lambda v: is_id(v, e.id), 'type': lambda v: is_type(v, e.type),
        'timestamp': lambda v: is_ts(v, e.timestamp),
        'source_timestamp': lambda v: X.prove(v is None, 'no timestamp') if
        sts is None else is_ts(v, sts),
        'payload': is_payload}, 'event')


@unit('C34', ['backends.lmdb.manager.common:' + i for i in (
    'event_to_json', 'event_id_to_json', 'timestamp_to_json',
    '_event_payload_to_json')], bounds=())
def events(m):
    event_json(m, m.load(CMN), [
        lambda t: {'type': 'BINARY', 'subtype': t, 'data': None},
        lambda t: {'type': 'JSON', 'data': None}])


# -------------------------------------------------------------- arguments

class Parser:
    """contract of argparse: options by destination, commands by name"""

    def __init__(self, *a, **kw):
        self.opts, self.sub = {}, None

    def add_argument(self, *flags, dest=None, **kw):
        name = dest
        for i in flags:
            if name is None and i.startswith('--'):
                name = i[2:].replace('-', '_')
            elif name is None and not i.startswith('-'):
                name = i
        kw['option'] = flags[0].startswith('-')
        self.opts[name] = flags, kw

    def add_subparsers(self, dest=None, required=False, **kw):
        self.sub = Subs(dest, required)
        return self.sub

    def parse_args(self, *a):
        return self.parse()

    def value(self, name, given, arg=None):
        """value of an option: converted argument or default"""
        _, kw = self.opts[name]
        f = kw.get('type', lambda x: x)
        act = kw.get('action', 'store')
        if act == 'store_true':
            return given
        if act != 'store':
            raise Unsupported('action of an option')
        if not given:
            d = kw.get('default')
            return f(d) if isinstance(d, str) else d
        if kw.get('nargs') == '*':
            return arg(f)
        if 'nargs' in kw:
            raise Unsupported('number of values')
        v = f(arg)
        if 'choices' in kw:
            X.prove(any(v == i for i in libs.native(kw['choices'])),
                    'valid value is accepted')
        return v


class Subs:
    def __init__(self, dest, required):
        self.dest, self.required, self.parsers = dest, required, {}

    def add_parser(self, name, **kw):
        p = self.parsers[name] = Parser()
        return p


@unit('C34', [F + 'create_argument_parser',
              'backends.lmdb.manager.main:main',
              'backends.lmdb.manager.main:create_argument_parser'],
      assumes=['argparse: the value of an option is its converted argument, '
               'or its default'], bounds=())
def arguments(m):
    r = m.load('hat.event.backends.lmdb.manager.main')
    q = m.load(MOD)
    top = Parser()
    calls = []
    want = {'settings': {}, 'last_event_id': {'server_id': int},
            'last_timestamp': {'server_id': int}, 'ref': {'server_id': int},
            'latest': {'event_types': str},
            'partition': {'partition_id': int},
            'timeseries': {'partition_id': int, 'server_id': int,
                           'event_types': str}}
    name = sorted(want)[X.choose(len(want), 'query')]
    raw = Str()
    given = {k: bool(X.choose(2, k)) for k in want[name]}

    def parse():
        X.prove(top.sub is not None and top.sub.dest == 'action' and
                'query' in top.sub.parsers, 'query command')
        p = top.sub.parsers['query']
        X.prove(p.sub is not None and p.sub.dest == 'subaction' and
                name in p.sub.parsers, 'command of the query')
        a = {'action': 'query', 'subaction': name, 'db': p.value(
            'db', True, raw)}
        o = p.sub.parsers[name]
        X.prove(set(o.opts) == set(want[name]) and all(
            kw['option'] for _, kw in o.opts.values()),
            'every filter is an option')
        for k, t in want[name].items():
            a[k] = o.value(k, given[k], (lambda f: MList([f(raw)])) if
                           t is str else raw)
        return types.SimpleNamespace(**a)
    top.parse = parse
    A_ = types.SimpleNamespace(ArgumentParser=lambda *a, **kw: top)
    with Patch(r, argparse=A_), Patch(q, query=calls.append, int=conv('int'),
                                      str=conv('str'), Path=conv('path')):
        r.main()
    X.prove(len(calls) == 1, 'query is performed')
    got, = calls
    X.prove(got.subaction == name and got.db == ('path', raw),
            'given query of the given database')
    for k, t in want[name].items():
        v = getattr(got, k)
        if not given[k]:
            X.prove(v is None, 'no filter by default')
        elif t is int:
            X.prove(v == ('int', raw), 'given filter')
        else:
            X.prove(len(libs.native(v)) == 1 and
                    libs.native(v)[0] in (raw, ('str', raw)), 'given filter')


class Str:
    """argument"""


def conv(name):
    return lambda x: (name, x)
