"""C14: what is flushed is what is read after a restart.

read, write      Environment.ext_read gives every row of the table decoded,
                 ext_write puts exactly the given rows;
flush            all databases write their part of the changes in one write
                 transaction, dropped when any of them fails;
create           databases are created in one transaction;
system, latest   invariant: the answers of memory are those of the stored
                 table with the pending changes written over it; it holds
                 after creation (C09, C16), is kept by every change, and
                 writing the pending changes makes the table give exactly
                 the answers of memory;
timeseries       ext_write stores the pending events under their partition,
                 time and identifier and adds their number to the counts;
refs             C12.

backend_environment   (units/lmdbb.py) Environment creates, executes in its
                 executor and closes the environment last."""

import types

import z3

from vf import libs, seqs
from vf.unit import unit, cover
from units.lib import *     # noqa
from units import lmdbm, c09
from units.lmdbm import Coded, Txn, using
from vf.syms import IdC, TsC, sym_int, sym_bool

ENV = 'hat.event.backends.lmdb.environment'
BE = 'hat.event.backends.lmdb.backend'
SYS = 'hat.event.backends.lmdb.systemdb'
LDB = 'hat.event.backends.lmdb.latestdb'
TDB = 'hat.event.backends.lmdb.timeseriesdb'
F = 'backends.lmdb.'
A = ['lmdb: a transaction is committed whole when its block is left, and '
     'dropped when the block fails or the process dies; put replaces the '
     'value of a key; a cursor iterates over all rows in key order',
     'codecs of tables (C07)']


def environment(m):
    r = m.load(ENV)
    e = r.Environment()
    D = r.common.DbType
    e._dbs = {i: ('db', i) for i in D}
    return r, e, D


def pick(D):
    ds = list(D)
    return ds[X.choose(len(ds), 'table')]


@unit('C14', [F + 'environment:Environment.ext_read'], assumes=A, bounds=())
def read(m):
    r, e, D = environment(m)
    db = pick(D)
    rows = items('row', {}, 'rows')
    K, V = z3.Function('row.key', I, I), z3.Function('row.val', I, I)
    g = z3.Const(X.name('g'), I)

    class Cursor:
        def _parts_(self):
            sg = Seg(g, z3.IntVal(0), rows.n, [(T, (
                Coded(('key', db.name), mkint(K(g))),
                Coded(('value', db.name), mkint(V(g)))))])
            sg.sp = rows.sp
            return [sg]

    def cursor(x):
        X.prove(x == ('db', db), 'cursor of the table')
        return using(Cursor())
    txn = types.SimpleNamespace(cursor=cursor)
    with Patch(r.common, db_defs=lmdbm.defs(D)):
        res = e.ext_read(txn, db)
    g2 = z3.Const(X.name('g'), I)
    want = MList.of([Seg(g2, z3.IntVal(0), rows.n, [
        (T, (mkint(K(g2)), mkint(V(g2))))])])
    want.parts[0].sp = rows.sp

    def pair(a, b):
        k, v = libs.vc.unpack(a, 2, -1)
        X.prove(and_(eq(k, b[0]), eq(v, b[1])), 'decoded row')
    same(res, want, pair, 'rows of the table')


@unit('C14', [F + 'environment:Environment.ext_write'], assumes=A, bounds=())
def write(m):
    r, e, D = environment(m)
    db = pick(D)
    K, V = z3.Function('row.key', I, I), z3.Function('row.val', I, I)
    n = X.fresh('n', I)
    X.assume(n >= 0)
    g = z3.Const(X.name('g'), I)
    sg = Seg(g, z3.IntVal(0), n, [(T, (mkint(K(g)), mkint(V(g))))])
    sg.sp = ('data',)
    data = MList.of([sg])
    puts = MList()

    class Cursor:
        def put(self, k, v):
            puts.append((k, v))
            return True

    def cursor(x):
        X.prove(x == ('db', db), 'cursor of the table')
        return using(Cursor())
    txn = types.SimpleNamespace(cursor=cursor)
    with Patch(r.common, db_defs=lmdbm.defs(D)):
        e.ext_write(txn, db, data)

    def pair(a, b):
        k, v = a
        X.prove(isinstance(k, Coded) and k.what == ('key', db.name) and
                isinstance(v, Coded) and v.what == ('value', db.name),
                'row is encoded')
        X.prove(and_(eq(k.v, b[0]), eq(v.v, b[1])), 'row is written')
    same(puts, data, pair, 'rows are written in order')


@unit('C14', [F + 'environment:Environment._ext_init',
              F + 'environment:Environment.ext_begin',
              F + 'environment:Environment.ext_cursor',
              F + 'common:ext_open_db'], assumes=A, bounds=())
def tables(m):
    r = m.load(ENV)
    c = m.load('hat.event.backends.lmdb.common')
    e = r.Environment()
    D = r.common.DbType
    exists = sym_bool('exists')
    path = types.SimpleNamespace(exists=lambda: exists)
    size = object()
    opened = {}

    class Env:
        def open_db(self, name, create=True):
            opened[name] = create
            return ('db', name)

        def begin(self, write=False, buffers=False):
            begun.append((write, buffers))
            return txn
    env, txn, begun = Env(), types.SimpleNamespace(
        cursor=lambda db: ('cursor', db)), []

    def ext_create_env(path, max_size, readonly=False):
        X.prove(path is path_ and max_size is size and readonly is False,
                'environment of the path')
        return env
    path_ = path
    with Patch(r, common=Over(r.common, ext_create_env=ext_create_env,
                              ext_open_db=c.ext_open_db)):
        e._ext_init(path, size)
    X.prove(len(opened) == len(list(D)), 'every table is its own')
    for i in opened.values():
        X.prove(iff(i, not_(exists)),
                'tables are created with the file only')
    seen = []
    for db in D:
        cur = e.ext_cursor(txn, db)
        X.prove(cur[0] == 'cursor' and cur not in seen,
                'cursor of the table')
        seen.append(cur)
    write = bool(X.choose(2, 'write'))
    X.prove(e.ext_begin(write=write) is txn, 'transaction')
    X.prove(len(begun) == 1 and begun[0][0] is write,
            'kind of the transaction')


# ---------------------------------------------------------- transactions

class Fail(Exception):
    pass


@unit('C14', [F + 'backend:_ext_flush'], assumes=A, bounds=())
def flush(m):
    r = m.load(BE)
    names = list(r.Databases._fields)
    log, changes = [], {i: object() for i in names}
    st = types.SimpleNamespace(txn=None)

    def ext_begin(write=False):
        X.prove(st.txn is None, 'one transaction')
        X.prove(write is True, 'write transaction')
        st.txn = Txn(log, write)
        return st.txn

    def db(n):
        def ext_write(t, c):
            X.prove(t is st.txn, 'written in the transaction')
            X.prove(c is changes[n], f'changes of {n}')
            X.prove(log[-1] != ('commit', True), 'written before the commit')
            log.append(n)
            if X.choose(2, 'write fails'):
                raise Fail()
        return types.SimpleNamespace(ext_write=ext_write)
    env = types.SimpleNamespace(ext_begin=ext_begin)
    dbs = r.Databases(**{n: db(n) for n in names})
    try:
        r._ext_flush(env, dbs, r.Changes(**changes))
    except Fail:
        cover('failed')
        X.prove(log[-1] == ('abort', True), 'failed write drops everything')
        return
    cover('written')
    X.prove(log[0] == ('begin', True) and log[-1] == ('commit', True) and
            len(log) == len(names) + 2 and set(log[1:-1]) == set(names),
            'every part is written in one transaction')
    # timeseries before references: not needed, one transaction


@unit('C14', [F + 'backend:_ext_create_dbs'], assumes=A, bounds=())
def create(m):
    r = m.load(BE)
    log, st = [], types.SimpleNamespace(txn=None)
    args = {i: object() for i in ('identifier', 'conditions', 'latest',
                                  'partitions', 'max_results', 'cache')}

    def ext_begin(write=False):
        X.prove(st.txn is None, 'one transaction')
        X.prove(write is True, 'write transaction')
        st.txn = Txn(log, write)
        return st.txn
    env = types.SimpleNamespace(ext_begin=ext_begin)

    def make(n, *want):
        def ext_create(e, t, *a):
            X.prove(e is env and t is st.txn, 'created in the transaction')
            X.prove(log[-1] != ('commit', True), 'before the commit')
            X.prove(len(a) == len(want) and all(
                i is j for i, j in zip(a, want)), f'parameters of {n}')
            log.append(n)
            if X.choose(2, 'creation fails'):
                raise Fail()
            return n
        return types.SimpleNamespace(ext_create=ext_create)
    try:
        with Patch(r, systemdb=make('system', r.version,
                                    args['identifier']),
                   latestdb=make('latest', args['conditions'],
                                 args['latest']),
                   timeseriesdb=make('timeseries', args['conditions'],
                                     args['partitions'],
                                     args['max_results'], args['cache']),
                   refdb=types.SimpleNamespace(RefDb=lambda e: 'ref')):
            res = r._ext_create_dbs(
                env, args['identifier'], args['conditions'], args['latest'],
                args['partitions'], args['max_results'], args['cache'])
    except Fail:
        cover('failed')
        X.prove(log[-1] == ('abort', True), 'failed creation stores nothing')
        return
    cover('created')
    X.prove(log[-1] == ('commit', True), 'creation is stored')
    X.prove(tuple(res) == ('system', 'latest', 'timeseries', 'ref'),
            'databases')


# --------------------------------------------------------- SystemDb state

class Store:
    """tables as maps from integer keys; ext_write contract"""

    def __init__(self, txn, **tables):
        self.txn = txn
        self.t = tables         # DbType -> MDict
        self.wrote = []

    def ext_write(self, txn, db, data):
        X.prove(txn is self.txn, 'written in the transaction')
        X.prove(db in self.t, 'table')
        X.prove(db not in self.wrote, 'table is written once')
        self.wrote.append(db)
        self.t[db] = self.t[db], data


def over(store, db, k):
    """value of key k after the write, or None"""
    t = store.t[db]
    if not isinstance(t, tuple):
        return at(t, k)
    old, data = t
    d = data.d if isinstance(data, seqs.DictView) and \
        data.what == 'items' else libs.vc_dict(data)
    if k in d:
        return d[k]
    return at(old, k)


def at(d, k):
    return d[k] if k in d else None


def same_opt(a, b):
    if a is None or b is None:
        return mkbool(z3.BoolVal(a is None and b is None))
    return eq(a, b)


@unit('C14', [F + 'systemdb:SystemDb.set_last_event_id',
              F + 'systemdb:SystemDb.set_last_timestamp',
              F + 'systemdb:SystemDb.create_changes',
              F + 'systemdb:SystemDb.ext_write'], assumes=A, timeout=120,
      bounds=())
def system(m):
    r, c = m.load(SYS), m.load('hat.event.common')
    D = r.common.DbType
    U = IntC(0, 1 << 64)
    db = r.SystemDb()

    def smap(vc, n):
        return MDict(base=SymMap.fresh(U, vc, n))
    db._last_event_ids, db._last_timestamps = (smap(IdC(c), 'ids'),
                                               smap(TsC(c), 'tss'))
    db._changes = r.Changes(smap(IdC(c), 'pids'), smap(TsC(c), 'ptss'))
    disk = {D.SYSTEM_LAST_EVENT_ID: smap(IdC(c), 'dids'),
            D.SYSTEM_LAST_TIMESTAMP: smap(TsC(c), 'dtss')}
    s = fresh(U, 'server')

    def answer(pending, table):
        return [pending[0][s] if s in pending[0] else
                over(table, D.SYSTEM_LAST_EVENT_ID, s),
                pending[1][s] if s in pending[1] else
                over(table, D.SYSTEM_LAST_TIMESTAMP, s)]
    txn = object()
    store = Store(txn)
    store.t = dict(disk)
    db._env = store
    mem = [at(db._last_event_ids, s), at(db._last_timestamps, s)]
    for a, b in zip(mem, answer(db._changes, store)):
        X.assume(bool_term(same_opt(a, b)))
    op = X.choose(3, 'operation')
    if op == 0:
        db.set_last_event_id(fresh(IdC(c), 'id'))
    elif op == 1:
        db.set_last_timestamp(fresh(U, 'other'), fresh(TsC(c), 'ts'))
    else:
        changes = db.create_changes()
        mem1 = [at(db._last_event_ids, s), at(db._last_timestamps, s)]
        for a, b in zip(mem, mem1):
            X.prove(same_opt(a, b), 'answers do not change')
        X.prove(changes is not db._changes, 'changes are taken')
        X.prove(eq(libs.vc_len(db._changes.last_event_ids), 0) and
                eq(libs.vc_len(db._changes.last_timestamps), 0),
                'nothing is pending')
        db.ext_write(txn, changes)
        cover('flush')
        # a database created from the tables gives the same answers (C16)
        X.prove(same_opt(over(store, D.SYSTEM_LAST_EVENT_ID, s), mem[0]),
                'last identifier after a restart')
        X.prove(same_opt(over(store, D.SYSTEM_LAST_TIMESTAMP, s), mem[1]),
                'last timestamp after a restart')
        return
    cover('set')
    mem = [at(db._last_event_ids, s), at(db._last_timestamps, s)]
    for a, b in zip(mem, answer(db._changes, store)):
        X.prove(same_opt(a, b), 'answers are stored or pending')


# --------------------------------------------------------- LatestDb state

@unit('C14', [F + 'latestdb:LatestDb.add',
              F + 'latestdb:LatestDb.create_changes',
              F + 'latestdb:LatestDb.ext_write'], assumes=A + c09.A,
      timeout=120, bounds=())
def latest(m):
    w = c09.World(m)
    r = w.r
    D = r.common.DbType
    db = w.db()
    R = IntC(0)
    disk = {D.LATEST_DATA: MDict(base=SymMap.fresh(R, w.evc, 'ddata')),
            D.LATEST_TYPE: MDict(base=SymMap.fresh(R, c09.ETC, 'dtypes'))}
    txn = object()
    store = Store(txn)
    store.t = dict(disk)
    db._env = store
    t = c09.EType(X.fresh('type', I))
    add_index(t.t, w.sp)

    def inv(pose):
        """reference and latest event of type t are stored or pending"""
        ref, ev = at(db._event_type_refs, t), at(db._events, t)
        if ref is None:
            pose(mkbool(z3.BoolVal(ev is None)), 'reference of the event')
            return
        x = db._changes.types[ref] if ref in db._changes.types else \
            over(store, D.LATEST_TYPE, ref)
        pose(same_opt(x, t), 'type of the reference')
        x = db._changes.data[ref] if ref in db._changes.data else \
            over(store, D.LATEST_DATA, ref)
        if ev is not None:
            pose(same_opt(x, ev), 'latest event of the type')
        elif x is not None:
            # not in memory: a new database would not accept it either
            pose(not_(accepted(x)), 'accepted event of the type')
    COND = z3.Function('conditions', I, B)

    def accepted(x):
        return and_(and_(eq(x.type, t), mkbool(COND(x.t))),
                    mkbool(w.SUB(t.t)))
    inv(lambda x, _: X.assume(bool_term(x)))
    if X.choose(2, 'operation'):
        db.add(w.event())
        cover('add')
        inv(lambda x, what: X.prove(x, what + ' is stored or pending'))
        return
    ref, ev = at(db._event_type_refs, t), at(db._events, t)
    changes = db.create_changes()
    X.prove(same_opt(ref, at(db._event_type_refs, t)) and
            same_opt(ev, at(db._events, t)), 'answers do not change')
    X.prove(eq(libs.vc_len(db._changes.data), 0) and
            eq(libs.vc_len(db._changes.types), 0), 'nothing is pending')
    X.prove(changes is not db._changes, 'changes are taken')
    db.ext_write(txn, changes)
    if ref is None:
        return
    cover('flush')
    X.prove(same_opt(over(store, D.LATEST_TYPE, ref), t),
            'type of the reference after a restart')
    x = over(store, D.LATEST_DATA, ref)
    if ev is not None:
        X.prove(same_opt(x, ev), 'latest event of the type after a restart')
    elif x is not None:
        X.prove(not_(accepted(x)), 'no other event after a restart')


# ------------------------------------------------------------ timeseries

class TsChanges:
    """pending events of partitions: PID(i) for i < n, different partitions,
    and events (TS(i, j), EV(i, j)) for j < LEN(i)"""

    def __init__(w, m, r):
        c = m.load('hat.event.common')
        w.n = X.fresh('partitions', I)
        X.assume(w.n >= 0)
        w.PID, w.LEN = (z3.Function('ch.' + i, I, I) for i in ('pid', 'len'))
        w.TS = fn(TsC(c), 'ch.ts', I, I)
        w.EV = z3.Function('ch.event', I, I, I)
        w.ID = fn(IdC(c), 'event.id')
        w.f = {'id': w.ID, 'timestamp': fn(TsC(c), 'event.timestamp'),
               'source_timestamp': fn(OptC(TsC(c)), 'event.source')}
        w.sp, w.sp2 = ('changes',), ('changes', 'events')
        g = z3.Const(X.name('g'), I)
        universal(g, T, w.LEN(g) >= 0, w.sp)

    def event(w, i, j):
        return Item(w.EV(i, j), 'event', w.f)

    def lst(w, i):
        X.assume(w.LEN(i) >= 0)
        g = z3.Const(X.name('g'), I)
        sg = Seg(g, z3.IntVal(0), w.LEN(i), [(T, (w.TS(i, g),
                                                  w.event(i, g)))])
        sg.sp = w.sp2
        return MList.of([sg])

    def items(w):
        g = z3.Const(X.name('g'), I)
        sg = Seg(g, z3.IntVal(0), w.n, [(T, (mkint(w.PID(g)), w.lst(g)))])
        sg.sp = w.sp
        return MList.of([sg])


@unit('C14', [F + 'timeseriesdb:TimeseriesDb.ext_write',
              F + 'timeseriesdb:TimeseriesDb.create_changes'], assumes=A,
      bounds=())
def timeseries(m):
    r = m.load(TDB)
    w = TsChanges(m, r)
    D = r.common.DbType
    db = r.TimeseriesDb()
    txn = object()
    log = []

    def ext_write(t, table, data):
        X.prove(t is txn and table is D.TIMESERIES_DATA, 'written table')
        log.append(data)

    def inc(env, t, counts):
        X.prove(env is db._env and t is txn, 'counts')
        log.append(('counts', counts))
    db._env = types.SimpleNamespace(ext_write=ext_write)
    changes = types.SimpleNamespace(items=w.items)
    db._changes = changes
    got = db.create_changes()
    X.prove(got is changes, 'changes are taken')
    X.prove(db._changes is not changes and eq(libs.vc_len(
        db._changes), 0), 'nothing is pending')
    fresh_list = db._changes[sym_int('pid', 1)]
    X.prove(eq(libs.vc_len(fresh_list), 0), 'no pending events')
    with Patch(r, _ext_inc_partition_count=inc):
        db.ext_write(txn, changes)
    X.prove(len(log) == 2, 'events and counts are written')
    data, counts = log if isinstance(log[1], tuple) else log[::-1]
    if X.choose(2, 'goal'):
        gi = z3.Const(X.name('g'), I)
        want = Seg(gi, z3.IntVal(0), w.n, [(T, (mkint(w.PID(gi)),
                                                mkint(w.LEN(gi))))])
        want.sp = w.sp

        def pair(a, b):
            p, n = libs.vc.unpack(a, 2, -1)
            X.prove(and_(eq(p, b[0]), eq(n, b[1])),
                    'number of events is added to the count')
        same(counts[1], MList.of([want]), pair, 'counts of partitions')
        return
    gi, gj = z3.Const(X.name('g'), I), z3.Const(X.name('g'), I)
    inner = Seg(gj, z3.IntVal(0), w.LEN(gi), [(T, (
        mkint(w.PID(gi)), w.TS(gi, gj), w.event(gi, gj)))])
    inner.sp = w.sp2
    want = Seg(gi, z3.IntVal(0), w.n, [(T, inner)])
    want.sp = w.sp

    def row(a, b):
        k, e = libs.vc.unpack(a, 2, -1)
        p, t, i = libs.vc.unpack(k, 3, -1)
        X.prove(and_(and_(eq(p, b[0]), eq(t, b[1])), eq(i, b[2].id)),
                'key of a stored event')
        X.prove(eq(e, b[2]), 'stored event')
    same(data, MList.of([want]), row, 'all pending events are stored')


class CountRound:
    """cursor of the counts in one round: the table is any"""

    def __init__(self, w):
        self.w = w

    def get(self, k, default=None):
        w = self.w
        X.prove(isinstance(k, Coded) and k.what == (
            'key', 'TIMESERIES_COUNT'), 'count of a partition')
        X.prove(bool_term(eq(k.v, w.pid)), 'count of the partition')
        if w.puts:
            return w.puts[-1][1]
        if not w.has:
            return default
        return Coded(('value', 'TIMESERIES_COUNT'), w.old)

    def put(self, k, v):
        self.w.puts.append((k, v))
        return True


@unit('C14', [F + 'timeseriesdb:_ext_inc_partition_count'], assumes=A,
      bounds=())
def counts(m):
    inc_unit(m)


def inc_unit(m):
    r = m.load(TDB)
    D = r.common.DbType
    w = types.SimpleNamespace(puts=[])
    txn = object()
    n = X.fresh('n', I)
    X.assume(n >= 0)
    PID, CNT = z3.Function('pid', I, I), z3.Function('count', I, I)
    g = z3.Const(X.name('g'), I)
    sg = Seg(g, z3.IntVal(0), n, [(T, (mkint(PID(g)), mkint(CNT(g))))])
    sg.sp = ('counts',)
    data = MList.of([sg])

    def ext_cursor(t, db):
        X.prove(t is txn and db is D.TIMESERIES_COUNT, 'table of counts')
        return using(CountRound(w))

    def before(start, v, k):
        w.pid, w.puts = mkint(PID(k)), []
        w.old, w.has = sym_int('old', 0), X.choose(2, 'stored')

    def after(start, end, v, k):
        cover('round')
        X.prove(len(w.puts) == 1, 'count is written once')
        (ek, ev), = w.puts
        X.prove(isinstance(ek, Coded) and ek.what == (
            'key', 'TIMESERIES_COUNT') and isinstance(ev, Coded) and
            ev.what == ('value', 'TIMESERIES_COUNT'), 'encoded count')
        X.prove(eq(ek.v, mkint(PID(k))), 'count of the partition')
        X.prove(int_term(ev.v) == (int_term(w.old) if w.has else 0) + CNT(k),
                'count increases by the given number')
    env = types.SimpleNamespace(ext_cursor=ext_cursor)
    st = []
    X.for_rule = ForRule(lambda src: src is data, lambda: None, before,
                         after, lambda s: st.append(1))
    with Patch(r.common, db_defs=lmdbm.defs(D)):
        r._ext_inc_partition_count(env, txn, data)
    X.prove(bool(st) or bool(not_(mkbool(n > 0))), 'every count is changed')


import units.lmdbb   # noqa
