"""C13: cleanup of limited partitions.

Rows of the data table are in order of (partition, time, identifier).

partition   with the count of the partition being its number of rows,
            _ext_cleanup_partition removes its first rows, one at a time and
            each only while the limits ask for it, ends when they do not or
            when the number of allowed removals is reached, gives exactly
            the removed rows and stores the count of the rest;
all         ext_cleanup cleans exactly partitions with a limit, each with
            what is left of the allowed number, while there is some;
refs        exactly the given references are removed, rows without
            references are dropped;
pass_       both are done in one transaction, another pass is asked for when
            the allowed number is reached;
counts      counts increase by the number of stored events (C14).

backend_*, cleanup_loop   (units/lmdbb.py) creation of the backend; the loop
         makes passes while another one is asked for, waits the configured
         period between them and ends only with the backend."""

import types

import z3

from vf import libs, seqs
from vf.unit import unit, cover
from units.lib import *     # noqa
from units import lmdbm, c12, c14
from units.lmdbm import Coded, Txn, View, using
from vf.syms import IdC, TsC, sym_int, sym_bool

BE = 'hat.event.backends.lmdb.backend'
TDB = 'hat.event.backends.lmdb.timeseriesdb'
F = 'backends.lmdb.'
A = ['lmdb: rows are in key order; delete removes the row of the cursor and '
     'moves it to the next one', 'codecs of tables (C07)']


class Num:
    """number without known value (sizes of pages)"""

    def _any(self, *o):
        return Num()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _any
    __truediv__ = __rtruediv__ = __floordiv__ = __rfloordiv__ = _any
    __neg__ = _any


class Neg:
    def __init__(self, of):
        self.of = of


class Seconds:
    def __neg__(self):
        return Neg(self)


class Table:
    """rows KEY(i), i < n, in key order; removed ones are lo <= i < pos of
    the partition"""

    def __init__(w, m):
        w.r, w.c = m.load(TDB), m.load('hat.event.common')
        w.D = w.r.common.DbType
        w.defs = lmdbm.defs(w.D)
        w.table = w.D.TIMESERIES_DATA
        w.sp = ('rows',)
        w.n = X.fresh('rows', I)
        X.assume(w.n >= 0)
        w.KC = TupC(tuple, IntC(0), TsC(w.c), IdC(w.c))
        w.KEY = fn(w.KC, 'row.key')
        w.value = None

    ordered = c12.Rows.ordered


class DelCursor(c12.Snapshot):
    """cursor that removes rows"""

    def __init__(self, w):
        super().__init__(w, lambda g: w.KEY(g))
        self.gone = []

    def delete(self, *a):
        if a:
            raise Unsupported('delete')
        p = self._row()
        self.gone.append(p)
        self._move(z3.simplify(p + 1))
        add_index(self.pos, self.w.sp)
        return mkbool(self.pos < self.w.n)

    def pop(self, *a):
        raise Unsupported('pop')


@unit('C13', [F + 'timeseriesdb:_ext_cleanup_partition',
              F + 'timeseriesdb:_ext_get_partition_count',
              F + 'timeseriesdb:_ext_set_partition_count'], assumes=A + [
    'the stored count of the partition is its number of rows (kept by units '
    'counts and partition)', 'Timestamp.add',
    'the number of rows a size limit allows is any number (float '
    'arithmetic on page statistics)'], bounds=())
def partition(m):
    w = Table(m)
    r, c, D = w.r, w.c, w.D
    pid = sym_int('pid', 1)
    txn = object()
    least = c.Timestamp(s=-(1 << 63), us=0)
    size = Num() if X.choose(2, 'size') else None
    dur = Seconds() if X.choose(2, 'duration') else None
    mn, mx = fresh(OptC(IntC(0)), 'min'), fresh(OptC(IntC(0)), 'max')
    mn = mn.force() if isinstance(mn, SymOpt) else mn
    mx = mx.force() if isinstance(mx, SymOpt) else mx
    limit = r.Limit(min_entries=mn, max_entries=mx, duration=dur, size=size)
    bound = fresh(OptC(IntC(1)), 'bound')
    bound = bound.force() if isinstance(bound, SymOpt) else bound
    since = fresh(TsC(c), 'since')
    some = X.choose(2, 'entries') if size else 0
    by_size = []
    # rows of the partition
    S, E = X.fresh('s', I), X.fresh('e', I)
    X.assume(z3.And(S >= 0, S <= E, E <= w.n))
    g = z3.Const(X.name('g'), I)
    universal(g, z3.And(g >= 0, g < w.n), z3.And(
        (g >= S) == (int_term(w.KEY(g)[0]) >= int_term(pid)),
        (g < E) == (int_term(w.KEY(g)[0]) <= int_term(pid))), w.sp)
    C = E - S
    has = X.choose(2, 'count')
    if not has:
        X.assume(C == 0)

    def to_int(x=0, *a):
        if isinstance(x, Num):
            by_size.append(sym_int('by size', 0))
            return by_size[-1]
        return libs.vc_int(x, *a)

    class Now:
        def add(self, d):
            X.prove(isinstance(d, Neg) and d.of is dur, 'start of duration')
            return since
    w.cur = cur = DelCursor(w)

    class Counts:
        def get(self, k, default=None):
            X.prove(isinstance(k, Coded) and k.what == (
                'key', 'TIMESERIES_COUNT') and eq(k.v, pid),
                'count of the partition')
            return Coded(('value', 'TIMESERIES_COUNT'), mkint(C)) if has \
                else default
    written = []

    def ext_cursor(t, db):
        X.prove(t is txn, 'transaction')
        if db is D.TIMESERIES_COUNT:
            return using(Counts())
        X.prove(db is w.table, 'data table')
        return using(cur)

    def ext_stat(t, db):
        X.prove(t is txn and db is w.table, 'statistics of the data table')
        return {'psize': Num(), 'branch_pages': Num(), 'leaf_pages': Num(),
                'overflow_pages': Num(), 'entries': sym_int('entries', 1)
                if some else 0}

    def ext_write(t, db, data):
        X.prove(t is txn and db is D.TIMESERIES_COUNT, 'written table')
        written.append(data)
    env = types.SimpleNamespace(ext_cursor=ext_cursor, ext_stat=ext_stat,
                                ext_write=ext_write)

    def wanted(k):
        """limits ask for the removal of row k of the partition"""
        tops = [int_term(x) for x in ([] if mx is None else [mx]) + by_size]
        over = z3.Or(*[C - k > t for t in tops])
        old = bool_term(cmp('<', w.KEY(S + k)[1], since)) if dur else \
            z3.BoolVal(False)
        ok = [k < C, C - k > (0 if mn is None else int_term(mn)),
              z3.Or(over, old)]
        if bound is not None:
            ok.append(k < int_term(bound))
        return z3.And(*ok)
    st = types.SimpleNamespace(k=None, out=None, end=False)

    def havoc(name, v):
        if isinstance(v, (bool, SymBool)):
            return lambda: mkbool(X.fresh(name, B))
        if isinstance(v, (int, SymInt)):
            # number of removals, or of what is left
            if isinstance(v, int):
                return lambda: mkint(z3.simplify(v + st.k))
            return lambda: mkint(z3.simplify(int_term(v) - st.k))
        if isinstance(v, MList):
            def make():
                v._touch()
                v.parts = [seqs.Opaque(st.k)]
                st.out = v
                return v
            st.k = st.k0 = X.fresh('removed', I)
            return make
        return None

    def state(ls, p):
        return [iff(v, mkbool(p < w.n)) for v in ls.values()
                if isinstance(v, (bool, SymBool))]

    def init(ls):
        outs = [v for v in ls.values() if isinstance(v, MList)]
        X.prove(all(eq(libs.vc_len(v), 0) is True for v in outs),
                'start: nothing is removed')
        X.prove(not cur.gone, 'start: nothing is removed')
        p = cur._at()
        add_index(S, w.sp)
        w.KEY(S)
        X.prove(z3.Implies(C > 0, p == S), 'start: first row')
        X.prove(z3.Implies(z3.Or(p != S, C == 0), z3.And(p >= S, p <= w.n)),
                'start: first row')
        for x in state(ls, p):
            X.prove(x, 'start: row is available')

    def before(ls):
        X.assume(z3.And(st.k >= 0, st.k <= C))
        if bound is not None:
            X.assume(st.k <= int_term(bound))
        cur.pos = z3.simplify(S + st.k)
        add_index(cur.pos, w.sp)
        for x in state(ls, cur.pos):
            X.assume(bool_term(x))
        w.ordered(cur.pos)

    def removals():
        """removed in the round"""
        k = st.k
        for p in cur.gone:
            X.prove(p == S + k, 'oldest row of the partition is removed')
            X.prove(wanted(k), 'row is removed only over the limits')
            k = z3.simplify(k + 1)
        new = st.out.parts[1:]
        X.prove(isinstance(st.out.parts[0], seqs.Opaque) and
                st.out.parts[0].n.eq(st.k), 'removed rows are given')
        new = [v for p in new for v in p]
        X.prove(len(new) == len(cur.gone), 'removed rows are given')
        for v, p in zip(new, cur.gone):
            i, ref = libs.vc.unpack(v, 2, -1)
            X.prove(eq(i, w.KEY(p)[2]), 'identifier of the removed row')
            X.prove(isinstance(ref, r.common.TimeseriesEventRef) and
                    eq(ref.key, w.KEY(p)), 'reference of the removed row')
        return k

    def after(start, end):
        cover('round')
        k = removals()
        X.prove(len(cur.gone) == 1, 'one row in a round')
        X.prove(cur.pos == S + k, 'next row')
        for x in state(end, cur.pos):
            X.prove(x, 'row is available')
        for n, v in end.items():
            if isinstance(v, (int, SymInt)) and not isinstance(v, bool):
                X.prove(z3.Or(int_term(v) == int_term(start[n]) + 1,
                              int_term(v) == int_term(start[n]) - 1),
                        'number of removals')

    def final(start):
        st.end = True
        st.k = removals()
    X.while_rule = WhileRule(havoc, init, before, after, final,
                             ghosts=[(cur, 'pos'), (cur, 'moves')],
                             poison=True)
    with Patch(r.common, db_defs=w.defs), Patch(
            r, bytes=lmdbm.codec_bytes, int=to_int):
        res = r._ext_cleanup_partition(env, txn, Now(), pid, limit, bound)
    X.prove(st.end, 'rows are removed by the loop')
    k = st.k
    cover('end')
    add_index(S + k, w.sp)
    X.prove(z3.Not(wanted(k)), 'removals end only within the limits')
    X.prove(len(written) <= 1, 'count is written once')
    if not written:
        X.prove(k == 0, 'count of the partition is stored')
    else:
        cover('count')
        rows = libs.to_parts(written[0])
        rows = [v for p in rows for v in p]
        X.prove(len(rows) == 1, 'count of the partition is stored')
        p, n = libs.vc.unpack(rows[0], 2, -1)
        X.prove(eq(p, pid), 'count of the partition')
        X.prove(eq(n, mkint(C - k)), 'count is the number of rows')


@unit('C13', [F + 'timeseriesdb:TimeseriesDb.ext_cleanup'], assumes=[
    'contract of _ext_cleanup_partition (unit partition)'], bounds=())
def all_(m):
    r = m.load(TDB)
    db = r.TimeseriesDb()
    db._env, txn, now = object(), object(), object()
    n = X.fresh('partitions', I)
    X.assume(n >= 0)
    HAS = z3.Function('limited', I, B)
    limits = {}
    w = types.SimpleNamespace(calls=[], cnt=None)
    bound = fresh(OptC(IntC(1)), 'bound')
    bound = bound.force() if isinstance(bound, SymOpt) else bound
    out = []
    g = z3.Const(X.name('g'), I)
    PID = z3.Function('pid', I, I)
    lim = ItemC('limit', {})
    sg = Seg(g, z3.IntVal(0), n, [(T, (mkint(PID(g)), Item(g, 'partition', {
        'limit': lambda t: OptC(lim).build([z3.Not(HAS(t)), t])})))])
    sg.sp = ('partitions',)
    src = MList.of([sg])
    db._partitions = types.SimpleNamespace(items=lambda: src)

    def cleanup(*a):
        env, t, nw, pid, limit, b = a
        X.prove(env is db._env and t is txn and nw is now, 'cleanup')
        X.prove(eq(pid, mkint(PID(w.k))), 'partition')
        limit = limit.force() if isinstance(limit, SymOpt) else limit
        X.prove(limit is not None and eq(limit, Item(w.k, 'limit', {})),
                'limit of the partition')
        X.prove((b is None) == (bound is None), 'allowed number')
        got = X.fresh('removed', I)
        X.assume(got >= 0)
        if b is not None:
            X.prove(int_term(b) == int_term(bound) - w.cnt,
                    'what is left of the allowed number')
            X.prove(int_term(b) >= 1, 'some removals are allowed')
            X.assume(got <= int_term(b))
        q = seqs.Opaque(got)
        w.calls.append(q)
        return MList.of([q])

    def init():
        X.prove(all(eq(libs.vc_len(v), 0) is True
                    for v in rule.bound.values() if isinstance(v, MList)),
                'start: nothing is removed')

    def havoc(name, v):
        if isinstance(v, MList):
            def make():
                v._touch()
                w.cnt = X.fresh('cnt', I)
                X.assume(w.cnt >= 0)
                if bound is not None:
                    X.assume(w.cnt <= int_term(bound))
                v.parts = [seqs.Opaque(w.cnt)]
                w.out = v
                return v
            return make
        if isinstance(v, (int, SymInt)) and not isinstance(v, bool):
            if bound is not None and v is not bound:
                return None
        return None

    def inplace(name, v):
        if isinstance(v, MList) and not isinstance(v, libs.Gen):
            out.append(v)
            return True
        return False

    def before(start, v, k):
        w.k = k
        del w.calls[:]
        w.out = out[0]
        w.out._touch()
        w.cnt = X.fresh('cnt', I)
        X.assume(w.cnt >= 0)
        if bound is not None:
            X.assume(w.cnt <= int_term(bound))
        w.out.parts = [seqs.Opaque(w.cnt)]

    def after(start, end, v, k):
        cover('round')
        X.prove(z3.BoolVal(len(w.calls) == 1) == (HAS(k) if bound is None
                else z3.And(HAS(k), w.cnt < int_term(bound))),
                'exactly partitions with a limit are cleaned')
        ps = [p for p in w.out.parts if not (isinstance(p, list) and not p)]
        X.prove(isinstance(ps[0], seqs.Opaque) and ps[0].n.eq(w.cnt) and
                ps[1:] == w.calls, 'removed rows are given')

    def left(start, v, k):
        cover('enough')
        X.prove(bound is not None and not w.calls, 'partitions are cleaned '
                'while removals are allowed')
        X.prove(w.cnt >= int_term(bound), 'partitions are cleaned while '
                'removals are allowed')

    def final(start):
        w.out = out[0]
        w.out._touch()
        w.cnt = X.fresh('cnt', I)
        X.assume(w.cnt >= 0)
        if bound is not None:
            X.assume(w.cnt <= int_term(bound))
        w.out.parts = [seqs.Opaque(w.cnt)]
    rule = X.for_rule = ForRule(lambda s: s is src, init, before, after,
                                final, havoc, left=left, inplace=inplace)
    with Patch(r, _ext_cleanup_partition=cleanup):
        res = db.ext_cleanup(txn, now, bound)
    X.prove(bool(out) and res is out[0], 'removed rows of all partitions')
    if bound is not None:
        X.prove(libs.vc_len(res) <= bound, 'not more than allowed')


@unit('C13', [F + 'refdb:RefDb.ext_cleanup'], assumes=A, bounds=())
def refs(m):
    r, c, D, defs = c12.load(m)
    db = r.RefDb(None)
    txn = object()
    cur = c12.Cursor()
    w = types.SimpleNamespace(done=False)

    def ext_cursor(t, table):
        X.prove(t is txn and table is D.REF, 'reference table')
        return using(cur)
    db._env = types.SimpleNamespace(ext_cursor=ext_cursor)
    n = X.fresh('refs', I)
    X.assume(n >= 0)
    RID, REF = fn(IdC(c), 'ref.id'), z3.Function('ref', I, I)
    g = z3.Const(X.name('g'), I)
    sg = Seg(g, z3.IntVal(0), n, [(T, (RID(g), Item(REF(g), 'ref', {})))])
    sg.sp = ('given',)
    src = MList.of([sg])

    def before(start, v, k):
        w.disk = c12.sym_set('disk')
        w.had = X.choose(2, 'stored')
        if w.had:
            x = c12.ref_item('some')
            X.assume(w.disk.mem(x.t))
        cur.cur = c12.Row(w, RID(k), c12.RefSet(w.disk) if w.had else None)

    def after(start, end, v, k):
        cover('round')
        c12.stored_row(cur.cur.row, w.disk, lambda t: z3.And(
            w.disk.mem(t) if w.had else z3.BoolVal(False), t != REF(k)),
            c12.ref_item('any'))
        cur.cur = None

    def final(start):
        w.done = True
    X.for_rule = ForRule(lambda s: s is src, lambda: None, before, after,
                         final)
    with Patch(r, set=c12.RefSetOf), Patch(r.common, db_defs=defs):
        db.ext_cleanup(txn, src)
    X.prove(w.done, 'all references are removed')


class Fail(Exception):
    pass


@unit('C13', [F + 'backend:_ext_cleanup'], assumes=[
    'lmdb: a transaction is committed whole or dropped'], bounds=())
def pass_(m):
    r = m.load(BE)
    now = object()
    st = types.SimpleNamespace(txn=None)
    log = []
    cnt = X.fresh('removed', I)
    X.assume(z3.And(cnt >= 0, cnt <= r.cleanup_max_results))
    gone = MList.of([seqs.Opaque(cnt)])

    def begin(write=False):
        X.prove(st.txn is None and write is True, 'one write transaction')
        st.txn = Txn(log, write)
        return st.txn

    def ts(txn, t, bound=None):
        X.prove(txn is st.txn and t is now, 'cleanup of partitions')
        X.prove(bound is not None, 'number of removals is bounded')
        X.prove(eq(bound, r.cleanup_max_results), 'number of removals')
        X.prove(log[-1] == ('begin', True), 'in the transaction')
        log.append('rows')
        if X.choose(2, 'rows fail'):
            raise Fail()
        return gone

    def refs(txn, rs):
        X.prove(txn is st.txn and rs is gone, 'references of removed rows')
        X.prove(log[-1] == 'rows', 'in the transaction')
        log.append('refs')
        if X.choose(2, 'references fail'):
            raise Fail()
    none = types.SimpleNamespace()
    names = {i: none for i in r.Databases._fields}
    names.update(timeseries=types.SimpleNamespace(ext_cleanup=ts),
                 ref=types.SimpleNamespace(ext_cleanup=refs))
    try:
        more = r._ext_cleanup(types.SimpleNamespace(ext_begin=begin),
                              r.Databases(**names), now)
    except Fail:
        cover('failed')
        X.prove(log[-1] == ('abort', True), 'failed pass is dropped')
        return
    X.prove(log[-1] == ('commit', True), 'pass is committed')
    X.prove('rows' in log, 'rows are removed')
    X.prove(iff(mkbool(z3.BoolVal('refs' in log)), mkbool(cnt > 0))
            if 'refs' not in log else True,
            'references of removed rows are removed')
    cover('done')
    X.prove(iff(bool(more), mkbool(cnt >= r.cleanup_max_results)),
            'another pass when the allowed number is reached')


@unit('C13', [F + 'timeseriesdb:_ext_inc_partition_count'], assumes=A,
      bounds=())
def counts(m):
    c14.inc_unit(m)


import units.lmdbb   # noqa
