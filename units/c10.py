"""C10: timeseries queries.

add       an event is added to the pending ones of each of its partitions,
          with the timestamp of the partition, in order of (timestamp,
          identifier), and exactly then a reference is given;
range     rows of the partition within times, in order of key, ascending or
          descending;
changes   pending events within times, in the same order;
merge     stored events that satisfy conditions and pending ones, both in
          order of the same key, are merged and filtered;
process   of all events in order, those behind the last given one that
          satisfy times, source times and types, up to the limit;
page      _query_partition filters with what was asked for and one more than
          the limit, pending events are those of the time of the query, at
          most the limit of events is given and more follow exactly when the
          one more is there;
query     the first partition of the order with some of the types is asked,
          none gives no events.

backend_timeseries   (units/lmdbb.py) ext_create: partitions are those of the
          configuration, in its order, with the events of their types."""

import types

import z3

from vf import aiom, libs, seqs
from vf.unit import unit, cover
from units.lib import *     # noqa
from units import lmdbm, c12
from units.lmdbm import Coded, View, using
from vf.syms import IdC, TsC, sym_int, sym_bool

TDB = 'hat.event.backends.lmdb.timeseriesdb'
F = 'backends.lmdb.timeseriesdb:'
A = ['lmdb: rows are in key order; a read transaction sees one state',
     'codecs of tables (C07)']
MAXID = (1 << 64) - 1


def load(m):
    r, c = m.load(TDB), m.load('hat.event.common')
    return r, c, r.common


def orders(rc):
    by = [rc.OrderBy.TIMESTAMP, rc.OrderBy.SOURCE_TIMESTAMP][
        X.choose(2, 'order by')]
    od = [rc.Order.ASCENDING, rc.Order.DESCENDING][X.choose(2, 'order')]
    return by, od


def opt_ts(c, name):
    return fresh(TsC(c), name) if X.choose(2, name) else None


def fields(c, by=None, rc=None):
    """events; those of a partition ordered by source timestamps have one"""
    src = TsC(c) if rc is not None and by == rc.OrderBy.SOURCE_TIMESTAMP \
        else OptC(TsC(c))
    return {'id': fn(IdC(c), 'event.id'),
            'timestamp': fn(TsC(c), 'event.timestamp'),
            'source_timestamp': fn(src, 'event.source'),
            'type': lambda t: Item(t, 'type', {})}


def key_of(rc, by, e):
    return (e.timestamp if by == rc.OrderBy.TIMESTAMP else
            e.source_timestamp, e.id)


# -------------------------------------------------------------------- add

@unit('C10', [F + 'TimeseriesDb.add', F + '_get_change_key'], assumes=[
    'bisect.insort with a key keeps a list ordered by the key',
    'partitions of an event type (C01)'], bounds=())
def add(m):
    r, c, rc = load(m)
    f = fields(c)
    t = X.fresh('event', I)
    event = Item(t, 'event', f)
    db = r.TimeseriesDb()
    n = X.fresh('partitions', I)
    X.assume(n >= 0)
    PID = z3.Function('pid', I, I)
    w = types.SimpleNamespace(ins=[], order=None)
    g = z3.Const(X.name('g'), I)
    sg = Seg(g, z3.IntVal(0), n, [(T, (mkint(PID(g)), Item(g, 'partition', {
        'order_by': lambda t: w.order})))])
    sg.sp = ('partitions',)
    src = MList.of([sg])

    def get_partitions(et):
        X.prove(eq(et, event.type), 'partitions of the type')
        return src
    db._get_event_type_partitions = get_partitions

    def insort(lst, x, lo=0, hi=None, *, key=None):
        X.prove(lst is w.pending, 'pending events of the partition')
        ts, e = libs.vc.unpack(x, 2, -1)
        u, b = fresh(TsC(c), 'ts'), Item(X.fresh('other', I), 'event', f)
        X.prove(key is not None and eq(key((u, b)), (u, b.id)),
                'order of pending events')
        w.ins.append((ts, e))

    def want():
        return event.timestamp if w.order == rc.OrderBy.TIMESTAMP else \
            event.source_timestamp

    def before(start, v, k):
        w.order = [rc.OrderBy.TIMESTAMP, rc.OrderBy.SOURCE_TIMESTAMP][
            X.choose(2, 'order by')]
        w.pid = mkint(PID(k))
        w.pending = MList()
        db._changes = c12.Slot(w.pid, w.pending, what='the partition')
        del w.ins[:]

    def after(start, end, v, k):
        ts = want()
        ts = ts.force() if isinstance(ts, SymOpt) else ts
        out = [v for p in rule.out.parts for v in p]
        X.prove(len(w.ins) == len(out) == (0 if ts is None else 1),
                'event is pending in each of its partitions')
        if not out or not w.ins or ts is None:
            cover('skipped')
            return
        cover('added')
        X.prove(and_(eq(w.ins[0][0], ts), eq(w.ins[0][1], event)),
                'pending event')
        X.prove(isinstance(out[0], rc.TimeseriesEventRef), 'reference')
        p, u, i = libs.vc.unpack(out[0].key, 3, -1)
        X.prove(and_(and_(eq(p, w.pid), eq(u, ts)), eq(i, event.id)),
                'reference of the event')
    rule = X.for_rule = ForRule(lambda s: s is src, lambda: None, before,
                                after, lambda s: None)
    with Patch(r, bisect=types.SimpleNamespace(insort=insort,
                                               insort_right=insort)):
        db.add(event)


# ------------------------------------------------------------------ range

@unit('C10', [F + '_ext_query_partition_events_range'], assumes=A + [
    'server identifiers are less than 2^64-1'], bounds=())
def range_(m):
    r, c, rc = load(m)
    by, od = orders(rc)
    D = rc.DbType
    w = types.SimpleNamespace(table=D.TIMESERIES_DATA, sp=('rows',))
    w.n = X.fresh('rows', I)
    X.assume(w.n >= 0)
    kc = TupC(tuple, IntC(0), TsC(c), TupC(
        c.EventId, IntC(0, MAXID), IntC(0, 1 << 64), IntC(0, 1 << 64)))
    w.KEY = fn(kc, 'row.key')
    w.value = lambda i: Item(i, 'event', {})
    w.ordered = lambda i: c12.Rows.ordered(w, i)
    pid = sym_int('pid', 1)
    t_from, t_to = opt_ts(c, 'from'), opt_ts(c, 'to')
    S, E = X.fresh('s', I), X.fresh('e', I)
    lo = fresh(TsC(c), 'lo') if t_from is None else t_from
    hi = fresh(TsC(c), 'hi') if t_to is None else t_to
    if t_from is None:
        X.assume(bool_term(eq(lo, c.Timestamp(-(1 << 63), 0))))
    if t_to is None:
        X.assume(bool_term(eq(hi, c.Timestamp((1 << 63) - 1, 999999))))
    a = (pid, lo, c.EventId(0, 0, 0))
    b = (pid, hi, c.EventId(MAXID, MAXID, MAXID))
    X.assume(z3.And(S >= 0, S <= w.n, E >= 0, E <= w.n))
    g = z3.Const(X.name('g'), I)
    universal(g, z3.And(g >= 0, g < w.n), z3.And(
        (g >= S) == bool_term(cmp('<=', a, w.KEY(g))),
        (g < E) == bool_term(cmp('<=', w.KEY(g), b))), w.sp)
    if X.choose(2, 'goal') == 1:
        # rows S <= i < E are those of the partition within times
        i = X.fresh('i', I)
        X.assume(z3.And(i >= 0, i < w.n))
        k = w.KEY(i)
        add_index(i, w.sp)
        X.prove(z3.And(S <= i, i < E) == bool_term(and_(eq(k[0], pid), and_(
            cmp('<=', lo, k[1]), cmp('<=', k[1], hi)))), 'rows of the partition within times')
        return
    txn = object()
    cur = c12.Snapshot(w, w.KEY)

    def begin(write=False):
        X.prove(write is False, 'read transaction')
        return using(txn)

    def ext_cursor(t, db):
        X.prove(t is txn and db is w.table, 'data table')
        return using(cur)
    env = types.SimpleNamespace(ext_begin=begin, ext_cursor=ext_cursor)
    asc = od == rc.Order.ASCENDING
    st = types.SimpleNamespace(out=None, end=False)
    row = lambda k: z3.simplify(S + k if asc else E - 1 - k)
    at_row = lambda p: p < w.n if asc else p >= 0

    def havoc(name, v):
        if isinstance(v, (bool, SymBool)):
            return lambda: mkbool(X.fresh(name, B))
        if isinstance(v, MList):
            def make():
                v._touch()
                v.parts = [seqs.Opaque(st.k)]
                st.out = v
                return v
            st.k = X.fresh('given', I)
            return make

    def state(ls, p):
        return [iff(v, mkbool(at_row(p))) for v in ls.values()
                if isinstance(v, (bool, SymBool))]

    def init(ls):
        p = cur._at()
        for i in (S, E, S - 1, E - 1):
            add_index(i, w.sp)
            w.KEY(i)
        X.prove(z3.Implies(z3.And(p >= 0, p < w.n) if asc else p >= 0,
                           p == row(0)), 'start: first row')
        X.prove(z3.Implies(S < E, p == row(0)), 'start: first row')
        for x in state(ls, p):
            X.prove(x, 'start: row is available')

    def before(ls):
        X.assume(z3.And(st.k >= 0, z3.Or(st.k == 0, st.k <= E - S)))
        cur.pos = row(st.k)
        add_index(cur.pos, w.sp)
        w.KEY(cur.pos)
        for x in state(ls, cur.pos):
            X.assume(bool_term(x))

    def given():
        X.prove(isinstance(st.out.parts[0], seqs.Opaque) and
                st.out.parts[0].n.eq(st.k), 'given rows')
        return [v for p in st.out.parts[1:] for v in p]

    def after(start, end):
        cover('round')
        vs = given()
        X.prove(len(vs) == 1, 'row is given')
        X.prove(eq(vs[0], Item(row(st.k), 'event', {})), 'event of the row')
        X.prove(st.k < E - S, 'row is of the partition within times')
        X.prove(cur.pos == row(z3.simplify(st.k + 1)), 'next row')
        for x in state(end, cur.pos):
            X.prove(x, 'row is available')

    def final(start):
        st.end = True
        X.prove(not given(), 'rows are given in rounds')
    X.while_rule = WhileRule(havoc, init, before, after, final,
                             ghosts=[(cur, 'pos'), (cur, 'moves')],
                             poison=True)
    with Patch(rc, db_defs=lmdbm.defs(D)), Patch(
            r, bytes=lmdbm.codec_bytes):
        r._ext_query_partition_events_range(env, pid, t_from, t_to, od)
    X.prove(st.end, 'rows are given')
    cover('end')
    X.prove(z3.Or(st.k == E - S, z3.And(E <= S, st.k == 0)),
            'all rows are given')


# ---------------------------------------------------------------- changes

class Pending:
    """pending events (TS(i), EV(i)), i < n, of a partition, in order of
    (timestamp, identifier)"""

    def __init__(w, r, c, rc, by):
        w.f = fields(c, by, rc)
        w.n = X.fresh('pending', I)
        X.assume(w.n >= 0)
        w.EV = z3.Function('pending.event', I, I)
        w.key = lambda i: key_of(rc, by, w.event(i))
        w.sp = ('pending',)
        g = z3.Const(X.name('g'), I)
        sg = Seg(g, z3.IntVal(0), w.n, [(T, (w.key(g)[0], w.event(g)))])
        sg.sp = w.sp
        w.lst = MList.of([sg])

    def event(w, i):
        return Item(w.EV(i), 'event', w.f)

    def ordered(w, i):
        g = z3.Const(X.name('g'), I)
        universal(g, z3.And(g >= 0, g < w.n, i >= 0, i < w.n), z3.And(
            (g < i) == bool_term(cmp('<', w.key(g), w.key(i))),
            (g > i) == bool_term(cmp('<', w.key(i), w.key(g))),
            (g == i) == (w.EV(g) == w.EV(i))), w.sp)


@unit('C10', [F + '_query_partition_changes'], assumes=[
    'pending events are in order (unit add)'], bounds=())
def changes(m):
    r, c, rc = load(m)
    by, od = orders(rc)
    w = Pending(r, c, rc, by)
    main = by == rc.OrderBy.TIMESTAMP
    ts = {i: opt_ts(c, i) for i in (('t_from', 't_to') if main else (
        'source_t_from', 'source_t_to'))}
    for i in ('t_from', 't_to', 'source_t_from', 'source_t_to'):
        if i not in ts:
            ts[i] = Unknown()
    params = types.SimpleNamespace(order=od, order_by=by, **ts)
    a, b = (ts['t_from'], ts['t_to']) if main else (
        ts['source_t_from'], ts['source_t_to'])
    res = r._query_partition_changes(w.lst, params)
    goal = X.choose(3, 'goal')
    if goal == 0:
        # every pending event within times is given
        i = X.fresh('i', I)
        X.assume(z3.And(i >= 0, i < w.n))
        t = w.key(i)[0]
        if a is not None:
            X.assume(bool_term(cmp('<=', a, t)))
        if b is not None:
            X.assume(bool_term(cmp('<=', t, b)))
        add_index(i)
        add_index(w.n - 1 - i)
        w.ordered(i)
        # events where the search has begun and ended
        for x, sp, via in list(X.witness_terms):
            if str(x).startswith('e!') or 'exit' in str(x):
                add_index(w.n - 1 - x)
        X.prove(has(res, w.event(i)), 'every event within times')
        return
    ps = [p for p in libs.to_parts(res) if not (isinstance(p, list)
                                                and not p)]
    if not ps:
        return
    if len(ps) != 1 or not isinstance(ps[0], Seg) or not ps[0].ordered:
        raise Unsupported('parts of pending events')
    p = ps[0]

    def item(j):
        X.assume(p.dom(j))
        add_index(j)
        add_index(w.n - 1 - j)
        em = p.at(j)
        gd, v = em[X.choose(len(em), 'emit') if len(em) > 1 else 0]
        X.assume(gd)
        return v
    if goal == 1:
        cover('item')
        v = item(X.fresh('j', I))
        X.prove(has(w.lst, (key_of(rc, by, v)[0], v)), 'pending event')
        return
    i, j = X.fresh('i', I), X.fresh('j', I)
    X.assume(i < j)
    x, y = item(i), item(j)
    w.ordered(i)
    w.ordered(z3.simplify(w.n - 1 - i))
    k, l = key_of(rc, by, x), key_of(rc, by, y)
    cover('order')
    X.prove(cmp('<', k, l) if od == rc.Order.ASCENDING else cmp('<', l, k),
            'order')


class Unknown:
    """value that is not to be used"""

    def __getattr__(self, n):
        raise Unsupported('time of the other order')


# ------------------------------------------------------------------ merge

@unit('C10', [F + '_ext_query_partition_events'], assumes=[
    'heapq.merge of sequences in order of a key is all of their items in '
    'order of the key', 'contract of _ext_query_partition_events_range '
    '(unit range_): rows are stored under (partition, timestamp of the '
    'order, identifier) (C14)', 'pending events within times are in order '
    '(unit changes)', 'contract of _Filter.process (unit process)'],
    bounds=())
def merge(m):
    r, c, rc = load(m)
    by, od = orders(rc)
    f = fields(c, by, rc)
    main = by == rc.OrderBy.TIMESTAMP
    params = types.SimpleNamespace(
        order=od, order_by=by, t_from=object(), t_to=object(),
        source_t_from=object(), source_t_to=object())
    COND = z3.Function('conditions', I, B)
    pid, env = object(), object()

    def events(name):
        n = X.fresh(name, I)
        X.assume(n >= 0)
        EV = z3.Function(name + '.event', I, I)
        g = z3.Const(X.name('g'), I)
        sg = Seg(g, z3.IntVal(0), n, [(T, Item(EV(g), 'event', f))])
        sg.sp = (name,)

        def ordered(i):
            h = z3.Const(X.name('g'), I)
            k, l = (key_of(rc, by, Item(EV(x), 'event', f)) for x in (h, i))
            if od == rc.Order.DESCENDING:
                k, l = l, k
            universal(h, z3.And(h >= 0, h < n, i >= 0, i < n, h < i),
                      bool_term(cmp('<', k, l)), (name,))
        return MList.of([sg]), EV, n, ordered
    rows, REV, rn, rord = events('stored')
    changes, CEV, cn, cord = events('pending')
    merged, out = MList.of([seqs.Opaque(X.fresh('merged', I))]), MList.of(
        [seqs.Opaque(X.fresh('filtered', I))])
    log = []

    def range_stub(*a):
        X.prove(a[0] is env and a[1] is pid, 'rows of the partition')
        X.prove(a[2:4] == ((params.t_from, params.t_to) if main else (
            params.source_t_from, params.source_t_to)),
            'rows within times of the order')
        X.prove(a[4] == od, 'order of rows')
        return rows

    def merge_stub(*its, key=None, reverse=False):
        log.append('merge')
        X.prove(len(its) == 2, 'stored and pending events')
        X.prove(reverse == (od == rc.Order.DESCENDING), 'order of the merge')
        e = Item(X.fresh('any', I), 'event', f)
        X.prove(key is not None and eq(key(e), key_of(rc, by, e)),
                'key of the merge')
        x, y = its if its[1] is changes else its[::-1]
        X.prove(y is changes, 'pending events are merged')
        ps = [p for p in libs.to_parts(x) if not (isinstance(p, list)
                                                  and not p)]
        if len(ps) != 1 or not isinstance(ps[0], Seg):
            raise Unsupported('parts of stored events')
        g = z3.Const(X.name('g'), I)
        want = Seg(g, z3.IntVal(0), rn, [(COND(REV(g)), Item(REV(g), 'event',
                                                             f))])
        want.sp = ('stored',)
        same(x, MList.of([want]),
             lambda a, b: X.prove(eq(a, b), 'stored event'),
             'stored events that satisfy conditions')
        return merged

    def process(es):
        X.prove(es is merged, 'all events are filtered')
        return out

    # the goals of merge end the path: merge is checked or passed
    check = X.choose(2, 'check')
    conditions = types.SimpleNamespace(
        matches=lambda e: mkbool(COND(e.t)))
    stub = merge_stub if check else (lambda *a, **k: (
        log.append('merge'), merged)[1])
    with Patch(r, _ext_query_partition_events_range=range_stub,
               heapq=types.SimpleNamespace(merge=stub)):
        res = r._ext_query_partition_events(
            env, conditions, pid, params, changes,
            types.SimpleNamespace(process=process))
    cover('result')
    X.prove(log == ['merge'], 'events are merged')
    ps = [p for p in libs.to_parts(res) if not (isinstance(p, list)
                                                and not p)]
    X.prove(ps == out.parts, 'result is what the filter gives')


# ---------------------------------------------------------------- process

def process_unit(m):
    r, c, rc = load(m)
    f = fields(c)
    SUB = z3.Function('subscription', I, B)
    n = X.fresh('events', I)
    X.assume(n >= 0)
    EV = z3.Function('event', I, I)
    g = z3.Const(X.name('g'), I)
    sg = Seg(g, z3.IntVal(0), n, [(T, Item(EV(g), 'event', f))])
    sg.sp = ('events',)
    src = MList.of([sg])
    ts = {i: (X.fresh('no ' + i, B), fresh(TsC(c), i)) for i in (
        't_from', 't_to', 'source_t_from', 'source_t_to')}
    sub = types.SimpleNamespace(matches=lambda t: mkbool(SUB(t.t))) \
        if X.choose(2, 'types') else None
    limit = sym_int('limit', 1)
    last = fresh(IdC(c), 'last') if X.choose(2, 'last') else None
    flt = r._Filter(subscription=sub, max_results=limit, last_event_id=last,
                    **{k: SymOpt(v[0], lambda v=v: v[1])
                       for k, v in ts.items()})
    SEEN, CNT = z3.Function('seen', I, B), z3.Function('count', I, I)
    w = types.SimpleNamespace()

    def passes(e):
        """as a formula: (not asked) or (within)"""
        src = f['source_timestamp'].terms(e.t)
        s = TsC(c).build(src[1:])
        x = []
        for k, v in ts.items():
            a, b = (v[1], s if k.startswith('source') else e.timestamp)
            if k.endswith('to'):
                a, b = b, a
            ok = bool_term(cmp('<=', a, b))
            if k.startswith('source'):
                ok = z3.And(z3.Not(src[0]), ok)
            x.append(z3.Or(v[0], ok))
        if sub is not None:
            x.append(SUB(e.t))
        return z3.And(*x)

    def init():
        X.prove(eq(flt._max_results, limit), 'start: limit')
        x = flt._last_event_id
        X.prove((x is None) == (last is None) and (
            x is None or eq(x, last)), 'start: last given event')

    def facts(k):
        X.assume(z3.And(CNT(k) >= 0, CNT(k) <= int_term(limit)))
        if last is None:
            X.assume(SEEN(k))

    def before(start, v, k):
        facts(k)
        w.e = Item(EV(k), 'event', f)
        flt._max_results = mkint(z3.simplify(int_term(limit) - CNT(k)))
        w.seen = X.decide(SEEN(k))
        flt._last_event_id = None if w.seen else last
        w.want = z3.And(SEEN(k), passes(w.e), CNT(k) < int_term(limit))
        X.assume(CNT(k + 1) == CNT(k) + z3.If(w.want, 1, 0))
        X.assume(SEEN(k + 1) == z3.Or(SEEN(k), bool_term(
            eq(w.e.id, last)) if last is not None else T))

    def after(start, end, v, k):
        cover('round')
        out = [v for p in rule.out.parts for v in p]
        X.prove(z3.BoolVal(len(out) == 1) == w.want,
                'exactly the events asked for')
        X.prove(len(out) <= 1, 'event is given once')
        if out:
            cover('given')
            X.prove(eq(out[0], w.e), 'event')
        X.prove(eq(flt._max_results, mkint(int_term(limit) - CNT(k + 1))),
                'limit')
        x = flt._last_event_id
        X.prove(z3.BoolVal(x is None) == SEEN(k + 1), 'last given event')
        X.prove(x is None or eq(x, last), 'last given event')

    def left(start, v, k):
        cover('limit')
        X.prove(CNT(k) >= int_term(limit), 'events are given up to the limit')
        X.prove(not [v for p in rule.out.parts if isinstance(p, list)
                     for v in p], 'event')
    rule = X.for_rule = ForRule(
        lambda s: s is src, init, before, after, lambda s: None, left=left,
        ghosts=[(flt, '_max_results'), (flt, '_last_event_id')])
    flt.process(src)


@unit('C10', [F + '_Filter.process'], timeout=300, bounds=())
def process(m):
    process_unit(m)


# ------------------------------------------------------------------- page

def page_unit(m):
    r, c, rc = load(m)
    f = fields(c)
    db = r.TimeseriesDb()
    limit = sym_int('limit', 0)
    names = ('t_from', 't_to', 'source_t_from', 'source_t_to',
             'last_event_id')
    params = types.SimpleNamespace(
        order=object(), order_by=object(), **{i: object() for i in names})
    pid, sub = sym_int('pid', 1), object()
    flt = types.SimpleNamespace()
    made = []
    bind = __import__('inspect').signature(r._Filter.__init__)

    def Filter(*a, **k):
        x = bind.bind(None, *a, **k).arguments
        X.prove(x['subscription'] is sub, 'filter: types')
        for i in names:
            X.prove(x[i] is getattr(params, i), f'filter: {i}')
        X.prove(eq(x['max_results'], limit + 1), 'filter: one more than the '
                'limit')
        made.append(1)
        return flt
    have = X.choose(2, 'pending')
    pend = MList.of([seqs.Opaque(X.fresh('pending', I))])
    db._changes = c12.Slot(pid, pend if have else c12._NO,
                           what='the partition')
    db._env, db._conditions = types.SimpleNamespace(), object()
    within = MList.of([seqs.Opaque(X.fresh('within', I))])

    def query_changes(lst, p):
        X.prove(p is params, 'pending events within times')
        if have:
            X.prove(lst is pend, 'pending events of the partition')
            return within
        X.prove(eq(libs.vc_len(lst), 0), 'no pending events')
        return MList()
    n = X.fresh('given', I)
    X.assume(z3.And(n >= 0, n <= int_term(limit) + 1))
    EV = z3.Function('given.event', I, I)

    def ext_query(*a):
        env, cond, p, ps, chs, fl = a
        X.prove(env is db._env and cond is db._conditions and ps is params
                and fl is flt, 'query of the partition')
        X.prove(eq(p, pid), 'partition')
        parts = [p for p in libs.to_parts(chs) if not (isinstance(p, list)
                                                       and not p)]
        X.prove(parts == (within.parts if have else []),
                'pending events within times')
        # others add and flush while it runs
        X.prove(chs is not pend, 'own list of pending events')
        g = z3.Const(X.name('g'), I)
        sg = Seg(g, z3.IntVal(0), n, [(T, Item(EV(g), 'event', f))])
        sg.sp = ('given',)
        return MList.of([sg])

    def execute(fn_, *a):
        def run():
            db._changes._at = lambda k: X.prove(
                False, 'pending events at the time of the query')
            return fn_(*a)
        return aiom.Now(run)
    db._env.execute = execute
    more = X.decide(n > int_term(limit))
    with Patch(r, _Filter=Filter, _ext_query_partition_events=ext_query,
               _query_partition_changes=query_changes):
        res = libs.await_(db._query_partition(pid, params, sub, limit))
    X.prove(len(made) == 1, 'events are filtered')
    X.prove(iff(res.more_follows, more), 'more follow')
    cover('more' if more else 'all')
    run_of(res.events, int_term(limit) if more else n,
           lambda v, pos: X.prove(v.t == EV(pos), 'event'), 'events')


@unit('C10', [F + 'TimeseriesDb._query_partition'], assumes=[
    'Environment.execute: calls are submitted at once and run in order of '
    'submission (one executor thread)',
    'contracts of _ext_query_partition_events (unit merge) and '
    '_query_partition_changes (unit changes)'], bounds=())
def page(m):
    page_unit(m)


# ------------------------------------------------------------------ query

@unit('C10', [F + 'TimeseriesDb.query'], assumes=[
    'contract of _query_partition (unit page)',
    'Subscription.isdisjoint (C02)'], bounds=())
def query(m):
    r, c, rc = load(m)
    by, od = orders(rc)
    db = r.TimeseriesDb()
    db._max_results = sym_int('limit', 1)
    n = X.fresh('partitions', I)
    X.assume(n >= 0)
    PID, DIS = z3.Function('pid', I, I), z3.Function('disjoint', I, B)
    w = types.SimpleNamespace(order=None, left=None)
    g = z3.Const(X.name('g'), I)
    sg = Seg(g, z3.IntVal(0), n, [(T, (mkint(PID(g)), Item(g, 'partition', {
        'order_by': lambda t: w.order,
        'subscription': lambda t: Item(t, 'psub', {})})))])
    sg.sp = ('partitions',)
    src = MList.of([sg])
    db._partitions = types.SimpleNamespace(items=lambda: src)
    asked = fresh(OptC(IntC(0)), 'asked')
    et = object() if X.choose(2, 'types') else None
    params = types.SimpleNamespace(event_types=et, max_results=asked,
                                   order=od, order_by=by)
    asked = asked.force() if isinstance(asked, SymOpt) else asked
    sub = types.SimpleNamespace(
        isdisjoint=lambda o: mkbool(DIS(o.t)) if isinstance(o, Item) and
        o.kind == 'psub' else None)
    subs = []

    def create_subscription(ts, *a):
        X.prove(ts is et, 'subscription of the types')
        subs.append(1)
        return sub

    def suitable():
        return z3.And(z3.BoolVal(w.order == by), z3.Not(DIS(w.k))
                      if et is not None else T)

    def before(start, v, k):
        w.k = k
        w.order = [rc.OrderBy.TIMESTAMP, rc.OrderBy.SOURCE_TIMESTAMP][
            X.choose(2, 'order by')]

    def after(start, end, v, k):
        cover('other')
        X.prove(z3.Not(suitable()), 'first suitable partition is asked')

    def left(start, v, k):
        w.left = True
        X.prove(suitable(), 'suitable partition is asked')
    cnt = X.fresh('found', I)
    X.assume(cnt >= 0)
    result = rc.QueryResult(events=MList.of([seqs.Opaque(cnt)]),
                            more_follows=sym_bool('more'))
    lim = db._max_results
    M = lim if asked is None else mkint(z3.If(
        int_term(asked) < int_term(lim), int_term(asked), int_term(lim)))
    calls = []

    def ask(pid, ps, sb, mx):
        X.prove(eq(pid, mkint(PID(w.k))) and ps is params, 'partition')
        X.prove((sb is None) if et is None else sb is sub, 'asked types')
        X.prove(eq(mx, M), 'limit')
        calls.append(1)
        return aiom.Now(lambda: result)
    db._query_partition = ask
    X.for_rule = ForRule(lambda s: s is src, lambda: None, before, after,
                         lambda s: setattr(w, 'left', False), left=left)
    with Patch(rc, create_subscription=create_subscription):
        res = libs.await_(db.query(params))
    if w.left:
        cover('asked')
        X.prove(res is result and len(calls) == 1, 'answer of the partition')
    else:
        cover('none')
        X.prove(w.left is False and not calls, 'no suitable partition')
        X.prove(eq(libs.vc_len(res.events), 0) and res.more_follows is False,
                'no events')


import units.lmdbb   # noqa
