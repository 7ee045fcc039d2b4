"""C28: memory backend.  Backend is created and filled only through its
interface; events are arbitrary abstract items with pairwise distinct ids."""

import types

import z3

from vf import libs, seqs
from vf.unit import unit, cover
from units.lib import *     # noqa
from vf.syms import StrC, IdC, TsC, PayloadC, TypeC, sym_int, sym_bool

MOD = 'hat.event.backends.memory'
F = 'backends.memory:'


def item_lt(c, f):
    """natural order of two abstract events, by the real Event.__lt__"""
    def mk(e):
        return c.Event(e.id, e.type, e.timestamp, e.source_timestamp,
                       e.payload)
    return lambda a, b: mk(a) < mk(b), lambda a, b: mk(a) > mk(b)


class Ev(Item):
    __slots__ = ()

    def _subst_(self, pairs):
        return Ev(tsub(self.t, pairs), self.kind, self.f)

    def __lt__(self, o):
        return self.f['_lt'](self, o)

    def __gt__(self, o):
        return self.f['_gt'](self, o)


class EvC(ItemC):
    def build(self, ts):
        return Ev(ts[0], self.kind, self.f)


def events(c, name='events'):
    f = {}
    f['id'] = fn(IdC(c), name + '.id')
    f['type'] = fn(TypeC, name + '.type')
    f['timestamp'] = fn(TsC(c), name + '.ts')
    f['source_timestamp'] = fn(OptC(TsC(c)), name + '.sts')
    f['payload'] = fn(OptC(PayloadC), name + '.payload')
    f['_lt'], f['_gt'] = item_lt(c, f)
    if X.bound is not None:
        n = X.choose(X.bound + 1, name)
        r = MList([Ev(z3.IntVal(i), 'event', f) for i in range(n)])
        r.n = z3.IntVal(n)
        for i in range(n):
            add_index(z3.IntVal(i))
        for i in range(n):
            for j in range(i):
                X.assume(bool_term(not_(eq(f['id'](z3.IntVal(i)),
                                           f['id'](z3.IntVal(j))))))
    else:
        n = X.fresh(name + '.len', I)
        X.assume(n >= 0)
        g = z3.Const(X.name('g'), I)
        r = MList.of([Seg(g, z3.IntVal(0), n, [(T, Ev(g, 'event', f))])])
        r.n = n
        r.parts[0].sp = r.sp = seqs.new_space()
        libs.pair_universal(n, lambda a, b: z3.Implies(a != b, bool_term(
            not_(eq(f['id'](a), f['id'](b))))), r.sp)
    r.f = f
    r.sp = getattr(r, 'sp', None)
    return r


def subs(m, want):
    """contract of subscriptions (C01): one opaque predicate of the type"""
    M = z3.Function('Matches', I, B)

    def create(types_):
        X.prove(types_ is want, 'subscription of the requested types')
        return types.SimpleNamespace(
            matches=lambda t: mkbool(M(t.t)))
    return create, M


class Log:
    def __init__(self):
        self.calls = []


def backend(m, evs, log=None):
    r = m.load(MOD)
    c = m.load('hat.event.common')
    log = log or Log()
    aio = Over(r.aio, Group=lambda *a, **k: object(),
               call=lambda f, *a: libs.Coro(f, a, {}))
    with Patch(r, aio=aio):
        b = r.MemoryBackend(MDict(), lambda e: log.calls.append(('r', e)),
                            lambda e: log.calls.append(('f', e)))
        got = libs.await_(b.register(evs))
    return r, c, b, got


def run(r, b, params, common=None):
    with Patch(r, **({'common': common} if common else {})):
        return libs.await_(b.query(params))


def opt_ts(c, name):
    return fresh(TsC(c), name) if X.choose(2, name) else None


def le(a, b):
    return bool_term(not_(cmp('<', b, a)))


TS_FUNCTIONS = [F + 'MemoryBackend.register', F + 'MemoryBackend.query',
                F + 'MemoryBackend._query_timeseries', F + '_filter_t_from',
                F + '_filter_t_to', F + '_filter_event_types',
                F + '_filter_source_t_from', F + '_filter_source_t_to']


def ts_unit(mode, by, asc):
    @unit('C28', TS_FUNCTIONS, timeout=250,
          name=f'timeseries_{mode}_{by}_{"asc" if asc else "desc"}',
          assumes=['C01: contract of subscriptions', 'stored events have '
                   'pairwise distinct identifiers',
                   'last event id is one of the matching events'])
    def _(m):
        timeseries(m, mode, by, asc)


for _mode in ('filters', 'paging'):
    for _by in ('TIMESTAMP', 'SOURCE_TIMESTAMP'):
        for _asc in (True, False):
            ts_unit(_mode, _by, _asc)


def timeseries(m, mode, by, asc):
    c = m.load('hat.event.common')
    evs = events(c)
    f, n = evs.f, evs.n
    r, c, b, got = backend(m, evs)
    want_types = SymVal(X.fresh('types', I), 'Types', list)
    create, M = subs(m, want_types)
    et = None
    q = dict(t_from=None, t_to=None, source_t_from=None, source_t_to=None)
    limit = last = None
    if mode == 'filters':
        for k in q:
            q[k] = opt_ts(c, k)
        et = want_types if X.choose(2, 'types') else None
    else:
        # one filter is enough to exercise paging over filtered events
        q['t_from'] = opt_ts(c, 't_from')
        limit = sym_int('max', 0) if X.choose(2, 'max') else None
        last = fresh(IdC(c), 'last') if X.choose(2, 'last') else None
    by = c.OrderBy[by]
    params = c.QueryTimeseriesParams(
        event_types=et, order_by=by, max_results=limit, last_event_id=last,
        order=c.Order.ASCENDING if asc else c.Order.DESCENDING, **q)
    src = by == c.OrderBy.SOURCE_TIMESTAMP

    def sel(k):
        ts, st = f['timestamp'](k), f['source_timestamp'](k)
        some = z3.Not(bool_term(eq(st, None)))
        sv = st.value()
        t = [k >= 0, k < n]
        if et is not None:
            t.append(M(f['type'](k).t))
        if q['t_from'] is not None:
            t.append(le(q['t_from'], ts))
        if q['t_to'] is not None:
            t.append(le(ts, q['t_to']))
        if q['source_t_from'] is not None:
            t += [some, le(q['source_t_from'], sv)]
        if q['source_t_to'] is not None:
            t += [some, le(sv, q['source_t_to'])]
        if src:
            t.append(some)
        return z3.And(*t)

    def key(k):
        return (f['source_timestamp'](k).value() if src else
                f['timestamp'](k), f['id'](k))

    def before(a, b):
        """event a strictly precedes b in the requested order"""
        x, y = key(a), key(b)
        return bool_term(cmp('<', x, y) if asc else cmp('<', y, x))
    p = None
    if last is not None:
        p = X.fresh('p', I)
        X.assume(sel(p))
        X.assume(bool_term(eq(f['id'](p), last)))
        add_index(p, evs.sp)

    def elig(k):
        return z3.And(sel(k), before(p, k)) if p is not None else sel(k)
    res = run(r, b, params, Over(c, create_subscription=create))
    page(res, elig, before, lambda k: Ev(k, 'event', f), evs.sp, limit)


def page(res, elig, before, mk, sp, limit):
    """res: first `limit` of the eligible events ordered by `before`, and
    more_follows exactly when some are left out"""
    out = libs.vc_list(res.events)
    more = res.more_follows
    if limit is not None:
        X.prove(cmp('<=', libs.vc_len(out), limit), 'at most max results')
    goal = X.choose(4, 'goal')
    if goal == 0:
        each(out, lambda v, j: X.prove(elig(v.t), 'only matching events'))
    elif goal == 1:
        pair(out, lambda x, y: X.prove(before(x.t, y.t), 'order'))
    elif goal == 2:
        k = X.fresh('k', I)
        add_index(k, sp)
        X.assume(elig(k))
        missing = not_(has(out, mk(k)))
        if not missing:
            raise seqs_cut()
        X.prove(more, 'nothing missing unless more follows')
        if limit is not None:
            X.prove(cmp('==', libs.vc_len(out), limit), 'full page')
        each(out, lambda v, j: X.prove(before(v.t, k), 'first ones'))
    else:
        if not more:
            raise seqs_cut()
        # some eligible event is not returned
        if limit is None:
            X.prove(False, 'no more follows without limit')
            return
        exists_missing(out, elig, sp)


def pair(lst, body):
    """two emitted values at consecutive-or-later positions"""
    ps = [p for p in libs.to_parts(lst) if not (isinstance(p, list)
                                                and not p)]
    if not ps:
        return
    if len(ps) > 1:
        raise Unsupported('pair over parts')
    p = ps[0]
    if isinstance(p, list):
        for i in range(len(p)):
            for j in range(i + 1, len(p)):
                body(p[i], p[j])
        return
    i, j = X.fresh('i', I), X.fresh('j', I)
    X.assume(z3.And(p.dom(i), p.dom(j), i < j))
    add_index(i, p.sp)
    add_index(j, p.sp)
    for gi, x in p.at(i):
        for gj, y in p.at(j):
            if isinstance(x, Seg) or isinstance(y, Seg):
                raise Unsupported('pair over nested')
            if not X.choose(2, 'emits'):
                continue
            X.assume(z3.And(gi, gj))
            body(x, y)
            raise seqs_cut()


def exists_missing(out, elig, sp):
    if X.bound is not None:
        ts = []
        vals = out.items()
        for k in range(X.bound):
            k = z3.IntVal(k)
            ts.append(z3.And(elig(k), *[v.t != k for v in vals]))
        X.prove(z3.Or(*ts) if ts else z3.BoolVal(False),
                'more follows only if some are left out')
        return
    ps = [p for p in libs.to_parts(out) if not (isinstance(p, list)
                                                and not p)]
    if not ps:
        g = z3.Const(X.name('g'), I)
        universal(g, T, z3.Not(elig(g)))
    else:
        p, = ps
        if not (isinstance(p, Seg) and p.single() and p.ordered):
            raise Unsupported('missing of guarded list')
        idx = z3.Function(X.name('idx'), I, I)

        def inst(k):
            if k.sort() != I:
                return
            j = idx(k)
            X.assume(z3.Implies(elig(k), z3.And(
                p.dom(j), *[z3.Implies(gd, v.t == k) for gd, v in p.at(j)])))
            seqs.derive(j, sp=p.sp)
        seqs.universal_hook(inst, sp)
        seqs._max_depth[0] = 8
        try:
            add_index(z3.simplify(p.hi), p.sp)
            add_index(z3.simplify(p.lo), p.sp)
        finally:
            seqs._max_depth[0] = 5
    X.prove(False, 'more follows only if some are left out')


@unit('C28', [F + 'MemoryBackend._query_server', F + '_filter_server_id'],
      timeout=120, assumes=['stored events have pairwise distinct '
                            'identifiers', 'C04: contract of natural order'])
def server_query(m):
    c = m.load('hat.event.common')
    evs = events(c)
    f, n = evs.f, evs.n
    r, c, b, got = backend(m, evs)
    sid = sym_int('sid', 0)
    limit = sym_int('max', 0) if X.choose(2, 'max') else None
    last = fresh(IdC(c), 'last') if X.choose(2, 'last') else None
    if last is not None:
        X.assume(bool_term(eq(last.server, sid)))
    res = run(r, b, c.QueryServerParams(
        server_id=sid, persisted=sym_bool('persisted'), max_results=limit,
        last_event_id=last))

    def elig(k):
        e = f['id'](k)
        t = [k >= 0, k < n, bool_term(eq(e.server, sid))]
        if last is not None:
            t.append(bool_term(cmp('<', last, e)))
        return z3.And(*t)

    def before(x, y):
        return bool_term(cmp('<', f['id'](x), f['id'](y)))
    page(res, elig, before, lambda k: Ev(k, 'event', f), evs.sp, limit)


@unit('C28', [F + 'MemoryBackend.get_last_event_id',
              F + 'MemoryBackend.register'])
def last_event_id(m):
    c = m.load('hat.event.common')
    evs = events(c)
    f, n = evs.f, evs.n
    log = Log()
    r, c, b, got = backend(m, evs, log)
    X.prove(got is evs, 'register returns its events')
    X.prove([i[0] for i in log.calls] == ['r', 'f'] and
            all(i[1] is evs for i in log.calls), 'callbacks in order')
    sid = sym_int('sid', 0)
    with Patch(r):
        e = libs.await_(b.get_last_event_id(sid))
    X.prove(eq(e.server, sid), 'server of the identifier')
    k = X.fresh('k', I)
    add_index(k, evs.sp)
    X.assume(z3.And(k >= 0, k < n, bool_term(eq(f['id'](k).server, sid))))
    X.prove(not_(cmp('<', e, f['id'](k))), 'not before any event')


@unit('C28', [F + 'MemoryBackend.get_last_event_id'])
def last_event_id_of_event(m):
    c = m.load('hat.event.common')
    evs = events(c)
    f, n = evs.f, evs.n
    r, c, b, got = backend(m, evs)
    sid = sym_int('sid', 0)
    e = libs.await_(b.get_last_event_id(sid))
    g = z3.Const(X.name('g'), I)
    universal(g, T, z3.Not(z3.And(
        g >= 0, g < n, bool_term(eq(f['id'](g), e)))), evs.sp)
    X.prove(eq(e, c.EventId(sid, 0, 0)), 'of an event or zero')
    g = z3.Const(X.name('g'), I)
    k = X.fresh('k', I)
    add_index(k, evs.sp)
    X.prove(z3.Not(z3.And(k >= 0, k < n, bool_term(
        eq(f['id'](k).server, sid)))), 'zero only without events')


class DictSpec:
    def __init__(self, kcodec, vcodec, inv):
        self.kcodec, self.vcodec, self.inv = kcodec, vcodec, inv


@unit('C28', [F + 'MemoryBackend._query_latest', F + '_filter_event_types'],
      timeout=120,
      assumes=['C01: contract of subscriptions', 'stored events have '
               'pairwise distinct identifiers; identifiers and timestamps '
               'of one server do not decrease in registration order'])
def latest(m):
    c = m.load('hat.event.common')
    evs = events(c)
    f, n = evs.f, evs.n

    def idlt(a, b):
        return bool_term(cmp('<', f['id'](a), f['id'](b)))

    def tsle(a, b):
        return le(f['timestamp'](a), f['timestamp'](b))

    def same(a, b):
        return bool_term(eq(f['id'](a).server, f['id'](b).server))

    def admissible(a, b):
        return z3.Implies(z3.And(a < b, same(a, b)),
                          z3.And(idlt(a, b), tsle(a, b)))
    if X.bound is None:
        libs.pair_universal(n, admissible, evs.sp)
    else:
        k = len(evs.items())
        for i in range(k):
            for j in range(i + 1, k):
                X.assume(admissible(z3.IntVal(i), z3.IntVal(j)))
    r, c, b, got = backend(m, evs)
    want = SymVal(X.fresh('types', I), 'Types', list)
    create, M = subs(m, want)
    et = want if X.choose(2, 'types') else None

    def sel(k):
        t = [k >= 0, k < n]
        if et is not None:
            t.append(M(f['type'](k).t))
        return z3.And(*t)

    def beats(v, k):
        """v is at least as new as k"""
        return z3.And(tsle(k, v), z3.Implies(z3.And(same(k, v), k != v),
                                             idlt(k, v)))

    def inv(at, vis):
        def a(j):
            p, (v,), _ = at(f['type'](j).t)
            return z3.Implies(z3.And(sel(j), vis(j)),
                              z3.And(p, beats(v, j)))

        def b(k):
            p, (v,), _ = at(k)
            return z3.Implies(p, z3.And(sel(v), vis(v),
                                        f['type'](v).t == k))
        return [(I, evs.sp, a, 'newest of the visited'),
                (I, 'keys', b, 'entries are visited events')]
    X.dict_spec = lambda d: DictSpec(
        seqs.in_space(TypeC, 'keys'),
        seqs.in_space(EvC('event', f), evs.sp), inv)
    res = run(r, b, c.QueryLatestParams(et),
              Over(c, create_subscription=create))
    out = libs.vc_list(res.events)
    X.prove(not_(res.more_follows), 'nothing follows')
    goal = X.choose(4, 'goal')
    if goal == 0:
        each(out, lambda v, j: X.prove(sel(v.t), 'only matching events'))
    elif goal == 1:
        distinct_pair(out, lambda x, y: X.prove(
            not_(eq(x.type, y.type)), 'one event of each type'))
    else:
        k = X.fresh('k', I)
        add_index(k, evs.sp)
        add_index(f['type'](k).t, 'keys')
        X.assume(sel(k))
        if goal == 2:
            X.prove(exists(out, lambda v: mkbool(
                f['type'](v.t).t == f['type'](k).t)),
                'every matching type')
        else:
            def newest(v, j):
                add_index(v.t, evs.sp)
                X.assume(bool_term(eq(v.type, f['type'](k))))
                X.prove(beats(v.t, k), 'newest event of its type')
            each(out, newest)
