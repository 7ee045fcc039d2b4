"""C08: admission of events by the LMDB backend.

register           generic round of the loop over the batch, from any state
                   with last identifier and timestamp of every server: the
                   event is stored (latest, timeseries, references, last
                   identifier and timestamp) exactly when its identifier is
                   greater, its timestamp is not smaller, conditions accept it
                   and some storage took it; otherwise nothing changes;
SystemDb           map of last identifiers and timestamps, pending changes;
Conditions         conjunction of conditions whose subscription matches;
_AllCondition, _AnyCondition, _JsonCondition, _equals: structural.

The lemma "greater than every identifier stored before" is the invariant of
the round: last identifier of the server never decreases."""

import types

import z3

from vf import libs, seqs, aiom
from vf.unit import unit, cover
from units.lib import *     # noqa
from vf.syms import (StrC, IdC, TsC, TypeC, PayloadC, JsonC, sym_int,
                     sym_bool, sym_str)
from units.c28 import Ev, EvC

BE = 'hat.event.backends.lmdb.backend'
SYS = 'hat.event.backends.lmdb.systemdb'
COND = 'hat.event.backends.lmdb.conditions'
F = 'backends.lmdb.'
A = ['contracts of LatestDb.add (C09), TimeseriesDb.add (C10), RefDb.add and '
     'remove (C12): they only change pending changes and memory state']


def events(c, name='events'):
    """batch of any length of events"""
    f = {'id': fn(IdC(c), name + '.id'), 'type': fn(TypeC, name + '.type'),
         'timestamp': fn(TsC(c), name + '.ts'),
         'source_timestamp': fn(OptC(TsC(c)), name + '.sts'),
         'payload': fn(PayloadC, name + '.payload')}
    return items('event', f, name)


class Last:
    """last identifiers and timestamps of servers (SystemDb contract)"""

    def __init__(self, c):
        self.c = c
        self.havoc()

    def havoc(self):
        c = self.c
        self.ids = fn(IdC(c), 'last.id')
        self.tss = fn(TsC(c), 'last.ts')
        self.set_ids, self.set_tss = [], []

    def get_last_event_id(self, s):
        for k, v in reversed(self.set_ids):
            if eq(k, s):
                return v
        r = self.ids(int_term(s))
        X.assume(int_term(r.server) == int_term(s))
        return r

    def get_last_timestamp(self, s):
        for k, v in reversed(self.set_tss):
            if eq(k, s):
                return v
        return self.tss(int_term(s))

    def set_last_event_id(self, i):
        self.set_ids.append((i.server, i))

    def set_last_timestamp(self, s, t):
        self.set_tss.append((s, t))


class Backend:
    """backend with databases by contract"""

    def __init__(self, m):
        w = self
        r, c = m.load(BE), m.load('hat.event.common')
        w.r, w.c = r, c
        w.result = m.load('hat.event.backends.lmdb.latestdb').AddResult
        w.events = events(c)
        w.last = Last(c)
        w.ref = ItemC('ref', {})
        w.log = []
        w.ts_log = []
        w.added = w.removed = None
        COND_ = z3.Function('conditions', I, B)
        w.cond = COND_

        def latest_add(ev):
            w.log.append(('latest', ev))
            a = w.ref.build([X.fresh('latest.ref', I)]) \
                if X.choose(2, 'latest') else None
            rem = None
            if a is not None and X.choose(2, 'removed'):
                rem = (fresh(IdC(c), 'removed'), a)
            w.added, w.removed = a, rem
            return w.result(added_ref=a, removed_ref=rem)

        def ts_add(ev):
            w.log.append(('timeseries', ev))
            n = X.fresh('tsrefs', I)
            X.assume(n >= 0)
            fr = z3.Function(X.name('ts.ref'), I, I)
            g = z3.Const(X.name('g'), I)
            w.tsrefs = MList.of([Seg(g, z3.IntVal(0), n,
                                     [(T, w.ref.build([fr(g)]))])])
            w.nts = n
            w.tsf = fr
            return w.tsrefs
        w.latest = types.SimpleNamespace(add=latest_add)
        w.ts = types.SimpleNamespace(add=ts_add)
        w.refs = types.SimpleNamespace(
            add=lambda e, refs: w.log.append(('ref', e, refs)),
            remove=lambda i, x: w.log.append(('remove', i, x)))
        b = r.LmdbBackend()
        w.b = b
        b._dbs = types.SimpleNamespace(system=w.last, latest=w.latest,
                                       timeseries=w.ts, ref=w.refs)
        b._conditions = types.SimpleNamespace(
            matches=lambda ev: mkbool(COND_(ev.t)))
        b._registered_queue = MList()
        w.count = sym_int('count', 0)
        b._registered_count = w.count
        w.queue_puts = []
        b._flush_queue = types.SimpleNamespace(
            put=lambda v: aiom.Now(lambda: w.queue_puts.append(v)))
        w.cb = []

        def callback(evs):
            w.cb.append(evs)
            X.prove(w.phase == 'end', 'callback after the batch is stored')
            return None
        b._registered_events_cb = callback if X.choose(2, 'callback') \
            else None
        b._flushed_events_cb = None
        w.phase = 'start'
        w.open = sym_bool('open')

    def before(self, start, ev, k):
        self.phase = 'round'
        self.last.havoc()
        self.id0 = self.last.get_last_event_id(ev.id.server)
        self.ts0 = self.last.get_last_timestamp(ev.id.server)
        self.log, self.added, self.removed = [], None, None
        self.nts = None

    def after(self, start, end, ev, k):
        c = self.c
        kinds = [i[0] for i in self.log]
        admit = and_(self.id0 < ev.id, not_(ev.timestamp < self.ts0),
                     mkbool(self.cond(ev.t)))
        if not self.log:
            cover('skipped')
            X.prove(not_(admit), 'admissible event is processed')
            self.unchanged()
            return
        X.prove(admit, 'only an admissible event is processed')
        X.prove(kinds.count('latest') == 1, 'latest storage once')
        X.prove(kinds.count('timeseries') == 1, 'timeseries storage once')
        X.prove(all(i[1] is ev or X.decide(bool_term(eq(i[1], ev)))
                    for i in self.log if i[0] != 'remove'),
                'the event is stored')
        rem = [i for i in self.log if i[0] == 'remove']
        if self.removed is None:
            X.prove(not rem, 'no reference is dropped')
        else:
            X.prove(len(rem) == 1, 'superseded reference is dropped')
            X.prove(and_(eq(rem[0][1], self.removed[0]),
                         eq(rem[0][2], self.removed[1])),
                    'the superseded reference is dropped')
        refs = [i for i in self.log if i[0] == 'ref']
        none = self.added is None and X.decide(self.nts <= 0)
        if none:
            cover('no storage')
            X.prove(not refs, 'event not taken by a storage: no references')
            self.unchanged()
            return
        cover('stored')
        X.prove(len(refs) == 1, 'references are stored once')
        (_, ev2, lst), = refs
        n = libs.vc_len(lst)
        want = self.nts + (0 if self.added is None else 1)
        which = X.choose(3, 'goal')
        if which == 0:
            X.prove(eq(n, mkint(want)), 'all references')
            return
        if which == 1:
            if self.added is not None:
                X.prove(has(lst, self.added), 'reference of latest storage')
            j = X.fresh('j', I)
            X.assume(z3.And(j >= 0, j < self.nts))
            add_index(j)
            X.prove(has(lst, self.ref.build([self.tsf(j)])),
                    'references of timeseries storage')
            return
        self.state(ev)

    def unchanged(self):
        X.prove(not self.last.set_ids and not self.last.set_tss,
                'last identifiers and timestamps do not change')

    def state(self, ev):
        s = fresh(IntC(0, 1 << 64), 'server')
        i1, t1 = (self.last.get_last_event_id(s),
                  self.last.get_last_timestamp(s))
        if s == ev.id.server:
            X.prove(eq(i1, ev.id), 'last identifier is of the stored event')
            X.prove(eq(t1, ev.timestamp),
                    'last timestamp is of the stored event')
            X.prove(self.id0 < i1, 'last identifier increases')
            X.prove(not_(t1 < self.ts0), 'last timestamp does not decrease')
        else:
            cover('other server')
            last0 = self.last.ids(int_term(s))
            X.prove(eq(i1, last0), 'last identifier of other servers')
            X.prove(eq(t1, self.last.tss(int_term(s))),
                    'last timestamp of other servers')


@unit('C08', [F + 'backend:LmdbBackend.register'], assumes=A, timeout=200,
      bounds=())
def register(m):
    w = Backend(m)

    def final(start):
        w.phase = 'end'
    X.for_rule = ForRule(lambda src: src is w.events, lambda: None, w.before,
                         w.after, final)
    r = w.r
    try:
        with Patch(r, aio=Over(r.aio, call=aiom.call)), \
                Patch(r.LmdbBackend, is_open=property(lambda _: w.open)):
            res = libs.await_(w.b.register(w.events))
    except r.common.BackendClosedError:
        cover('closed')
        X.prove(not_(w.open), 'error only when closed')
        X.prove(not w.log and not w.cb and not w.queue_puts,
                'closed: nothing is stored')
        return
    cover('end')
    X.prove(w.open, 'closed backend reports an error')
    same_items(w.events, res, 'registration returns the given events')
    X.prove(w.phase == 'end' or w.events.n == 0,
            'all events are considered')
    if w.b._registered_events_cb is None:
        X.prove(not w.cb, 'no callback')
    else:
        X.prove(len(w.cb) == 1, 'callback is called once')
        same_items(w.events, w.cb[0], 'callback gets the batch')
    q = w.b._registered_queue
    X.prove(eq(libs.vc_len(q), 1), 'batch waits for the flush once')
    same_items(w.events, q[0], 'batch waits for the flush notification')


# ------------------------------------------------------------ SystemDb

def system(m):
    r, c = m.load(SYS), m.load('hat.event.common')
    U = IntC(0, 1 << 64)
    db = r.SystemDb()

    def maps():
        return (MDict(base=SymMap.fresh(U, IdC(c), 'ids')),
                MDict(base=SymMap.fresh(U, TsC(c), 'tss')))
    db._last_event_ids, db._last_timestamps = maps()
    db._changes = r.Changes(*maps())
    db._env = None
    return r, c, db


def _at(d, k):
    return d[k] if k in d else None


def _same(a, b):
    if a is None or b is None:
        return mkbool(z3.BoolVal(a is None and b is None))
    return eq(a, b)


@unit('C08', [F + 'systemdb:SystemDb.get_last_event_id',
              F + 'systemdb:SystemDb.set_last_event_id',
              F + 'systemdb:SystemDb.get_last_timestamp',
              F + 'systemdb:SystemDb.set_last_timestamp'],
      timeout=120, bounds=())
def system_maps(m):
    r, c, db = system(m)
    s = fresh(IntC(0, 1 << 64), 'server')
    zero = c.EventId(s, 0, 0)
    id0, ts0 = db.get_last_event_id(s), db.get_last_timestamp(s)
    cid0 = _at(db._changes.last_event_ids, s)
    cts0 = _at(db._changes.last_timestamps, s)
    if s not in db._last_event_ids:
        cover('no events')
        X.prove(eq(id0, zero), 'no events: zero session and instance')
    if s not in db._last_timestamps:
        X.prove(eq(ts0, c.Timestamp(-(1 << 63), 0)),
                'no events: smallest timestamp')
    op = X.choose(2, 'operation')
    if op == 0:
        i = fresh(IdC(c), 'id')
        db.set_last_event_id(i)
        t, mine = None, eq(i.server, s)
    else:
        t = fresh(TsC(c), 'timestamp')
        s2 = fresh(IntC(0, 1 << 64), 'server')
        db.set_last_timestamp(s2, t)
        i, mine = None, eq(s2, s)
    id1, ts1 = db.get_last_event_id(s), db.get_last_timestamp(s)
    cid1 = _at(db._changes.last_event_ids, s)
    cts1 = _at(db._changes.last_timestamps, s)
    if X.decide(bool_term(mine)):
        cover('same')
        X.prove(eq(id1, id0 if i is None else i), 'last identifier')
        X.prove(eq(ts1, ts0 if t is None else t), 'last timestamp')
        X.prove(_same(cid1, cid0 if i is None else i),
                'identifier is pending for write')
        X.prove(_same(cts1, cts0 if t is None else t),
                'timestamp is pending for write')
        return
    cover('other')
    X.prove(eq(id1, id0), 'last identifier of other servers')
    X.prove(eq(ts1, ts0), 'last timestamp of other servers')
    X.prove(_same(cid1, cid0), 'pending identifier of other servers')
    X.prove(_same(cts1, cts0), 'pending timestamp of other servers')


@unit('C08', [F + 'backend:LmdbBackend.get_last_event_id'], bounds=())
def last_event_id(m):
    w = Backend(m)
    s = fresh(IntC(0, 1 << 64), 'server')
    try:
        with Patch(w.r.LmdbBackend, is_open=property(lambda _: w.open)):
            res = libs.await_(w.b.get_last_event_id(s))
    except w.r.common.BackendClosedError:
        X.prove(not_(w.open), 'error only when closed')
        return
    X.prove(w.open, 'closed backend reports an error')
    X.prove(eq(res, w.last.get_last_event_id(s)),
            'last identifier of the server')


# ---------------------------------------------------------- conditions

@unit('C08', [F + 'conditions:Conditions.__init__',
              F + 'conditions:Conditions.matches'], timeout=120, bounds=(),
      assumes=['contract of event type collection (C03): get yields values '
               'whose subscription matches the type'])
def conditions(m):
    r, c = m.load(COND), m.load('hat.event.common')
    SUB = z3.Function('cond.subscribed', I, I, B)
    M = z3.Function('cond.matches', I, I, B)
    nt = z3.Function('cond.types', I, I)
    ln = z3.Function('cond.type.len', I, I, I)
    seg = z3.Function('cond.type.segment', I, I, I, StrC.sorts[0])

    def types_of(k):
        X.assume(nt(k) >= 0)
        g = z3.Const(X.name('g'), I)
        sg = Seg(g, z3.IntVal(0), nt(k), [(T, etype(k, g))])
        sg.sp = ('conditions.types',)
        return MList.of([sg])

    def etype(k, g):
        X.assume(ln(k, g) >= 0)
        return SymTup(ln(k, g), lambda i: StrC.build([seg(k, g, i)]))

    def field(k, n):
        cur[0] = k
        return types_of(k) if n == 'subscriptions' else \
            Item(k, 'cconf', {})
    cur = [None]
    conf = items('conf', {'[]': field}, 'conditions')
    ev = Item(X.fresh('event', I), 'event',
              {'type': lambda t: Item(t, 'etype', {})})
    condc = ItemC('condition', {
        'matches': lambda k: lambda e: mkbool(M(k, e.t))})
    subc = ItemC('subscription', {})

    def create_subscription(gen):
        k = cur[0]
        X.prove(eq(libs.vc_len(gen), mkint(nt(k))),
                'all types of the condition')
        g, i = X.fresh('g', I), X.fresh('i', I)
        X.assume(z3.And(g >= 0, g < nt(k)))
        add_index(g)
        t = gen[mkint(g)]
        X.prove(eq(libs.vc_len(t), mkint(ln(k, g))), 'type of the condition')
        X.assume(z3.And(i >= 0, i < ln(k, g)))
        add_index(i)
        X.prove(eq(t[mkint(i)], StrC.build([seg(k, g, i)])),
                'segment of a type of the condition')
        return subc.build([k])

    def create_condition(cf):
        X.prove(cf.kind == 'cconf', 'configuration of the condition')
        return condc.build([cf.t])
    st = types.SimpleNamespace(pairs=None)

    def collection(pairs):
        X.prove(st.pairs is None, 'one collection')
        st.pairs = pairs

        def get(et):
            p, = st.pairs.parts
            g = z3.Const(X.name('g'), p.g.sort())
            out = []
            for gd, (sub, cond) in p.at(g):
                out.append((z3.And(gd, SUB(sub.t, et.t)), cond))
            sg = Seg(g, p.lo, p.hi, out)
            sg.sp = p.sp
            return MList.of([sg])
        return types.SimpleNamespace(get=get)
    common = Over(r.common, create_event_type_collection=collection,
                  create_subscription=create_subscription)
    with Patch(r, common=common, _create_condition=create_condition):
        cs = r.Conditions(conf)
        res = cs.matches(ev)
    X.prove(st.pairs is not None, 'conditions are indexed by subscription')
    iff_forall(res, I, lambda k: z3.Implies(
        z3.And(k >= 0, k < conf.n, SUB(k, ev.t)), M(k, ev.t)),
        'all conditions of the event type match')


def _items_conf(n):
    """configuration with nested conditions"""
    conds = items('cconf', {}, 'nested')
    return conds, {'type': n, 'conditions': conds}


def _quant(m, name, forall):
    r = m.load(COND)
    conds, conf = _items_conf(name)
    M = z3.Function('cond.matches', I, B)
    ev = object()

    def matches(k):
        def f(e):
            X.prove(e is ev, 'the event is matched')
            return mkbool(M(k))
        return f
    condc = ItemC('condition', {'matches': matches})
    with Patch(r, _create_condition=lambda cf: condc.build([cf.t])):
        x = (r._AllCondition if forall else r._AnyCondition)(conf)
    res = x.matches(ev)
    if forall:
        iff_forall(res, I, lambda k: z3.Implies(
            z3.And(k >= 0, k < conds.n), M(k)), 'all conditions match')
    else:
        iff_exists(res, I, lambda k: z3.And(k >= 0, k < conds.n, M(k)),
                   'some condition matches')


@unit('C08', [F + 'conditions:_AllCondition.__init__',
              F + 'conditions:_AllCondition.matches'])
def condition_all(m):
    _quant(m, 'all', True)


@unit('C08', [F + 'conditions:_AnyCondition.__init__',
              F + 'conditions:_AnyCondition.matches'])
def condition_any(m):
    _quant(m, 'any', False)


@unit('C08', [F + 'conditions:_create_condition'], bounds=())
def condition_kind(m):
    r = m.load(COND)
    kind = sym_str('type')
    conf = {'type': kind}
    want = {'all': '_AllCondition', 'any': '_AnyCondition',
            'json': '_JsonCondition'}
    got = {}

    def mk(n):
        def f(cf):
            X.prove(cf is conf, 'configuration')
            return n
        return f
    with Patch(r, **{n: mk(n) for n in want.values()}):
        try:
            res = r._create_condition(conf)
        except ValueError:
            res = None
    for k, n in want.items():
        if X.decide(bool_term(eq(kind, k))):
            cover(k)
            X.prove(res == n, f'condition {k}')
            return
    X.prove(res is None, 'unknown condition is rejected')


JKINDS = ['null', 'boolean', 'number', 'number', 'string', 'array', 'object']


def _jval(k, name, item):
    """JSON value of kind k; containers of abstract values"""
    if k == 0:
        return None
    if k == 1:
        return sym_bool(name)
    if k == 2:
        return sym_int(name)
    if k == 3:
        from vf.core import SymReal
        return SymReal(X.fresh(name, z3.RealSort()))
    if k == 4:
        return sym_str(name)
    if k == 5:
        n = X.fresh(name + '.len', I)
        X.assume(n >= 0)
        g = z3.Const(X.name('g'), I)
        f = z3.Function(X.name(name + '.item'), I, I)
        sg = Seg(g, z3.IntVal(0), n, [(T, item.build([f(g)]))])
        sg.sp = ('json', name)
        r = MList.of([sg])
        r.n, r.f = n, f
        return r
    return MDict(base=SymMap.fresh(StrC, item, name))


@unit('C08', [F + 'conditions:_JsonCondition.__init__',
              F + 'conditions:_JsonCondition.matches'], bounds=(),
      assumes=['hat.json.get gives the value at a path, or None'])
def condition_json(m):
    r, c = m.load(COND), m.load('hat.event.common')
    conf = {'type': 'json'}
    path, typ = None, None
    if X.choose(2, 'path'):
        path = conf['data_path'] = MList([sym_str('path')])
    types_ = ['null', 'boolean', 'string', 'number', 'array', 'object']
    if X.choose(2, 'type'):
        typ = conf['data_type'] = types_[X.choose(6, 'type')]
    value = Val()
    if X.choose(2, 'value'):
        conf['data_value'] = value
    k = X.choose(len(JKINDS), 'kind')
    data = _jval(k, 'data', ItemC('json', {}))
    whole = object()
    is_json = X.choose(2, 'payload')
    payload = c.EventPayloadJson(whole) if is_json else [
        None, c.EventPayloadBinary('t', b'')][X.choose(2, 'other')]
    ev = types.SimpleNamespace(payload=payload)
    same_ = sym_bool('equal')

    def get(d, p, default=None):
        X.prove(d is whole, 'data of the event')
        X.prove(default is None, 'missing data is null')
        if path is None:
            X.prove(eq(libs.vc_len(p), 0), 'no path: whole data')
        else:
            X.prove(eq(MList(libs.native(p)), path), 'configured path')
        return data

    def equals(a, b):
        X.prove(a is value and b is data, 'value is compared')
        return same_
    with Patch(r, json=Over(r.json, get=get), _equals=equals):
        res = r._JsonCondition(conf).matches(ev)
    if not is_json:
        X.prove(not_(res), 'only json payload')
        return
    want = True if typ is None else JKINDS[k] == typ
    if 'data_value' in conf:
        want = and_(want, same_)
    X.prove(iff(res, want), 'data of the type and value')


@unit('C08', [F + 'conditions:_equals'], bounds=(), timeout=120)
def equals(m):
    r = m.load(COND)
    EQ = z3.Function('json.equals', I, I, B)
    item = ItemC('json', {})
    i, k = X.choose(7, 'kind a'), X.choose(7, 'kind b')
    a, b = _jval(i, 'a', item), _jval(k, 'b', item)
    f = r._equals

    def rec(x, y):
        X.prove(x.kind == y.kind == 'json', 'nested values')
        return mkbool(EQ(x.t, y.t))
    with Patch(r, _equals=rec):
        res = f(a, b)
    if JKINDS[i] != JKINDS[k]:
        X.prove(not_(res), 'values of different kinds differ')
        return
    cover(JKINDS[i])
    if i == 0:
        X.prove(res, 'null')
    elif i == 1:
        X.prove(iff(res, iff(a, b)), 'booleans')
    elif i == 5:
        if not X.decide(a.n == b.n):
            X.prove(not_(res), 'lists of different lengths differ')
            return
        iff_forall(res, I, lambda x: z3.Implies(
            z3.And(x >= 0, x < a.n), EQ(a.f(x), b.f(x))), 'list items')
    elif i == 6:
        da, db = a.base, b.base
        iff_forall(res, StrC.sorts[0], lambda x: z3.And(
            da.dom(x) == db.dom(x), z3.Implies(
                da.dom(x), EQ(da.val(x)[0], db.val(x)[0]))),
            'object members')
    else:
        X.prove(iff(res, eq(a, b)), 'numbers and strings')


import units.lmdbb   # noqa
