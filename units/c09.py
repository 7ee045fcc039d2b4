"""C09: latest events.

ext_create   references of types are read as stored, references given later
             are larger than all of them, and the latest event of a type is
             the stored event under the reference of its type that
             conditions and subscription accept;
add          the latest event of a subscribed type becomes the new one unless
             the previous is greater; a type keeps its reference, a new type
             gets an unused one; the pending write holds the latest event;
query        result is exactly one event per requested known type.

Together: the latest event of a type is the greatest of those added (the
invariant of add), and it is what a query gives.

backend_create, backend_query   (units/lmdbb.py) the parts of the backend are
             created over one environment and a query reaches its database."""

import types

import z3

from vf import libs, seqs
from vf.unit import unit, cover
from units.lib import *     # noqa
from vf.syms import IdC, TsC, PayloadC, sym_int, sym_bool
from units.c28 import Ev, EvC, item_lt

LDB = 'hat.event.backends.lmdb.latestdb'
F = 'backends.lmdb.latestdb:'
A = ['contract of subscriptions (C01)',
     'event types are compared by value; a type without wildcards only '
     'matches itself (C01)']

STAR, QM = (z3.Function('etype.' + n, I, B) for n in ('star', 'question'))


def literal(v):
    """type given by its segments"""
    k = z3.Int(f'etype.{v!r}')
    X.assume(z3.And(STAR(k) if '*' in v else z3.Not(STAR(k)),
                    QM(k) if '?' in v else z3.Not(QM(k))))
    if v != ('*', ):
        X.assume(k != ALL)
    return k


ALL = z3.Int(f'etype.{("*", )!r}')      # type ('*', )
MATCH = z3.Function('etype.matches', I, I, B)      # query type, type


class EType(Item):
    """event type"""
    __slots__ = ()

    def __init__(self, t):
        super().__init__(t, 'etype', {})

    def _subst_(self, pairs):
        return EType(tsub(self.t, pairs))

    def _codec_(self):
        return ETC

    def _facts(self):
        literal(('*', ))

    def _contains_(self, x):
        self._facts()
        if x == '*':
            return mkbool(STAR(self.t))
        if x == '?':
            return mkbool(QM(self.t))
        raise Unsupported('segment of abstract type')

    def _eq_(self, o):
        if isinstance(o, tuple):
            if not all(isinstance(i, str) for i in o):
                raise Unsupported('comparison of abstract type')
            return mkbool(self.t == literal(o))
        return Item._eq_(self, o)

    def __eq__(self, o):
        return self._eq_(o)

    __hash__ = Sym.__hash__

    def __contains__(self, x):
        return X.decide(bool_term(self._contains_(x)))


class ETypeC(ItemC):
    def __init__(self):
        super().__init__('etype', {})

    def build(self, ts):
        return EType(ts[0])

    def flatten(self, v):
        if isinstance(v, tuple) and all(isinstance(i, str) for i in v):
            return [literal(v)]
        return super().flatten(v)


ETC = ETypeC()


class World:

    def __init__(self, m, name='event'):
        w = self
        r, c = m.load(LDB), m.load('hat.event.common')
        w.r, w.c = r, c
        f = {'id': fn(IdC(c), name + '.id'),
             'timestamp': fn(TsC(c), name + '.ts'),
             'source_timestamp': fn(OptC(TsC(c)), name + '.sts'),
             'payload': fn(OptC(PayloadC), name + '.payload')}
        w.TYPE = z3.Function(name + '.type', I, I)
        f['type'] = lambda t: EType(w.TYPE(t))
        f['_lt'], f['_gt'] = item_lt(c, f)
        w.f = f
        w.evc = EvC('event', f)
        w.SUB = z3.Function('latest.subscribed', I, B)
        w.sub = types.SimpleNamespace(matches=lambda t: mkbool(w.SUB(t.t)))

    def event(self, name='event'):
        return Ev(X.fresh(name, I), 'event', self.f)

    def db(self):
        """database in any state of the invariant"""
        w = self
        db = w.r.LatestDb()
        db._env = None
        db._subscription = w.sub
        w.REF = z3.Function('ref', I, I)
        w.RD = z3.Function('ref.has', I, B)
        w.EV = z3.Function('latest', I, I)
        w.ED = z3.Function('latest.has', I, B)
        w.next = X.fresh('next', I)
        sp = w.sp = ('types',)
        ts = seqs.in_space(ETC, sp)
        U = IntC(0)
        db._event_type_refs = MDict(base=SymMap(
            ts, U, lambda t: w.RD(t), lambda t: [w.REF(t)]))
        db._events = MDict(base=SymMap(
            ts, w.evc, lambda t: w.ED(t), lambda t: [w.EV(t)]))
        db._next_event_type_refs = libs.CountModel(mkint(w.next))
        db._changes = w.r.Changes(
            MDict(base=SymMap.fresh(U, w.evc, 'pending.data')),
            MDict(base=SymMap.fresh(U, ETC, 'pending.types')))
        g = z3.Const(X.name('g'), I)
        universal(g, T, z3.And(
            z3.Implies(w.ED(g), z3.And(w.RD(g), w.TYPE(w.EV(g)) == g,
                                       w.SUB(g))),
            z3.Implies(w.RD(g), z3.And(w.REF(g) < w.next,
                                       w.REF(g) >= 0))), sp)
        # different types have different references
        w.BACK = z3.Function('ref.type', I, I)
        universal(g, T, z3.Implies(w.RD(g), w.BACK(w.REF(g)) == g), sp)
        X.assume(w.next >= 1)
        return db


def _at(d, k):
    return d[k] if k in d else None


def _same(a, b):
    if a is None or b is None:
        return mkbool(z3.BoolVal(a is None and b is None))
    return eq(a, b)


@unit('C09', [F + 'LatestDb.add'], assumes=A, timeout=120, bounds=())
def add(m):
    w = World(m)
    db = w.db()
    ev = w.event()
    t, s = ev.type, EType(X.fresh('type', I))
    add_index(t.t, w.sp)
    add_index(s.t, w.sp)
    ref0, ev0 = _at(db._event_type_refs, s), _at(db._events, s)
    q = fresh(IntC(0), 'ref')
    data0, types0 = _at(db._changes.data, q), _at(db._changes.types, q)
    prev = _at(db._events, t)
    tref0 = _at(db._event_type_refs, t)
    res = db.add(ev)
    take = and_(mkbool(w.SUB(t.t)), True if prev is None else
                not_(prev > ev))
    ref1, ev1 = _at(db._event_type_refs, s), _at(db._events, s)
    data1, types1 = _at(db._changes.data, q), _at(db._changes.types, q)
    if not X.decide(bool_term(take)):
        cover('not taken')
        X.prove(res.added_ref is None and res.removed_ref is None,
                'nothing is stored')
        X.prove(and_(_same(ref0, ref1), _same(ev0, ev1),
                     _same(data0, data1), _same(types0, types1)),
                'state does not change')
        return
    cover('taken')
    X.prove(res.added_ref is not None, 'reference of the stored event')
    X.prove(isinstance(res.added_ref, w.r.common.LatestEventRef),
            'latest reference')
    ref = res.added_ref.key
    if prev is None:
        X.prove(res.removed_ref is None, 'no event is superseded')
    else:
        X.prove(res.removed_ref is not None, 'previous event is superseded')
        i, x = res.removed_ref
        X.prove(eq(i, prev.id), 'superseded event')
        X.prove(isinstance(x, w.r.common.LatestEventRef),
                'reference of the superseded event')
        X.prove(eq(x.key, ref), 'reference of the superseded event')
    if tref0 is not None:
        X.prove(eq(ref, tref0), 'type keeps its reference')
    else:
        cover('new type')
        X.prove(z3.And(int_term(ref) >= 0), 'reference of a new type')
        if ref0 is not None:
            X.prove(not_(eq(ref, ref0)), 'new reference is unused')
        X.prove(int_term(db._next_event_type_refs.start) > int_term(ref),
                'later references are larger')
    X.prove(int_term(db._next_event_type_refs.start) >= w.next,
            'references are not given again')
    if X.decide(s.t == t.t):
        X.prove(_same(ev1, ev), 'latest event of the type')
        X.prove(_same(ref1, ref), 'reference of the type')
    else:
        X.prove(_same(ev1, ev0), 'latest event of other types')
        X.prove(_same(ref1, ref0), 'reference of other types')
    if X.decide(bool_term(eq(q, ref))):
        X.prove(_same(data1, ev), 'latest event is pending for write')
        if tref0 is None:
            X.prove(_same(types1, t), 'new type is pending for write')
        else:
            X.prove(_same(types1, types0), 'pending types')
    else:
        X.prove(_same(data1, data0), 'pending events of other types')
        X.prove(_same(types1, types0), 'pending types')


def is_event(x):
    if not isinstance(x, Item) or x.kind != 'event':
        X.prove(False, 'result is a list of events')
        raise seqs_cut()
    return x


class Reqs(MList):
    """requested types; as a set given by its members"""


@unit('C09', [F + 'LatestDb.query'], assumes=A, timeout=120, bounds=())
def query(m):
    w = World(m)
    db = w.db()
    IN = z3.Function('requested', I, B)
    reqs = None
    if X.choose(2, 'types'):
        n = X.fresh('reqs', I)
        X.assume(n >= 0)
        rf = z3.Function('req', I, I)
        g = z3.Const(X.name('g'), I)
        sg = Seg(g, z3.IntVal(0), n, [(T, EType(rf(g)))])
        sg.sp = ('requests',)
        reqs = MList.of([sg])
        universal(g, z3.And(g >= 0, g < n), IN(rf(g)), ('requests',))

        def inset(k):
            return IN(k)
        reqs.__class__ = Reqs
        reqs._set_ = lambda: MSet(base=inset, kcodec=seqs.in_space(
            ETC, w.sp))
        POS = z3.Function('req.position', I, I)
        universal(g, T, z3.Implies(IN(g), z3.And(
            POS(g) >= 0, POS(g) < n, rf(POS(g)) == g)), w.sp)
    EX = z3.Function('req.match', I, I)

    def request(t):
        """type t is requested (C01)"""
        if reqs is None:
            return T
        return REQ(t)
    REQ = z3.Function('requested.type', I, B)
    g = z3.Const(X.name('g'), I)

    def create_subscription(ts):
        X.prove(ts is reqs or isinstance(ts, MSet),
                'subscription of the requested types')
        if isinstance(ts, MSet):
            k = X.fresh('t', I)
            add_index(k, w.sp)
            X.prove(iff(
                ts._contains_(EType(k)), mkbool(IN(k))),
                'subscription of the requested types')
        return types.SimpleNamespace(matches=lambda t: mkbool(REQ(t.t)))
    common = Over(w.r.common, create_subscription=create_subscription)
    params = w.c.QueryLatestParams(event_types=reqs)
    # C01: requested iff some request matches; wildcards only by * and ?
    if reqs is not None:
        def link(k):
            if k.sort() != I:
                return
            e = EX(k)
            X.assume(z3.Implies(REQ(k), z3.And(IN(e), MATCH(e, k))))
            X.assume(z3.Implies(IN(ALL), REQ(k)))
            X.assume(z3.Implies(z3.And(IN(k), z3.Not(STAR(k)),
                                       z3.Not(QM(k))), REQ(k)))
            X.assume(z3.Implies(z3.And(MATCH(e, k), z3.Not(STAR(e)),
                                       z3.Not(QM(e))), e == k))
        seqs.universal_hook(link, w.sp)
    with Patch(w.r, common=common):
        res = db.query(params)
    X.prove(res.more_follows is False, 'nothing follows')
    which = X.choose(3, 'goal')
    if which == 0:
        t = EType(X.fresh('type', I))
        add_index(t.t, w.sp)
        if reqs is not None:
            e = EX(t.t)
            add_index(e, w.sp)
        got = exists(res.events, lambda x: mkbool(
            is_event(x).t == w.EV(t.t)))
        if not got:
            cover('missing')
            X.prove(not_(and_(mkbool(request(t.t)), mkbool(w.ED(t.t)))),
                    'latest event of every requested type')
    elif which == 1:
        def sound(x, j):
            cover('sound')
            ty = is_event(x).type.t
            add_index(ty, w.sp)
            X.prove(z3.And(w.ED(ty), w.EV(ty) == x.t),
                    'event is the latest of its type')
            X.prove(request(ty), 'only requested types')
        each(res.events, sound)
    else:
        def dist(x, y):
            X.prove(is_event(x).type.t != is_event(y).type.t, 'one event per type')
        distinct_pair(res.events, dist)



@unit('C09', [F + 'ext_create'], assumes=A + [
    'stored types are distinct, as written by add'], timeout=120, bounds=())
def create(m):
    w = World(m)
    r = w.r
    DT = r.common.DbType
    sp = w.sp = ('types',)
    ND, HD = z3.Function('row', I, B), z3.Function('data.row', I, B)
    TY, EV = z3.Function('row.type', I, I), z3.Function('row.event', I, I)
    COND = z3.Function('conditions', I, B)
    g = z3.Const(X.name('g'), I)
    # references of a table are its keys: distinct and not negative
    universal(g, T, z3.Implies(ND(g), g >= 0), sp)
    BACK = z3.Function('type.row', I, I)
    X.assume(z3.ForAll([g], z3.Implies(ND(g), BACK(TY(g)) == g),
                       patterns=[TY(g)]))
    txn, conditions = object(), types.SimpleNamespace(
        matches=lambda e: mkbool(COND(e.t)))

    def rows(dom, val):
        g = z3.Const(X.name('g'), I)
        sg = Seg(g, None, None, [(T, (mkint(g), val(g)))], dom=dom(g),
                 ordered=False)
        sg.sp = sp
        return MList.of([sg])

    def ext_read(t, db):
        X.prove(t is txn, 'transaction')
        if db is DT.LATEST_TYPE:
            return rows(ND, lambda g: EType(TY(g)))
        X.prove(db is DT.LATEST_DATA, 'table')
        return rows(HD, lambda g: Ev(EV(g), 'event', w.f))
    env = types.SimpleNamespace(ext_read=ext_read)
    db = r.ext_create(env, txn, conditions, w.sub)
    X.prove(db._env is env and db._subscription is w.sub, 'environment')
    X.prove(eq(libs.vc_len(db._changes.data), 0) and
            eq(libs.vc_len(db._changes.types), 0), 'nothing is pending')
    k = X.fresh('ref', I)
    add_index(k, sp)
    t = EType(X.fresh('type', I))
    add_index(BACK(t.t), sp)
    got = _at(db._event_type_refs, t)
    if got is None:
        cover('unknown')
        X.prove(z3.Not(z3.And(ND(k), TY(k) == t.t)), 'known type')
    else:
        q = int_term(got)
        add_index(q, sp)
        cover('known')
        X.prove(z3.And(ND(q), TY(q) == t.t), 'stored reference of the type')
        X.prove(int_term(db._next_event_type_refs.start) > q,
                'later references are unused')
        X.prove(int_term(db._next_event_type_refs.start) >= 1,
                'references are positive')
    ok = z3.And(ND(k), TY(k) == t.t, HD(k), w.TYPE(EV(k)) == t.t,
                COND(EV(k)), w.SUB(t.t))
    add_index(TY(k), sp)
    latest = _at(db._events, t)
    if latest is None:
        X.prove(z3.Not(ok), 'stored latest event is found')
        return
    cover('latest')
    q = BACK(t.t)
    X.prove(z3.And(ND(q), TY(q) == t.t, HD(q), latest.t == EV(q),
                   latest.type.t == t.t), 'latest event of the type')
    X.prove(z3.And(COND(latest.t), w.SUB(t.t)),
            'conditions and subscription accept it')


import units.lmdbb   # noqa
