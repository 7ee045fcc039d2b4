"""C12: server queries.

References of an event identifier are (stored + pending added) - pending
removed; an identifier without references is not stored.

add, remove     change the references of the event as given; identifiers of
                a server are added in increasing order;
write           stored references become those of the pending changes, rows
                without references are dropped;
rows            _ext_query_events gives, in identifier order, the events of
                the rows of the server behind the given identifier that some
                reference still leads to, the first of them;
event           a reference leads to the stored event under its key;
query           stored and pending events of the server behind the given
                identifier, in order, the first of them; more follow exactly
                when some are left."""

import types

import z3

from vf import aiom, libs, seqs
from vf.unit import unit, cover
from units.lib import *     # noqa
from units import lmdbm
from units.lmdbm import Coded, Def, using
from vf.syms import IdC, sym_int, sym_bool

RDB = 'hat.event.backends.lmdb.refdb'
F = 'backends.lmdb.refdb:'
A = ['lmdb: cursor pop returns and deletes the value of a key, put replaces '
     'it, get returns it or None; rows are in key order',
     'codecs of tables (C07); a set without references is never stored']
RSP = ('refs',)


class RefSet:
    """set of references given by membership"""

    def __init__(self, x=None):
        self.mem = (lambda t: z3.BoolVal(False)) if x is None else \
            x.mem

    @classmethod
    def of(cls, mem):
        r = cls()
        r.mem = mem
        return r

    def _set_(self):
        return RefSet(self)

    copy = _set_

    def _change(self, mem):
        X.on_undo(lambda m=self.mem: setattr(self, 'mem', m))
        self.mem = mem

    def _contains_(self, v):
        return mkbool(self.mem(v.t))

    def __contains__(self, v):
        return X.decide(self.mem(v.t))

    def update(self, *os):
        for o in os:
            self._change(lambda t, a=self.mem, b=o.mem: z3.Or(a(t), b(t)))

    def difference_update(self, *os):
        for o in os:
            self._change(lambda t, a=self.mem, b=o.mem: z3.And(
                a(t), z3.Not(b(t))))

    def add(self, v):
        self._change(lambda t, a=self.mem: z3.Or(a(t), t == v.t))

    def discard(self, v):
        self._change(lambda t, a=self.mem: z3.And(a(t), t != v.t))

    def remove(self, v):
        if v not in self:
            raise KeyError('reference')
        self.discard(v)

    def union(self, *os):
        r = RefSet(self)
        r.update(*os)
        return r

    def difference(self, *os):
        r = RefSet(self)
        r.difference_update(*os)
        return r

    def __or__(self, o):
        return self.union(o)

    def __sub__(self, o):
        return self.difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __bool__(self):
        if X.decide(X.fresh('some', B)):
            w = X.fresh('ref', I)
            X.assume(self.mem(w))
            add_index(w, RSP)
            return True
        g = z3.Const(X.name('g'), I)
        universal(g, T, z3.Not(self.mem(g)), RSP)
        return False

    def _parts_(self):
        raise Unsupported('iteration of references')

    def __iter__(self):
        raise Unsupported('iteration of references')

    def _len_(self):
        n = X.fresh('len', I)
        X.assume(n >= 0)
        if self:
            X.assume(n > 0)
        else:
            X.assume(n == 0)
        return mkint(n)


def RefSetOf(x=()):
    """set() of the module"""
    if isinstance(x, RefSet):
        return RefSet(x)
    if type(x) is tuple and not x:
        return RefSet()
    return libs.vc_set(x)


def sym_set(name):
    f = z3.Function(X.name(name), I, B)
    return RefSet.of(lambda t: f(t))


_NO = object()


class Slot:
    """dict seen at one key only; every access is proved to be there"""

    def __init__(self, key, value=_NO, default=None, keys=None, what=''):
        self.key, self.value, self.default = key, value, default
        self._keys, self.what = keys, what

    def _at(self, k):
        X.prove(eq(k, self.key), f'only {self.what} is accessed')

    def _contains_(self, k):
        self._at(k)
        return self.value is not _NO

    def __contains__(self, k):
        return self._contains_(k)

    def get(self, k, default=None):
        self._at(k)
        return default if self.value is _NO else self.value

    def __getitem__(self, k):
        self._at(k)
        if self.value is _NO:
            if self.default is None:
                raise KeyError(k)
            self.value = self.default()
        return self.value

    def __setitem__(self, k, v):
        self._at(k)
        self.value = v

    def setdefault(self, k, v=None):
        self._at(k)
        if self.value is _NO:
            self.value = v
        return self.value

    def pop(self, k, *d):
        self._at(k)
        v, self.value = self.value, _NO
        if v is _NO:
            if not d:
                raise KeyError(k)
            return d[0]
        return v

    def __delitem__(self, k):
        self.pop(k)

    def keys(self):
        if self._keys is None:
            raise Unsupported('keys of the dict')
        return self._keys

    def _parts_(self):
        return libs.to_parts(self.keys())

    def __iter__(self):
        raise Unsupported('iteration of the dict')

    def __bool__(self):
        if self.value is not _NO:
            return True
        return X.decide(X.fresh('others', B))


class SDef(Def):
    """references: value is copied when encoded"""

    def encode_value(self, v):
        if not isinstance(v, RefSet):
            if isinstance(v, seqs.MSet) and v.concrete() and \
                    not libs.native(v):
                v = RefSet()
            else:
                raise Unsupported('stored references')
        return Coded(('value', self.db.name), RefSet(v))

    def decode_value(self, b):
        return RefSet(super().decode_value(b))


def load(m):
    r, c = m.load(RDB), m.load('hat.event.common')
    D = r.common.DbType
    defs = lmdbm.defs(D)
    defs[D.REF] = SDef(D.REF)
    return r, c, D, defs


def ref_item(name='ref'):
    t = X.fresh(name, I)
    add_index(t, RSP)
    return Item(t, 'ref', {})


def mk_db(r, w):
    db = r.RefDb.__new__(r.RefDb)
    db._env = None
    db._max_results = sym_int('limit', 1)
    return db


# --------------------------------------------------------- pending changes

@unit('C12', [F + 'RefDb.add', F + '_create_server_changes'], assumes=A,
      bounds=())
def add(m):
    r, c, D, defs = load(m)
    db = r.RefDb(None)
    i, last = fresh(IdC(c), 'id'), fresh(IdC(c), 'last')
    ev = types.SimpleNamespace(id=i)
    refs = sym_set('refs')
    has_last = X.choose(2, 'last')
    X.assume(bool_term(eq(i.server, last.server)))
    db._last_event_ids = Slot(i.server, last if has_last else _NO,
                              what='the server')
    sc = _NO
    have = X.choose(3, 'pending')
    old = sym_set('old')
    if have:
        sc = r.ServerChanges(
            Slot(i, (object(), old) if have == 2 else _NO,
                 what='the event'), Slot(i, what='the event'))
    made = []

    def create():
        made.append(1)
        return r.ServerChanges(Slot(i, what='the event'),
                               Slot(i, what='the event'))
    db._changes = Slot(i.server, sc, default=create, what='the server')
    try:
        with Patch(r, set=RefSetOf):
            db.add(ev, refs)
    except Ctl:
        raise
    except Exception as e:
        if type(e) is not Exception:
            raise
        cover('older')
        X.prove(bool(has_last), 'first event is accepted')
        X.prove(i < last, 'only older events are rejected')
        return
    cover('added')
    if has_last:
        X.prove(not_(i < last), 'older events are rejected')
    X.prove(eq(db._last_event_ids.value, i), 'last identifier')
    e, got = db._changes.value.added.value
    X.prove(e is ev, 'pending event')
    k = ref_item()
    X.prove(got.mem(k.t) == refs.mem(k.t), 'references of the event')
    X.prove(db._changes.value.removed.value is _NO, 'nothing is removed')
    with Patch(r, set=RefSetOf):
        x = r._create_server_changes()
    X.prove(eq(libs.vc_len(x.added), 0) and eq(libs.vc_len(x.removed), 0),
            'no pending changes of a new server')
    X.prove(x.added is not r._create_server_changes().added, 'own changes')


@unit('C12', [F + 'RefDb.remove'], assumes=A + [
    'references of a pending event are not stored: it was added after the '
    'last flush, and an identifier is added once (C08)'], bounds=())
def remove(m):
    r, c, D, defs = load(m)
    db = r.RefDb(None)
    i = fresh(IdC(c), 'id')
    ref, k = ref_item(), ref_item('any')
    disk, rem0 = sym_set('disk'), sym_set('removed')
    add0 = sym_set('added')
    has_add, has_rem = X.choose(2, 'added'), X.choose(2, 'removed')
    ev = object()
    g = z3.Const(X.name('g'), I)
    if has_add:
        # pending event: references are not stored, and there are some
        universal(g, T, z3.Not(disk.mem(g)), RSP)
        w = ref_item('some')
        X.assume(add0.mem(w.t))
    mine = RefSet(add0)
    sc = r.ServerChanges(
        Slot(i, (ev, mine) if has_add else _NO, what='the event'),
        Slot(i, RefSet(rem0) if has_rem else _NO, default=RefSet,
             what='the event'))
    db._changes = Slot(i.server, sc, what='the server')

    def refs(added, removed):
        a = added.mem(k.t) if added is not None else z3.BoolVal(False)
        b = removed.mem(k.t) if removed is not None else z3.BoolVal(False)
        return z3.And(z3.Or(disk.mem(k.t), a), z3.Not(b))
    before = refs(add0 if has_add else None, rem0 if has_rem else None)
    db.remove(i, ref)
    a, b = sc.added.value, sc.removed.value
    if a is not _NO:
        cover('pending')
        X.prove(a[0] is ev, 'pending event')
    after = refs(None if a is _NO else a[1], None if b is _NO else b)
    X.prove(after == z3.And(before, k.t != ref.t),
            'exactly the reference is removed')
    if has_add and a is _NO:
        cover('dropped')
        X.prove(z3.Not(z3.And(add0.mem(k.t), k.t != ref.t)),
                'event without references is dropped')
    elif has_add:
        X.prove(bool(a[1]), 'pending events have references')


class Row:
    """row of an event identifier in the reference table"""

    def __init__(self, w, i, disk):
        self.w, self.i, self.row = w, i, disk

    def _at(self, k):
        X.prove(isinstance(k, Coded) and k.what == ('key', 'REF'),
                'encoded identifier')
        X.prove(eq(k.v, self.i), 'row of the event')

    def pop(self, k, default=None):
        self._at(k)
        v, self.row = self.row, None
        return default if v is None else Coded(('value', 'REF'), v)

    def get(self, k, default=None):
        self._at(k)
        return default if self.row is None else Coded(('value', 'REF'),
                                                      self.row)

    def delete(self, k=None):
        raise Unsupported('delete')

    def put(self, k, v, overwrite=True):
        self._at(k)
        X.prove(isinstance(v, Coded) and v.what == ('value', 'REF'),
                'encoded references')
        if not overwrite and self.row is not None:
            return False
        self.row = v.v
        return True


class Cursor:
    """cursor of the reference table; row of the round"""

    def __init__(self):
        self.cur = None

    def __getattr__(self, n):
        if n.startswith('__') or self.cur is None:
            raise AttributeError(n)
        return getattr(self.cur, n)


def stored_row(row, disk, want, k):
    """row holds exactly the wanted references, and is not empty"""
    if row is None:
        cover('dropped')
        X.prove(z3.Not(want(k.t)), 'row without references is dropped only')
        return
    cover('stored')
    X.prove(row.mem(k.t) == want(k.t), 'stored references')
    X.prove(bool(row), 'stored row has references')


@unit('C12', [F + 'RefDb.ext_write', F + 'RefDb.create_changes'], assumes=A,
      timeout=120, bounds=())
def write(m):
    r, c, D, defs = load(m)
    db = r.RefDb(None)
    txn = object()
    cur = Cursor()
    w = types.SimpleNamespace()

    def ext_cursor(t, table):
        X.prove(t is txn and table is D.REF, 'reference table')
        return using(cur)
    db._env = types.SimpleNamespace(ext_cursor=ext_cursor)
    idc = IdC(c)
    NA, NR = X.fresh('na', I), X.fresh('nr', I)
    X.assume(z3.And(NA >= 0, NR >= 0))
    AID, RID = fn(idc, 'added.id', I), fn(idc, 'removed.id', I)

    def keys(n, f, sp):
        g = z3.Const(X.name('g'), I)
        sg = Seg(g, z3.IntVal(0), n, [(T, f(g))])
        sg.sp = sp
        return MList.of([sg])
    ak, rk = keys(NA, AID, ('akeys',)), keys(NR, RID, ('rkeys',))
    added = Slot(None, keys=ak, what='the event')
    removed = Slot(None, keys=rk, default=RefSet, what='the event')
    sc = r.ServerChanges(added, removed)
    n = X.fresh('servers', I)
    X.assume(n >= 0)
    g = z3.Const(X.name('g'), I)
    ss = Seg(g, z3.IntVal(0), n, [(T, Item(g, 'server', {
        'added': lambda t: added, 'removed': lambda t: removed}))])
    servers = MList.of([ss])
    changes = types.SimpleNamespace(values=lambda: servers)
    st = []

    def before(start, v, k):
        w.id = v
        added.key = removed.key = v
        w.a, w.r = sym_set('added'), sym_set('removed')
        ha, hr = X.choose(2, 'added'), X.choose(2, 'removed')
        if not ha and not hr:
            raise seqs_cut()
        added.value = (object(), RefSet(w.a)) if ha else _NO
        removed.value = RefSet(w.r) if hr else _NO
        w.ha, w.hr = ha, hr
        w.disk = sym_set('disk')
        w.had = X.choose(2, 'stored')
        if w.had:
            x = ref_item('some')
            X.assume(w.disk.mem(x.t))
        cur.cur = Row(w, v, RefSet(w.disk) if w.had else None)

    def after(start, end, v, k):
        F_ = z3.BoolVal(False)
        stored_row(cur.cur.row, w.disk, lambda t: z3.And(
            z3.Or(w.disk.mem(t) if w.had else F_,
                  w.a.mem(t) if w.ha else F_),
            z3.Not(w.r.mem(t) if w.hr else F_)), ref_item('any'))
        cur.cur = None

    def init():
        i = X.fresh('i', I)
        if X.choose(2, 'kind'):
            X.assume(z3.And(i >= 0, i < NA))
            add_index(i, ('akeys',))
            X.prove(has(w.src, AID(i)), 'every event with added references')
        else:
            X.assume(z3.And(i >= 0, i < NR))
            add_index(i, ('rkeys',))
            X.prove(has(w.src, RID(i)), 'every event with removed references')

    def over(src):
        w.src = src
        return isinstance(src, seqs.MSet) or src is not servers
    inner = ForRule(over, init, before, after, lambda s: st.append('in'),
                    anyorder=True)

    def done(s):
        st.append('out')

    def each_done(start, end, v, k):
        X.prove(st == ['in'], 'changes of every server are written')
    outer = ForRule(lambda src: src is servers, lambda: None,
                    lambda *a: None, each_done, done)
    X.for_rule = Rules(outer, inner)
    db._changes = changes
    with Patch(r, set=RefSetOf), Patch(r.common, db_defs=defs):
        got = db.create_changes()
        X.prove(got is changes, 'changes are taken')
        X.prove(db._changes is not changes and
                eq(libs.vc_len(db._changes), 0), 'nothing is pending')
        db.ext_write(txn, changes)
    X.prove(st in (['out'], ), 'all changes are written')


# ------------------------------------------------------------------ query

def evc(c):
    f = {'id': fn(IdC(c), 'event.id')}
    return ItemC('event', f), f


@unit('C12', [F + '_ext_get_event'], assumes=A, bounds=())
def event(m):
    r, c, D, defs = load(m)
    evcod, f = evc(c)
    txn = object()
    kind = X.choose(2, 'kind')
    key = object()
    ref = r.common.LatestEventRef(key) if kind else \
        r.common.TimeseriesEventRef(key)
    table = D.LATEST_DATA if kind else D.TIMESERIES_DATA
    stored = evcod.build([X.fresh('event', I)]) if X.choose(2, 'stored') \
        else None

    class Cur:
        def get(self, k, default=None):
            X.prove(isinstance(k, Coded) and k.what == ('key', table.name)
                    and k.v is key, 'key of the reference')
            return default if stored is None else Coded(
                ('value', table.name), stored)

    def ext_cursor(t, db):
        X.prove(t is txn and db is table, 'table of the reference')
        return using(Cur())
    env = types.SimpleNamespace(ext_cursor=ext_cursor)
    with Patch(r.common, db_defs=defs):
        res = r._ext_get_event(env, txn, ref)
    X.prove(res is stored, 'stored event of the reference')


class Snapshot:
    """rows KEY(i), i < n, in key order; read transaction"""

    def __init__(self, w, key):
        self.w, self.key_ = w, key
        self.pos, self.moves = None, 0

    def _move(self, pos):
        self.moves += 1
        self.pos = pos

    def set_range(self, k):
        w = self.w
        X.prove(isinstance(k, Coded) and k.what == ('key', w.table.name),
                'encoded key')
        p = X.fresh('row', I)
        X.assume(z3.And(p >= 0, p <= w.n))
        g = z3.Const(X.name('g'), I)
        universal(g, z3.And(g >= 0, g < w.n), (g < p) == bool_term(
            cmp('<', self.key_(g), k.v)), w.sp)
        add_index(p, w.sp)
        w.ordered(p)
        self._move(p)
        return mkbool(p < w.n)

    def _at(self):
        if self.pos is None:
            raise Unsupported('cursor without position')
        return self.pos

    def next(self):
        p = z3.simplify(self._at() + 1)
        X.prove(p <= self.w.n, 'cursor is at a row')
        add_index(p, self.w.sp)
        self._move(p)
        return mkbool(p < self.w.n)

    def prev(self):
        p = z3.simplify(self._at() - 1)
        X.prove(p >= -1, 'cursor is at a row')
        add_index(p, self.w.sp)
        self._move(p)
        return mkbool(p >= 0)

    def first(self):
        add_index(z3.IntVal(0), self.w.sp)
        self._move(z3.IntVal(0))
        return mkbool(self.w.n > 0)

    def last(self):
        p = z3.simplify(self.w.n - 1)
        add_index(p, self.w.sp)
        self._move(p)
        return mkbool(self.w.n > 0)

    def _row(self):
        p = self._at()
        X.prove(z3.And(p >= 0, p < self.w.n), 'cursor is at a row')
        add_index(p, self.w.sp)
        return p

    def key(self):
        return lmdbm.View(self, Coded(('key', self.w.table.name),
                                      self.key_(self._row())))

    def value(self):
        return lmdbm.View(self, Coded(('value', self.w.table.name),
                                      self.w.value(self._row())))

    def item(self):
        return self.key(), self.value()


class Rows:
    """reference table of a read transaction"""

    def __init__(w, m):
        w.r, w.c, w.D, w.defs = load(m)
        w.defs[w.D.REF] = Def(w.D.REF)
        c = w.c
        w.table = w.D.REF
        w.sp = ('rows',)
        w.n = X.fresh('rows', I)
        X.assume(w.n >= 0)
        w.KEY = fn(IdC(c), 'row.id')
        g = z3.Const(X.name('g'), I)
        universal(g, z3.And(g >= 0, g < w.n), bool_term(cmp(
            '<', c.EventId(w.KEY(g).server, 0, 0), w.KEY(g))), w.sp)
        # references of a row; the event a reference leads to
        w.NREF = z3.Function('row.refs', I, I)
        w.REF = z3.Function('row.ref', I, I, I)
        w.evcod, w.f = evc(c)
        w.GET, w.HAS = z3.Function('event.of', I, I), z3.Function(
            'event.has', I, B)
        w.txn = object()
        w.cur = Snapshot(w, lambda g: w.KEY(g))

    def ordered(w, i):
        """rows are in order of keys: row i compared to the others"""
        g = z3.Const(X.name('g'), I)
        universal(g, z3.And(g >= 0, g < w.n, i >= 0, i < w.n),
                  z3.And((g < i) == bool_term(cmp('<', w.KEY(g), w.KEY(i))),
                         (g == i) == bool_term(eq(w.KEY(g), w.KEY(i)))),
                  w.sp)

    def value(w, i):
        g = z3.Const(X.name('g'), I)
        X.assume(w.NREF(i) >= 0)
        sg = Seg(g, z3.IntVal(0), w.NREF(i), [
            (T, Item(w.REF(i, g), 'ref', {}))])
        sg.sp = ('row.refs',)
        return MList.of([sg])

    def get_event(w, env, txn, ref):
        X.prove(env is w.env and txn is w.txn, 'event of the snapshot')
        return OptC(w.evcod).build([z3.Not(w.HAS(ref.t)), w.GET(ref.t)])


@unit('C12', [F + '_ext_query_events'], assumes=A + [
    'stored identifiers are behind (server, 0, 0) (C08)',
    'contract of _ext_get_event (unit event)'], timeout=200, bounds=())
def rows(m):
    w = Rows(m)
    r, c = w.r, w.c
    server = fresh(IntC(0, (1 << 64) - 1), 'server')
    last = fresh(OptC(IdC(c)), 'last')
    if last is not None and X.choose(2, 'last') == 0:
        last = last.force() if isinstance(last, SymOpt) else last
        X.assume(z3.BoolVal(last is not None))
        X.assume(bool_term(eq(last.server, server)))
    else:
        last = None
    limit = sym_int('limit', 1)

    def begin(write=False):
        X.prove(write is False, 'read transaction')
        return using(w.txn)

    def ext_cursor(t, db):
        X.prove(t is w.txn and db is w.D.REF, 'reference table')
        return using(w.cur)
    w.env = types.SimpleNamespace(ext_begin=begin, ext_cursor=ext_cursor)
    # ok(i): some reference of the row leads to the event of the row
    OK = z3.Function('row.valid', I, B)
    CNT = z3.Function('row.count', I, I)
    WIT = z3.Function('row.witness', I, I)

    def ok_facts(i):
        q = w.REF(i, WIT(i))
        X.assume(z3.Implies(OK(i), z3.And(
            WIT(i) >= 0, WIT(i) < w.NREF(i), w.HAS(q),
            bool_term(eq(w.f['id'](w.GET(q)), w.KEY(i))))))
        add_index(WIT(i), ('row.refs',))
        g = z3.Const(X.name('g'), I)
        universal(g, z3.And(g >= 0, g < w.NREF(i)), z3.Implies(
            z3.And(w.HAS(w.REF(i, g)), bool_term(eq(
                w.f['id'](w.GET(w.REF(i, g))), w.KEY(i)))), OK(i)),
            ('row.refs',))
    start = c.EventId(server, 0, 0) if last is None else last
    st = types.SimpleNamespace(out=None, s=None, p=None)

    def havoc(name, v):
        if isinstance(v, (bool, SymBool)):
            return lambda: mkbool(X.fresh(name, B))
        if isinstance(v, MList):
            def make():
                v._touch()
                v.parts = [seqs.Opaque(CNT(st.p))]
                st.out = v
                return v
            st.p = st.p0 = X.fresh('pos', I)
            return make
        return None

    def flags(ls):
        return [v for v in ls.values() if isinstance(v, (bool, SymBool))]

    def init(ls):
        X.prove(eq(libs.vc_len(*[v for v in ls.values()
                                 if isinstance(v, MList)]), 0),
                'start: no events')
        p = w.cur._at()
        for v in flags(ls):
            X.prove(iff(v, mkbool(p < w.n)), 'start: row is available')
        i = X.fresh('i', I)
        X.assume(z3.And(i >= 0, i < w.n))
        add_index(i, w.sp)
        X.prove((i >= p) == bool_term(cmp('<', start, w.KEY(i))),
                'start: first row behind the identifier')

    def before(ls):
        st.s = X.fresh('start', I)
        X.assume(z3.And(st.s >= 0, st.s <= st.p, st.p <= w.n,
                        CNT(st.s) == 0, CNT(st.p) >= 0,
                        CNT(st.p) <= int_term(limit)))
        g = z3.Const(X.name('g'), I)
        universal(g, z3.And(g >= 0, g < w.n), (g >= st.s) == bool_term(
            cmp('<', start, w.KEY(g))), w.sp)
        universal(g, z3.And(g >= 0, g < st.p), bool_term(
            not_(server < w.KEY(g).server)), w.sp)
        for v in flags(ls):
            X.assume(bool_term(iff(v, mkbool(st.p < w.n))))
        add_index(st.p, w.sp)
        X.assume(CNT(st.p + 1) == CNT(st.p) + z3.If(OK(st.p), 1, 0))
        ok_facts(st.p)
        w.cur.pos = st.p

    def after(start_, end):
        cover('round')
        X.prove(w.cur.pos == st.p + 1, 'next row')
        for v in flags(end):
            X.prove(iff(v, mkbool(st.p + 1 < w.n)), 'row is available')
        new = [p for p in st.out.parts[1:]]
        X.prove(isinstance(st.out.parts[0], seqs.Opaque) and (
            st.out.parts[0].n.eq(CNT(st.p))), 'events are kept')
        items_ = [v for p in new for v in p]
        X.prove((len(items_) == 1) == OK(st.p) if items_ else
                z3.Not(OK(st.p)), 'event of every valid row')
        X.prove(len(items_) <= 1, 'one event per row')
        if items_:
            cover('valid')
            X.prove(eq(items_[0].id, w.KEY(st.p)), 'event of the row')
        X.prove(CNT(st.p + 1) <= int_term(limit), 'not over the limit')
        X.prove(not_(server < w.KEY(st.p).server), 'row of the server')

    def final(start_):
        cover('end')
        st.done = True
        w.cur.pos = st.p
    st.done = False
    X.while_rule = WhileRule(havoc, init, before, after, final,
                             ghosts=[(w.cur, 'pos')], poison=True)
    with Patch(r.common, db_defs=w.defs), Patch(
            r, _ext_get_event=w.get_event, bytes=lmdbm.codec_bytes):
        res = r._ext_query_events(w.env, server, limit, last)
    X.prove(st.done, 'rows are searched')
    X.prove(res is st.out and len(res.parts) == 1 and
            isinstance(res.parts[0], seqs.Opaque), 'events found')
    # rows from the first behind the identifier, up to the end
    e = st.p
    i = X.fresh('i', I)
    X.assume(z3.And(i >= e, i < w.n, CNT(e) < int_term(limit)))
    add_index(i, w.sp)
    add_index(e, w.sp)
    w.ordered(e)
    X.prove(z3.Not(bool_term(eq(w.KEY(i).server, server))),
            'nothing of the server is left below the limit')


@unit('C12', [F + 'RefDb.query', F + '_query_changes'], assumes=A + [
    'Environment.execute: calls are submitted at once and run in order of '
    'submission (one executor thread), so pending changes taken by a flush '
    'before the query are stored when the query runs, and those taken later '
    'are the ones the query has seen',
    'contract of _ext_query_events (unit rows)',
    'pending events of a server are in order of identifiers (unit add)'],
    bounds=())
def query(m):
    r, c, D, defs = load(m)
    evcod, f = evc(c)
    db = mk_db(r, None)
    server = fresh(IntC(0, (1 << 64) - 1), 'server')
    last = None
    if X.choose(2, 'last'):
        last = fresh(IdC(c), 'last')
    persisted = sym_bool('persisted')
    asked = fresh(OptC(IntC(0)), 'asked')
    params = r.common.QueryServerParams(
        server_id=server, persisted=persisted, max_results=asked,
        last_event_id=last)
    asked = asked.force() if isinstance(asked, SymOpt) else asked
    lim = int_term(db._max_results)
    M = lim if asked is None else z3.If(int_term(asked) < lim,
                                        int_term(asked), lim)
    # stored events behind the identifier, pending ones
    NS, NP = X.fresh('stored', I), X.fresh('pending', I)
    X.assume(z3.And(NS >= 0, NP >= 0))
    STO, PEN = z3.Function('stored.event', I, I), z3.Function(
        'pending.event', I, I)
    g = z3.Const(X.name('g'), I)
    sp = ('pending',)
    PID = lambda t: f['id'](PEN(t))
    have = X.choose(2, 'server changes')

    def added_items():
        g = z3.Const(X.name('g'), I)
        sg = Seg(g, z3.IntVal(0), NP, [(T, (
            PID(g), (evcod.build([PEN(g)]), object())))])
        sg.sp = sp
        return MList.of([sg])

    def ordered(i):
        g = z3.Const(X.name('g'), I)
        universal(g, z3.And(g >= 0, g < NP, i >= 0, i < NP),
                  (g < i) == bool_term(cmp('<', PID(g), PID(i))), sp)
    added = types.SimpleNamespace(
        items=added_items, values=lambda: libs.vc_map(
            lambda kv: kv[1], added_items()))
    sc = r.ServerChanges(added, object())
    db._changes = Slot(server, sc if have else _NO, what='the server')
    ran = []
    nd = z3.If(NS < M + 1, NS, M + 1)

    def ext_query(*a):
        X.prove(not ran, 'one search')
        ran.append(1)
        X.prove(a[0] is db._env and eq(a[1], server), 'stored events of the '
                'server')
        X.prove(eq(a[2], mkint(M + 1)), 'one event more than the limit')
        X.prove((a[3] is None) == (last is None) and (
            last is None or eq(a[3], last)), 'events behind the identifier')
        # others add and flush while it runs
        db._changes = Slot(server, _NO, what='current changes')
        db._changes._at = lambda k: X.prove(
            False, 'pending changes at the time of the query')
        g = z3.Const(X.name('g'), I)
        sg = Seg(g, z3.IntVal(0), nd, [(T, evcod.build([STO(g)]))])
        sg.sp = ('stored',)
        return MList.of([sg])

    # first pending event behind the last of the stored ones
    q = X.fresh('q', I)
    X.assume(z3.And(q >= 0, q <= NP))
    after = f['id'](STO(nd - 1))
    behind = lambda t: z3.If(
        nd > 0, bool_term(cmp('<', after, PID(t))),
        bool_term(cmp('<', last, PID(t))) if last is not None else T)
    g = z3.Const(X.name('g'), I)
    universal(g, z3.And(g >= 0, g < NP), (g >= q) == behind(g), sp)
    add_index(q, sp)
    add_index(q - 1, sp)
    X.hints.append((sp, q, NP))

    def execute(fn_, *a):
        return aiom.Now(lambda: fn_(*a))
    db._env = types.SimpleNamespace(execute=execute)
    try:
        with Patch(r, _ext_query_events=ext_query):
            res = libs.await_(db.query(params))
    except ValueError:
        cover('invalid')
        X.prove(last is not None and not_(eq(last.server, server)),
                'only identifiers of other servers are rejected')
        return
    X.prove(last is None or eq(last.server, server),
            'identifiers of other servers are rejected')
    cover('result')
    avail = z3.If(z3.Or(bool_term(persisted), z3.BoolVal(not have)),
                  z3.IntVal(0), NP - q)
    total = z3.If(nd > M, M, z3.If(nd + avail > M, M, nd + avail))

    def item(v, pos):
        X.prove(v.t == z3.If(pos < nd, STO(pos), PEN(q + pos - nd)),
                'stored events, then pending ones')
    X.prove(iff(res.more_follows, mkbool(z3.Or(nd > M, nd + avail > M))),
            'more follow')
    X.prove(iff(res.more_follows, mkbool(z3.Or(NS > M, NS + avail > M))),
            'more follow exactly when some are left')
    run_of(res.events, total, item, 'events')


import units.lmdbb   # noqa
