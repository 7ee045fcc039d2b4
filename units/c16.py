"""C16: database identity and partition numbers.

validate     opening fails exactly when a stored version or identifier
             differs from the configured one; otherwise missing ones are
             recorded and stored ones are kept;
create       the system database validates before it reads its tables;
partitions   a partition known to the table keeps its number, a new one gets
             a number larger than all given before and is recorded with its
             ordering key and sorted query types; a number belongs to one
             partition (the invariant of the table)."""

import types

import z3

from vf import libs, seqs
from vf.unit import unit, cover
from units.lib import *     # noqa
from vf.syms import sym_str, sym_int

SYS = 'hat.event.backends.lmdb.systemdb'
TDB = 'hat.event.backends.lmdb.timeseriesdb'
F = 'backends.lmdb.'
A = ['environment reads the rows of a table and writes the given rows '
     '(Environment.ext_read, ext_write: C14)']


# ------------------------------------------------------------- identity

@unit('C16', [F + 'systemdb:_ext_validate_settings'], assumes=A, bounds=())
def validate(m):
    r = m.load(SYS)
    c = r.common
    S = c.SettingsId
    stored = MDict()
    rows = []
    for k in (S.VERSION, S.IDENTIFIER):
        if X.choose(2, k.name):
            v = sym_str(k.name)
            stored[k] = v
            rows.append((k, v))
    if X.choose(2, 'order'):
        rows.reverse()
    version = sym_str('version')
    ident = sym_str('identifier') if X.choose(2, 'configured') else None
    txn = object()
    table = dict(rows)

    def ext_read(t, db):
        X.prove(t is txn and db is c.DbType.SYSTEM_SETTINGS, 'settings')
        return MList(rows)

    def ext_write(t, db, data):
        X.prove(t is txn and db is c.DbType.SYSTEM_SETTINGS, 'settings')
        for k, v in libs.native(data):
            table[k] = v
    env = types.SimpleNamespace(ext_read=ext_read, ext_write=ext_write)
    want = {S.VERSION: version, S.IDENTIFIER: ident}
    ok = True
    for k, v in rows:
        if want[k] is not None:
            ok = and_(ok, eq(v, want[k]))
    try:
        r._ext_validate_settings(env, txn, version, ident)
    except Ctl:
        raise
    except Exception as e:
        if type(e) is not Exception:
            raise
        cover('rejected')
        X.prove(not_(ok), 'only other version or identifier is rejected')
        return
    cover('accepted')
    X.prove(ok, 'other version or identifier is rejected')
    for k, v in want.items():
        old = dict(rows).get(k)
        if old is not None:
            X.prove(k in table and eq(table[k], old), 'recorded is kept')
        elif v is not None:
            X.prove(k in table and eq(table[k], v), 'missing is recorded')
        else:
            X.prove(k not in table, 'nothing to record')
    X.prove(set(table) <= set(want), 'only settings')


@unit('C16', [F + 'systemdb:ext_create'], assumes=A, bounds=())
def create(m):
    r, c = m.load(SYS), m.load('hat.event.common')
    from vf.syms import IdC, TsC
    U = IntC(0, 1 << 64)
    D = r.common.DbType
    env, txn = types.SimpleNamespace(), object()
    version, ident = sym_str('version'), sym_str('identifier')
    log = []

    def validate(e, t, v, i):
        X.prove(e is env and t is txn and v is version and i is ident,
                'identity is validated')
        log.append('validate')
        if X.choose(2, 'valid'):
            raise Exception('invalid')
    ns = {D.SYSTEM_LAST_EVENT_ID: ('ids', IdC(c)),
          D.SYSTEM_LAST_TIMESTAMP: ('tss', TsC(c))}
    tables = {}

    def ext_read(t, db):
        X.prove(t is txn and db in ns, 'table of the system database')
        n, vc = ns[db]
        f = tables[n] = (fn(BoolC(), n + '.has'), fn(vc, n))
        g = z3.Const(X.name('g'), I)
        sg = Seg(g, None, None, [(T, (mkint(g), f[1](g)))],
                 dom=z3.And(g >= 0, bool_term(f[0](g))), ordered=False)
        sg.sp = (n,)
        return MList.of([sg])
    env.ext_read = ext_read
    try:
        with Patch(r, _ext_validate_settings=validate):
            db = r.ext_create(env, txn, version, ident)
    except Ctl:
        raise
    except Exception as e:
        if str(e) != 'invalid':
            raise
        cover('rejected')
        return
    cover('opened')
    X.prove(log == ['validate'], 'identity is validated')
    s = X.fresh('server', I)
    X.assume(z3.And(s >= 0, s < 1 << 64))
    for n in tables:
        add_index(s, (n,))
    for n, d in (('ids', db._last_event_ids), ('tss', db._last_timestamps)):
        if mkint(s) in d:
            X.prove(tables[n][0](s), 'stored ' + n)
            X.prove(eq(d[mkint(s)], tables[n][1](s)), 'value of ' + n)
        else:
            X.prove(not_(tables[n][0](s)), 'all stored ' + n)
    X.prove(eq(libs.vc_len(db._changes.last_event_ids), 0) and
            eq(libs.vc_len(db._changes.last_timestamps), 0),
            'nothing is pending')
    X.prove(db._env is env, 'environment')


# ---------------------------------------------------- partition numbers

ET = z3.Function('types.item', I, I, I)     # sequence of types, position
LEN = z3.Function('types.len', I, I)


class Tuple(libs.TypeLike):
    pass


def etype(kind, t):
    return Item(t, kind, {})


class TypesC(seqs.Codec):
    """finite sequence of event types, given by an integer: two sequences
    with the same items are the same integer (the sequences are countable)"""
    sorts = [I]

    def build(self, ts):
        return types_seq(ts[0], 'etype', tuple)

    def flatten(self, v):
        return types_id(v, 'etype', tuple)

    def facts(self, ts):
        return []


def types_seq(k, kind, pytype):
    X.assume(LEN(k) >= 0)
    if pytype is tuple:
        return SymTup(LEN(k), lambda i: etype(kind, ET(k, i)))
    g = z3.Const(X.name('g'), I)
    sg = Seg(g, z3.IntVal(0), LEN(k), [(T, etype(kind, ET(k, g)))])
    sg.sp = ('types',)
    return MList.of([sg])


def types_id(v, kind, pytype):
    g = z3.Const(X.name('g'), I)
    if pytype is tuple:
        if not isinstance(v, SymTup):
            return None
        n, x = v.n, v.get(g)
    else:
        ps = [p for p in libs.to_parts(v)
              if not (isinstance(p, list) and not p)]
        if len(ps) != 1 or not isinstance(ps[0], Seg) or \
                not ps[0].ordered or not ps[0].single():
            return None
        n, x = ps[0].hi, ps[0].item(g)
        if not z3.simplify(ps[0].lo == 0).eq(T):
            return None
    if not isinstance(x, Item) or x.kind != kind:
        return None
    t = z3.simplify(x.t)
    if t.decl().name() != 'types.item' or not t.arg(1).eq(g):
        return None
    k = t.arg(0)
    if not any(z3.simplify(n).eq(z3.simplify(i)) for i in (
            LEN(k), z3.If(LEN(k) < 0, z3.IntVal(0), LEN(k) - 0))):
        return None
    return [k]


class KeyC(seqs.Codec):
    """(ordering key, query types)"""
    sorts = [I, I]

    def __init__(self, sp):
        self.sp = sp

    def build(self, ts):
        return (mkint(ts[0]), TypesC().build([ts[1]]))

    def flatten(self, v):
        if not isinstance(v, tuple) or len(v) != 2:
            return None
        a, b = IntC().flatten(v[0]), TypesC().flatten(v[1])
        if a is None or b is None:
            raise Unsupported('key of a partition')
        return [*a, *b]

    def facts(self, ts):
        return []


def _tuple(x):
    if isinstance(x, Item) and x.kind in ('etype', 'jtype'):
        return etype('etype', x.t)
    return libs.vc_tuple(x)


def _list(x=()):
    if isinstance(x, Item) and x.kind in ('etype', 'jtype'):
        return etype('jtype', x.t)
    return libs.vc_list(x)


class Partitions:
    """table: n rows, number NUM(i) and partition (ORD(i), SUBS(i)); rows
    have different numbers (keys) and different partitions (invariant)"""

    def __init__(w, m):
        w.r = r = m.load(TDB)
        w.ksp = ('partitions',)
        w.kc = KeyC(w.ksp)
        w.txn = object()
        w.NUM, w.ORD, w.SUBS = (z3.Function('row.' + i, I, I)
                                for i in ('num', 'order', 'subs'))
        w.ROW = z3.Function('row.of', I, I, I)
        w.HAS = z3.Function('row.has', I, I, B)
        w.n = X.fresh('rows', I)
        X.assume(w.n >= 0)
        w.m = X.fresh('partitions', I)
        X.assume(w.m >= 0)
        w.POB, w.PSUB = (z3.Function('part.' + i, I, I)
                         for i in ('order', 'subs'))
        w.CANON = z3.Function('types.sorted', I, I)
        w.writes = []

        def part(i, n):
            raise Unsupported('partition')
        w.pf = {
            'order_by': lambda k: types.SimpleNamespace(
                value=mkint(w.POB(k))),
            'subscription': lambda k: types.SimpleNamespace(
                get_query_types=lambda: Query(w, k))}
        g = z3.Const(X.name('g'), I)
        sg = Seg(g, z3.IntVal(0), w.m, [(T, Item(g, 'partition', w.pf))])
        sg.sp = ('config',)
        w.parts = MList.of([sg])
        w.seg = sg
        w.env = types.SimpleNamespace(ext_read=w.ext_read,
                                      ext_write=w.ext_write)
        w.loop = None

    def dom0(w, o, s):
        return w.HAS(o, s)

    def val0(w, o, s):
        return [w.NUM(w.ROW(o, s))]

    def row_facts(w, i):
        """row i of the table"""
        X.assume(z3.Implies(z3.And(i >= 0, i < w.n), z3.And(
            w.HAS(w.ORD(i), w.SUBS(i)),
            w.ROW(w.ORD(i), w.SUBS(i)) == i, w.NUM(i) >= 0)))

    def key_facts(w, o, s):
        i = w.ROW(o, s)
        X.assume(z3.Implies(w.HAS(o, s), z3.And(
            i >= 0, i < w.n, w.ORD(i) == o, w.SUBS(i) == s, w.NUM(i) >= 0)))

    def ext_read(w, t, db):
        X.prove(t is w.txn and db is
                w.r.common.DbType.TIMESERIES_PARTITION, 'partition table')
        g = z3.Const(X.name('g'), I)

        def field(i, n):
            w.row_facts(i)
            if n == 'order':
                return mkint(w.ORD(i))
            if n == 'subscriptions':
                return types_seq(w.SUBS(i), 'jtype', list)
            raise KeyError(n)
        sg = Seg(g, z3.IntVal(0), w.n, [
            (T, (mkint(w.NUM(g)), Item(g, 'row', {'[]': field})))])
        sg.sp = ('rows',)
        w.rows = MList.of([sg])
        return w.rows

    def ext_write(w, t, db, data):
        X.prove(t is w.txn and db is
                w.r.common.DbType.TIMESERIES_PARTITION, 'partition table')
        X.prove(w.loop == 2, 'written for a configured partition')
        w.writes.extend(libs.native(data))

    # ---- first loop: numbers of the table

    def maps(w):
        return [o for o in w.rule.obj.values() if isinstance(o, MDict)]

    def set_map(w, dom, val):
        o, = w.maps()
        X.on_undo(lambda a=o.base, b=o.log: (setattr(o, 'base', a),
                                             setattr(o, 'log', b)))
        o.base, o.log = SymMap(w.kc, IntC(), dom, val), []
        return o

    def init1(w):
        o, s = X.fresh('order', I), X.fresh('subs', I)
        d, = w.maps()
        d.cur_spec = types.SimpleNamespace(kcodec=w.kc, vcodec=IntC())
        X.prove(z3.Not(d.at_terms(o, s)[0]), 'no number is known')
        for v in w.rule.bound.values():
            if isinstance(v, (int, SymInt)):
                X.prove(int_term(v) >= 0, 'first number')

    def at_round(w, k):
        w.set_map(lambda o, s: z3.And(w.HAS(o, s), w.ROW(o, s) < k), w.val0)

    def before1(w, start, v, k):
        w.loop = 1
        w.row_facts(k)
        w.at_round(k)
        for x in start.values():
            w.bound_facts(x, k)

    def bound_facts(w, x, k):
        g = z3.Const(X.name('g'), I)
        X.assume(int_term(x) >= 0)
        universal(g, z3.And(g >= 0, g < k), w.NUM(g) <= int_term(x),
                  ('rows',))

    def after1(w, start, end, v, k):
        d, = w.maps()
        for n, x in end.items():
            i = X.fresh('i', I)
            X.assume(z3.And(i >= 0, i <= k))
            add_index(i, ('rows',))
            X.prove(z3.And(w.NUM(i) <= int_term(x), int_term(x) >= 0),
                    'largest number')
        o, s = X.fresh('order', I), X.fresh('subs', I)
        w.key_facts(o, s)
        pres, vals, _ = d.at_terms(o, s)
        X.prove(pres == z3.And(w.HAS(o, s), w.ROW(o, s) <= k),
                'known partitions')
        X.prove(z3.Implies(pres, vals[0] == w.NUM(w.ROW(o, s))),
                'number of a known partition')

    def final1(w, start):
        w.set_map(w.dom0, w.val0)
        for x in start.values():
            w.bound_facts(x, w.n)

    # ---- second loop: configured partitions

    def state(w):
        """any state of the invariant"""
        n = X.name('cache')
        DOM = z3.Function(n + '.dom', I, I, B)
        VAL = z3.Function(n + '.val', I, I, I)
        BO, BS = (z3.Function(n + i, I, I) for i in ('.bo', '.bs'))
        nxt = X.fresh('next', I)
        c, = [o for o in w.rule2.obj.values()
              if isinstance(o, libs.CountModel)]
        seqs.setattr_j(c, 'start', mkint(nxt))

        def facts(o, s):
            w.key_facts(o, s)
            X.assume(z3.Implies(w.HAS(o, s), z3.And(
                DOM(o, s), VAL(o, s) == w.NUM(w.ROW(o, s)))))
            X.assume(z3.Implies(DOM(o, s), z3.And(
                VAL(o, s) < nxt, VAL(o, s) >= 0, BO(VAL(o, s)) == o,
                BS(VAL(o, s)) == s)))

        def dom(o, s):
            facts(o, s)
            return DOM(o, s)
        return dom, lambda o, s: [VAL(o, s)], c, nxt

    def init2(w):
        d = w.map2()
        c = w.counter()
        o, s = X.fresh('order', I), X.fresh('subs', I)
        w.key_facts(o, s)
        add_index(w.ROW(o, s), ('rows',))
        d.cur_spec = types.SimpleNamespace(kcodec=w.kc, vcodec=IntC())
        pres, vals, _ = d.at_terms(o, s)
        X.prove(pres == w.HAS(o, s), 'known partitions at the start')
        X.prove(z3.Implies(pres, vals[0] == w.NUM(w.ROW(o, s))),
                'known numbers at the start')
        X.prove(z3.Implies(pres, vals[0] < int_term(c.start)),
                'new numbers are larger than the known')
        X.prove(int_term(c.start) > 0, 'new numbers are positive')

    def map2(w):
        d, = [o for o in w.rule2.obj.values() if isinstance(o, MDict)]
        return d

    def counter(w):
        c, = [o for o in w.rule2.obj.values()
              if isinstance(o, libs.CountModel)]
        return c

    def before2(w, start, v, k):
        w.loop = 2
        w.dom, w.val, w.cnt, w.nxt = w.state()
        d = w.map2()
        X.on_undo(lambda a=d.base, b=d.log: (setattr(d, 'base', a),
                                             setattr(d, 'log', b)))
        d.base, d.log = SymMap(w.kc, IntC(), w.dom, w.val), []
        X.assume(w.nxt > 0)
        w.writes = []

    def after2(w, start, end, v, k):
        d = w.map2()
        o, s = w.POB(k), w.CANON(w.PSUB(k))
        had, old = w.dom(o, s), w.val(o, s)[0]
        y = libs.native(w.rule2.out)
        X.prove(len(y) == 1, 'one number per configured partition')
        num, part = libs.vc.unpack(y[0], 2, -1)
        X.prove(part is v or eq(part, v), 'number of the partition')
        num = int_term(num)
        nxt = int_term(w.cnt.start)
        if X.decide(had):
            cover('known')
            X.prove(num == old, 'partition keeps its number')
            X.prove(not w.writes, 'known partition is not written again')
        else:
            cover('new')
            X.prove(num >= w.nxt, 'new number was not given before')
            X.prove(len(w.writes) == 1, 'new partition is recorded')
            pid, data = libs.vc.unpack(w.writes[0], 2, -1)
            X.prove(int_term(pid) == num, 'recorded number')
            X.prove(z3.BoolVal(set(libs.native(data.keys())) ==
                               {'order', 'subscriptions'}), 'recorded data')
            X.prove(eq(data['order'], mkint(o)), 'recorded ordering key')
            t = types_id(data['subscriptions'], 'jtype', list)
            if t is None:
                raise Unsupported('recorded subscriptions')
            X.prove(t[0] == s, 'recorded query types, sorted')
        # invariant for the next partition
        p, q = X.fresh('order', I), X.fresh('subs', I)
        pres0, val0 = w.dom(p, q), w.val(p, q)[0]
        d.cur_spec = types.SimpleNamespace(kcodec=w.kc, vcodec=IntC())
        pres, vals, _ = d.at_terms(p, q)
        me = z3.And(p == o, q == s)
        X.prove(z3.If(me, z3.And(pres, vals[0] == num), z3.And(
            pres == pres0, z3.Implies(pres, vals[0] == val0))),
            'numbers of other partitions do not change')
        X.prove(z3.And(nxt >= w.nxt, num < nxt), 'later numbers are larger')
        # one partition per number
        X.prove(z3.Implies(z3.And(pres, vals[0] == num), me),
                'a number belongs to one partition')

    def final2(w, start):
        cover('end')


class Query:
    """set of query types of a subscription: its order is not known"""

    def __init__(self, w, k):
        self.w, self.k = w, k

    def _set_(self):
        return self

    def _parts_(self):
        t = z3.Function(X.name('types.any'), I, I)(self.w.PSUB(self.k))
        return types_seq(t, 'etype', list).parts


def _sorted(x, *, key=None, reverse=False):
    if isinstance(x, Query) and key is None and reverse is False:
        return types_seq(x.w.CANON(x.w.PSUB(x.k)), 'etype', list)
    return libs.vc_sorted(x, key=key, reverse=reverse)


@unit('C16', [F + 'timeseriesdb:_ext_init_partitions'], assumes=A + [
    'get_query_types gives the set of query types of the subscription (C01)',
    'sequences of event types are countable (coded as integers)'],
    timeout=120, bounds=())
def partitions(m):
    w = Partitions(m)
    r = w.r

    def ints(n, v):
        if isinstance(v, (int, SymInt)) and not isinstance(v, bool):
            return lambda: mkint(X.fresh(n, I))
    w.rule = ForRule(lambda src: src is w.rows, w.init1, w.before1, w.after1,
                     w.final1, havoc=ints,
                     inplace=lambda n, v: isinstance(v, MDict))
    w.rule2 = ForRule(lambda src: src is w.parts, w.init2, w.before2,
                      w.after2, w.final2, inplace=lambda n, v: isinstance(
                          v, (MDict, libs.CountModel)))
    X.for_rule = Rules(w.rule, w.rule2)
    with Patch(r, tuple=_tuple, list=_list, sorted=_sorted):
        r._ext_init_partitions(w.env, w.txn, w.parts)
    X.prove(w.rule.used and (w.rule2.used), 'all partitions are numbered')


import units.lmdbb   # noqa
