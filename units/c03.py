"""C03: event type collections.

Trie nodes are identified by the path of segments leading to them (the
default factory gives every missing key its own new node: unit create_node).
HV(p) / DQ(p): the value is in the value set of node p / in the reverse index
of the value; the lookup contract says a value is found iff some query path q
with HV(q) matches the event type."""

import types

import z3

from vf import libs, seqs
from vf.unit import unit, cover
from units.lib import *     # noqa
from units.trees import *   # noqa
from units import c01
from vf.syms import StrC, sym_str

TREE = 'hat.event.common.collection.pytree'
LIST = 'hat.event.common.collection.pylist'
A = ['event types have no "?" or "*" segments',
     'C01: a subscription reports query types of exactly its event types, '
     'with "*" only in last place']


def _g(n, *s):
    return z3.Function('coll.' + n, *s)


snoc = _g('snoc', I, I, I)      # path extended by a segment
app = _g('app', I, I, I)        # path extended by a word
pre = _g('pre', I, I, I)        # path of first n segments of a query
EX = _g('EX', I, I, B)          # node has that child
HV = _g('HV', I, I, B)          # node, value: value is in the node
VC = OpC('Value', object)


def app_facts(p, q):
    X.assume(z3.Implies(nil(q), app(p, q) == p))
    X.assume(z3.Implies(z3.Not(nil(q)),
                        app(p, q) == app(snoc(p, hd(q)), tl(q))))


class Node_:
    """trie node at path p"""

    def __init__(self, p, env):
        self.p, self.env = p, env
        self.values = Values(p, env)
        self.children = Children(p, env)

    def _subst_(self, pairs):
        return Node_(tsub(self.p, pairs), self.env)

    def _eq_(self, o):
        return mkbool(self.p == o.p) if isinstance(o, Node_) else False


class PathC(seqs.Codec):
    sorts = (I,)

    def __init__(self, env):
        self.env = env

    def build(self, ts):
        return Node_(ts[0], self.env)

    def flatten(self, v):
        return [v.p] if isinstance(v, Node_) else None


class Children:
    def __init__(self, p, env):
        self.p, self.env = p, env

    def _contains_(self, k):
        return mkbool(EX(self.p, StrC.flatten(k)[0]))

    def __contains__(self, k):
        return bool(self._contains_(k))

    def __getitem__(self, k):
        return Node_(snoc(self.p, StrC.flatten(k)[0]), self.env)

    def get(self, k, d=None):
        return self[k] if k in self else d


class Values:
    """set of values of a node"""

    def __init__(self, p, env):
        self.p, self.env = p, env

    def _parts_(self):
        v = z3.Const(X.name('v'), I)
        s = MSet(base=lambda *ks: HV(self.p, ks[0]), kcodec=VC)
        del v
        return s.parts()


class Deque_:
    """reverse index entry of the value"""

    def __init__(self, env):
        self.env = env

    def append(self, node):
        a, d = self.env.at(node)
        X.prove(not_(d), 'node indexed once per value')
        self.env.H[node] = (a, True)


class Heap:
    """membership of one value in nodes and its reverse index"""

    def __init__(self, value):
        self.value = value
        self.hv0 = z3.Function('coll.hv0', I, B)
        self.kc = PathC(self)
        self.vc = TupC(tuple, BoolC(), BoolC())
        self.H = MDict(base=SymMap(
            self.kc, self.vc, lambda p: T,
            lambda p: [self.hv0(p), self.hv0(p)]))

    def at(self, node):
        a, d = self.H[node]
        return a, d


def small(m):
    """exact execution of short histories"""
    t, ls, p = m.load(TREE), m.load(LIST), m.load(PY)
    mk = [t.PyTreeEventTypeCollection, ls.PyListEventTypeCollection][
        X.choose(2, 'implementation')]
    values = ['x', 'y']
    e = c01.small_event(1)

    def sub(n):
        q = c01.small_query(n)
        return p.PySubscription(MList([q])), c01.spec_matches(e, q)
    found = {v: z3.BoolVal(False) for v in values}
    s, b = sub(2)
    c = mk(MList([(s, 'x')]))
    found['x'] = b
    s, b = sub(1)
    v = values[X.choose(2, 'value')]
    c.add(s, v)
    found[v] = z3.Or(found[v], b)
    if X.choose(2, 'remove'):
        c.remove('x')
        found['x'] = z3.BoolVal(False)
        if X.choose(2, 'again'):
            c.add(s, 'x')
            found['x'] = b
    r = libs.vc_list(c.get(e))
    for v in values:
        n = sum(1 for i in r if i == v)
        X.prove(n <= 1, 'each value once')
        X.prove(iff(n == 1, mkbool(found[v])), f'lookup of {v}')


@unit('C03', ['common.collection.pytree:_create_node'], bounds=())
def create_node(m):
    """every missing child is a new empty node"""
    t = m.load(TREE)
    a, k, k2 = t._create_node(), sym_str('k'), sym_str('k2')
    X.prove(isinstance(a, t._Node), 'node')
    X.prove(not_(bool(a.values)), 'no values')
    X.prove(not_(contains_(a.children, k)), 'no children')
    b = a.children[k]
    X.prove(a.children[k] is b, 'child is kept')
    X.prove(b is not a and b.values is not a.values and
            b.children is not a.children, 'new child')
    X.prove(not_(bool(b.values)), 'child has no values')
    X.prove(not_(contains_(b.children, k2)), 'child has no children')


def contains_(c, k):
    return seqs.contains(c, k)


@unit('C03', ['common.collection.pytree:_get'], assumes=A)
def get_node(m):
    """a value is yielded iff it is stored at a query path below the node
    that matches the rest of the event type"""
    if X.bound is not None:
        return small(m)
    t = m.load(TREE)
    env = types.SimpleNamespace()
    p, q, u = X.fresh('path', I), X.fresh('q', I), X.fresh('value', I)
    ev = Word(X.fresh('event', I))
    k = X.fresh('index', I)
    X.assume(z3.And(k >= 0, k <= wlen(ev.s)))
    w = Word(ev.s, k).t
    W = _g('witness', I, I, I, I)       # query below a path found for a value

    def get(node, e, i):
        X.prove(e is ev and cmp('==', i, SymInt(k + 1)),
                'continues with the next segment')
        n = node.p
        rest = tl(w)

        return libs.Gen(MList.of(MSet(
            base=lambda *ks: Fd(n, rest, ks[0]), kcodec=VC).parts()))
    Fd = _g('found', I, I, I, B)

    def contract(n, v):
        """of a recursive call, both directions"""
        rest = tl(w)
        g = W(n, rest, v)
        X.assume(z3.Implies(Fd(n, rest, v),
                            z3.And(HV(app(n, g), v), M(g, rest))))
        X.assume(z3.Implies(z3.And(HV(app(n, tl(q)), v), M(tl(q), rest)),
                            Fd(n, rest, v)))
    real = t._get
    # structure: children on the way to a value exist; '*' is last
    X.assume(z3.Implies(z3.And(z3.Not(nil(q)), HV(app(p, q), u)),
                        z3.And(EX(p, hd(q)),
                               z3.Implies(hd(q) == STAR(), nil(tl(q))))))
    app_facts(p, q)
    app_facts(snoc(p, hd(q)), tl(q))
    unfold_M(q, w)
    with Patch(t, _get=get):
        out = libs.vc_list(real(Node_(p, env), ev, SymInt(k)))
    v = VC.build([u])
    if X.choose(2, 'direction'):
        def only(v, j):
            v = VC.flatten(v)[0]
            E = X.fresh('empty', I)
            X.assume(nil(E))
            alts = []
            cands = [E, cons_facts(STAR(), E)]
            for c in (QM(), hd(w)):
                contract(snoc(p, c), v)
                cands.append(cons_facts(c, W(snoc(p, c), tl(w), v)))
            for x in cands:
                app_facts(p, x)
                app_facts(snoc(p, hd(x)), tl(x))
                unfold_M(x, w)
                alts.append(z3.And(HV(app(p, x), v), M(x, w)))
            X.prove(z3.Or(*alts), 'found values match')
        each(out, only)
    else:
        X.assume(z3.And(HV(app(p, q), u), M(q, w)))
        for c in (QM(), hd(w)):
            contract(snoc(p, c), u)
        add_index(u)
        X.prove(exists(out, lambda x: eq(x, v)), 'matching values are found')


@unit('C03', ['common.collection.pytree:PyTreeEventTypeCollection.get'],
      assumes=A)
def get(m):
    if X.bound is not None:
        return small(m)
    t = m.load(TREE)
    c = t.PyTreeEventTypeCollection()
    root, e = c._root, Word(X.fresh('event', I))
    F = _g('foundAt', I, B)

    def get_(node, ev, i=0):
        X.prove(node is root and ev is e and cmp('==', i, 0),
                'search from the root')
        g = z3.Const(X.name('g'), I)
        N = X.fresh('n', I)
        val = z3.Function(X.name('yielded'), I, I)
        f = z3.Function(X.name('at'), I, I)
        X.assume(N >= 0)
        s = Seg(g, z3.IntVal(0), N, [(T, VC.build([val(g)]))])
        s.sp = seqs.new_space()
        universal(g, z3.And(g >= 0, g < N), F(val(g)), s.sp)
        u0 = u
        X.assume(z3.Implies(F(u0), z3.And(f(u0) >= 0, f(u0) < N,
                                          val(f(u0)) == u0)))
        add_index(f(u0), s.sp)
        return libs.Gen(MList.of([s]))
    u = X.fresh('value', I)
    with Patch(t, _get=get_):
        r = c.get(e)
    X.prove(isinstance(r, MSet), 'every value once')
    X.prove(iff(seqs.contains(r, VC.build([u])), mkbool(F(u))),
            'values found in the tree')


@unit('C03', ['common.collection.pytree:PyTreeEventTypeCollection.add'],
      assumes=A)
def add(m):
    """value is stored at exactly the reported query paths and those where it
    already was; nothing else changes"""
    if X.bound is not None:
        return small(m)
    t = m.load(TREE)
    value = VC.build([X.fresh('value', I)])
    env = Heap(value)
    qs = c01.queries()
    path = X.fresh('path', I)
    root = X.fresh('root', I)
    RQ = z3.Function('coll.reported', I, B)
    FI = z3.Function('coll.first', I, I)

    def P(j):
        return pre(qs.f(j), wlen(qs.f(j)))

    def q_facts(j):
        if j.sort() != I:
            return
        X.assume(RQ(P(j)))
        X.assume(wlen(qs.f(j)) >= 0)
        X.assume(pre(qs.f(j), 0) == root)
    seqs.universal_hook(q_facts, qs.sp)

    def vadd(self, v):
        X.prove(eq(v, value), 'only the added value is stored')
        a, d = env.at(Node_(self.p, env))
        env.H[Node_(self.p, env)] = (True, d)

    def vhas(self, v):
        X.prove(eq(v, value), 'only the added value is looked up')
        return env.at(Node_(self.p, env))[0]

    class V(Values):
        add = vadd
        _contains_ = vhas

        def __contains__(self, v):
            return bool(self._contains_(v))

    class Index:
        def __getitem__(self, v):
            X.prove(eq(v, value), 'index of the added value')
            return Deque_(env)
    c = t.PyTreeEventTypeCollection()

    class N(Node_):
        def __init__(self, p, e):
            Node_.__init__(self, p, e)
            self.values = V(p, e)

        def _subst_(self, pairs):
            return N(tsub(self.p, pairs), self.env)
    env.kc.build = lambda ts: N(ts[0], env)
    Children.__getitem__ = lambda self, k: N(
        snoc(self.p, StrC.flatten(k)[0]), self.env)
    c._root = N(root, env)
    c._value_nodes = Index()
    sub = types.SimpleNamespace(get_query_types=lambda: qs)

    def dspec(d):
        def inv(at, vis):
            def keep(p):
                pr, (a, b), _ = at(p)
                return z3.And(pr, a == b, z3.Implies(env.hv0(p), a),
                              z3.Implies(a, z3.Or(env.hv0(p), RQ(p))))

            def done(j):
                pr, (a, b), _ = at(P(j))
                return z3.Implies(vis(j), a)
            return [(I, 'path', keep, 'stored at reported paths only'),
                    (I, qs.sp, done, 'stored at every visited path')]
        return types.SimpleNamespace(
            kcodec=seqs.in_space(env.kc, 'path'), vcodec=env.vc, inv=inv)
    X.dict_spec = dspec

    class OffC(seqs.Codec):
        sorts = (I,)

        def __init__(self, s):
            self.s = s

        def build(self, ts):
            return Word(self.s, ts[0], query=True)

        def flatten(self, v):
            if isinstance(v, Word) and v.s.eq(self.s):
                return [v.off]
            raise Unsupported('other query')
    cur = Memo()

    def cspec(loc, init):
        if isinstance(init, Word):
            s = init.s
            cur[:] = [s]
            return seqs.CarrySpec(OffC(s), lambda v, vis: [
                (None, None, lambda _: z3.And(
                    v.off == vis.k, v.off >= 0, v.off <= wlen(s)),
                 'rest of the query')])
        if isinstance(init, Node_):
            def inv(v, vis):
                if not cur:
                    raise Unsupported('node is carried without its query')
                s = cur[0]
                k = vis.k
                add_index(v.p, 'path')
                X.assume(pre(s, k) == snoc(pre(s, k - 1), el(s, k - 1)))
                X.assume(pre(s, 0) == root)
                X.assume(pre(s, k + 1) == snoc(pre(s, k), el(s, k)))
                return [(None, None, lambda _: v.p == pre(s, k),
                         'node of the visited segments')]
            return seqs.CarrySpec(env.kc, inv)
    X.carry_spec = cspec

    def on_seg(word, p):
        if not z3.is_int_value(word.off):
            raise Unsupported('iteration of the rest of a query')
        s = word.s
        cur[:] = [s]
        p.sp = seqs.new_space()

        def last(i):
            # '*' only in last place
            if i.sort() == I:
                X.assume(z3.Implies(el(s, i) == STAR(), i >= wlen(s) - 1))
        seqs.universal_hook(last, p.sp)
    Word.on_seg = on_seg
    try:
        c.add(sub, value)
    finally:
        Word.on_seg = None
        del Children.__getitem__
        Children.__getitem__ = _child
    add_index(path, 'path')
    X.prove(c._root.p is root, 'same tree')
    a, b = env.at(Node_(path, env))
    a, b = bool_term(a), bool_term(b)
    goal = X.choose(3, 'goal')
    if goal == 0:
        X.prove(a == b, 'reverse index has exactly the nodes of the value')
    elif goal == 1:
        j = X.fresh('j', I)
        add_index(j, qs.sp)
        X.assume(z3.And(j >= 0, j < qs.n, path == P(j)))
        X.prove(a, 'stored at every reported query')
    else:
        X.prove(z3.And(z3.Implies(env.hv0(path), a),
                       z3.Implies(a, z3.Or(env.hv0(path), RQ(path)))),
                'nothing else changes')


_child = Children.__getitem__


@unit('C03', ['common.collection.pytree:PyTreeEventTypeCollection.remove'],
      assumes=A)
def remove(m):
    """value disappears from exactly the indexed nodes (unit add: these are
    all nodes it is stored in, once each); other values are untouched"""
    if X.bound is not None:
        return small(m)
    t = m.load(TREE)
    value = VC.build([X.fresh('value', I)])
    other = VC.build([X.fresh('other', I)])
    path = X.fresh('path', I)
    hv0 = z3.Function('coll.hv0', I, B)
    kc = PathC(None)
    H = MDict(base=SymMap(kc, BoolC(), lambda p: T, lambda p: [hv0(p)]))
    known = X.fresh('known', B)
    n = X.fresh('nodes.len', I)
    at = z3.Function('coll.node', I, I)
    FI = z3.Function('coll.position', I, I)
    X.assume(n >= 0)
    g = z3.Const(X.name('g'), I)

    class V(Values):
        def remove(self, v):
            X.prove(eq(v, value), 'only the removed value is removed')
            r = H[Node_(self.p, None)]
            if not r:
                raise KeyError('value')
            H[Node_(self.p, None)] = False
        discard = remove

    class N(Node_):
        def __init__(self, p, e):
            Node_.__init__(self, p, e)
            self.values = V(p, e)

        def _subst_(self, pairs):
            return N(tsub(self.p, pairs), None)
    kc.build = lambda ts: N(ts[0], None)
    nodes = MList.of([Seg(g, z3.IntVal(0), n, [(T, N(at(g), None))])])
    sp = nodes.parts[0].sp = seqs.new_space()

    # contract of add: the index has each node of the value exactly once
    def inst(j):
        if j.sort() == I:
            X.assume(z3.Implies(z3.And(j >= 0, j < n), z3.And(
                hv0(at(j)), FI(at(j)) == j)))
    seqs.universal_hook(inst, sp)

    def inst_p(p):
        if p.sort() == I:
            X.assume(z3.Implies(hv0(p), z3.And(
                known, FI(p) >= 0, FI(p) < n, at(FI(p)) == p)))
            add_index(FI(p), sp)
    seqs.universal_hook(inst_p, 'path')
    popped = []

    class Index:
        def pop(self, v, *d):
            X.prove(eq(v, value), 'index entry of the value')
            popped.append(v)
            if X.decide(known):
                return nodes
            if not d:
                raise KeyError('value')
            return d[0]

    def dspec(d):
        def inv(at_, vis):
            def body(p):
                pr, (a,), _ = at_(p)
                return z3.And(pr, a == z3.And(hv0(p), z3.Not(vis(FI(p)))))
            return [(I, 'path', body, 'removed from the visited nodes')]
        return types.SimpleNamespace(
            kcodec=seqs.in_space(kc, 'path'), vcodec=BoolC(), inv=inv)
    X.dict_spec = dspec
    c = t.PyTreeEventTypeCollection()
    root = c._root
    c._value_nodes = Index()
    c.remove(value)
    X.prove(c._root is root, 'same tree')
    X.prove(len(popped) == 1, 'index entry is removed')
    add_index(path, 'path')
    X.prove(not_(H[Node_(path, None)]), 'value is nowhere')


def sub_of(p, ev):
    """abstract subscription: the types it matches, seen at one event type"""
    class Sub(Sym):
        __slots__ = ('t',)

        def __init__(self, t):
            self.t = t

        def _subst_(self, pairs):
            return Sub(tsub(self.t, pairs))

        def union(self, *o):
            r = X.fresh('union', I)
            X.assume(MS(r) == z3.Or(MS(self.t), *[MS(i.t) for i in o]))
            return Sub(r)

        def matches(self, e):
            X.prove(e is ev, 'matches the looked up type')
            return mkbool(MS(self.t))

        def __bool__(self):
            return True

    class SubC(seqs.Codec):
        sorts = (I,)

        def build(self, ts):
            return Sub(ts[0])

        def flatten(self, v):
            return [v.t] if isinstance(v, Sub) else None
    return Sub, SubC()


MS = _g('matched', I, B)


@unit('C03', ['common.collection.pylist:PyListEventTypeCollection.add',
              'common.collection.pylist:PyListEventTypeCollection.remove',
              'common.collection.pylist:PyListEventTypeCollection.get'],
      assumes=A + ['C02: contract of union'])
def list_collection(m):
    if X.bound is not None:
        return small(m)
    ls = m.load(LIST)
    ev = object()
    Sub, SubC = sub_of(None, ev)
    c = ls.PyListEventTypeCollection()
    dom0, s0 = z3.Function('coll.dom0', I, B), z3.Function('coll.s0', I, I)
    c._values = MDict(base=SymMap(VC, SubC, lambda k: dom0(k),
                                  lambda k: [s0(k)]))
    v, o = VC.build([X.fresh('value', I)]), VC.build([X.fresh('other', I)])
    old = z3.And(dom0(o.t), MS(s0(o.t)))
    s = Sub(X.fresh('sub', I))
    what = X.choose(3, 'operation')
    if what == 0:
        c.add(s, v)
        new = z3.Or(old, z3.And(o.t == v.t, MS(s.t)))
    elif what == 1:
        c.remove(v)
        new = z3.And(old, o.t != v.t)
    else:
        new = old
    add_index(o.t)
    goal = X.choose(3, 'goal')
    out = libs.vc_list(c.get(ev))
    if goal == 0:
        X.assume(new)
        X.prove(exists(out, lambda x: eq(x, o)), 'subscribed value is found')
    elif goal == 1:
        def only(x, j):
            X.assume(bool_term(eq(x, o)))
            X.prove(new, 'found value is subscribed')
        each(out, only)
    else:
        def once(x, y):
            X.prove(not_(eq(x, y)), 'each value once')
        distinct_pair(out, once)


@unit('C03', ['common.collection:create_event_type_collection',
              'common.collection.pytree:PyTreeEventTypeCollection.__init__',
              'common.collection.pylist:PyListEventTypeCollection.__init__'],
      bounds=())
def create(m):
    """collection of given items is an empty collection to which they are
    added in order"""
    pkg, t, ls = (m.load('hat.event.common.collection'), m.load(TREE),
                  m.load(LIST))
    i = X.choose(3, 'class')
    cls = ls.PyListEventTypeCollection if i == 2 else \
        t.PyTreeEventTypeCollection
    its = items('item', {})
    subs, vals = z3.Function('c.sub', I, I), z3.Function('c.val', I, I)
    g = z3.Const(X.name('g'), I)
    n = X.fresh('n', I)
    X.assume(n >= 0)
    lst = MList.of([Seg(g, z3.IntVal(0), n, [(T, (
        VC.build([subs(g)]), VC.build([vals(g)])))])])
    sp = lst.parts[0].sp = seqs.new_space()
    log = MList()
    real = cls.add

    def add(self, sub, value):
        log.append((sub, value))
    cls.add = add
    try:
        c = (pkg.create_event_type_collection if i == 0 else cls)(lst)
    finally:
        cls.add = real
    del its
    X.prove(isinstance(c, cls), 'collection')
    X.prove(seqs.len_term(log) == n, 'every item is added')
    k = X.fresh('k', I)
    X.assume(z3.And(k >= 0, k < n))
    add_index(k, sp)
    s, v = log[mkint(k)]
    X.prove(z3.And(s.t == subs(k), v.t == vals(k)), 'given item is added')
