"""C02: set algebra of subscriptions, over the contracts of trees (C01).

union, intersection, isdisjoint
             for all trees (by induction over depth, the recursive call
             answered by its contract) the result accepts exactly the event
             types of the union / intersection; disjoint exactly when no
             event type is in both (lemma: a well formed tree that is not
             empty matches some event type);
operations   PySubscription over these contracts."""

import types

import z3

from vf import libs, seqs
from vf.unit import unit, cover
from units.lib import *     # noqa
from units.trees import *   # noqa
from units import c01
from vf.syms import StrC, sym_str

A = ['event types have no "?" or "*" segments',
     'query types have "*" only in last place',
     'C01: contracts of trees']
NE = z3.Function('tree.NE', I, B)       # language is not empty
WL = z3.Function('tree.word', I, I)     # a word of a nonempty language


class DictSpec:
    def __init__(self, c, inv):
        self.kcodec = seqs.in_space(StrC, 'seg')
        self.vcodec = NodeC(c)
        self.inv = inv


def small(m):
    """exact execution on small subscriptions"""
    p = m.load(PY)

    def sub(n):
        qs = [c01.small_query(n) for _ in range(3 - n)]
        return p.PySubscription(MList(qs)), qs
    n = X.choose(2, 'shape') + 1
    (a, qa), (b, qb) = sub(n), sub(2 if n == 1 else 1)
    e = c01.small_event(2)
    ma = z3.Or(*[c01.spec_matches(e, q) for q in qa])
    mb = z3.Or(*[c01.spec_matches(e, q) for q in qb])
    what = X.choose(3, 'operation')
    if what == 0:
        X.prove(iff(a.union(b).matches(e), mkbool(z3.Or(ma, mb))), 'union')
    elif what == 1:
        X.prove(iff(a.intersection(b).matches(e), mkbool(z3.And(ma, mb))),
                'intersection')
    else:
        r = a.isdisjoint(b)
        if r:
            X.prove(z3.Not(z3.And(ma, mb)), 'disjoint')
            return
    X.prove(iff(a.matches(e), mkbool(ma)), 'operand unchanged')
    X.prove(iff(b.matches(e), mkbool(mb)), 'operand unchanged')


def two(c):
    a, b = sym_node(c, 'first'), sym_node(c, 'second')
    ta, tb = term(c, a), term(c, b)
    w = X.fresh('w', I)
    event_word(w)
    for k in (hd(w), STAR(), QM()):
        add_index(k, 'seg')
    k = X.fresh('key', I)
    add_index(k, 'seg')
    X.assume(z3.And(WF(ta), WF(tb)))

    def inst(x):
        if x.sort() == I:
            for t in (ta, tb):
                X.assume(wf_at(t, x))
                # children of well formed nodes are not empty
                X.assume(z3.Implies(dom(t, x), NE(child(t, x))))
                none_at(t, x)
                # well formed star children are universal
                X.assume(z3.Implies(z3.And(dom(t, x), x == STAR()),
                                    leaf(child(t, x))))
    seqs.universal_hook(inst, 'seg')
    unfold_L(ta, w)
    unfold_L(tb, w)
    return a, b, ta, tb, w, k


def unchanged(node, t, label):
    d = node[1]
    X.prove(not d.log and d.origin[1] is d.base, label)


def phases(a, b):
    """which operand's children a loop visits"""
    def which(vis):
        sp = vis.seg.space
        for i, x in enumerate((a, b)):
            if sp == ('dict', x[1].ident()):
                return i
        raise Unsupported('loop over other than operands')
    return which


@unit('C02', ['common.subscription.common:union'], assumes=A)
def union(m):
    if X.bound is not None:
        return small(m)
    c = m.load(SUB)
    a, b, ta, tb, w, k = two(c)
    u = tl(w)
    which = phases(a, b)

    def rec(x, y):
        x, y = term(c, x), term(c, y)
        r = X.fresh('union', I)
        X.assume(L(r, u) == z3.Or(L(x, u), L(y, u)))
        X.assume(z3.Implies(z3.And(WF(x), WF(y)), WF(r)))
        X.assume(NE(r) == z3.Or(NE(x), NE(y)))
        return NodeC(c).build([r])

    def inv(at, vis):
        i = which(vis)
        t = (ta, tb)[i]

        def body(x):
            p, (v,), _ = at(x)
            p0, (v0,) = at.init(x)
            q = z3.And(dom(t, x), vis(x))
            return z3.And(
                p == z3.Or(p0, q),
                z3.Implies(p, z3.And(WF(v), NE(v))),
                z3.Implies(p, L(v, u) == z3.Or(
                    z3.And(p0, L(v0, u)),
                    z3.And(q, L(child(t, x), u)))))
        return [(I, 'seg', body, 'united children of the visited keys')]
    X.dict_spec = lambda d: DictSpec(c, inv)
    real = c.union
    with Patch(c, union=rec):
        r = real(a, b)
    if isinstance(r[1], MDict) and r[1].base is None:
        for _, v in r[1].log:
            star_child(v)
    X.prove(lang(c, r, w) == z3.Or(L(ta, w), L(tb, w)),
            'union matches when one of them does')
    unchanged(a, ta, 'first operand unchanged')
    unchanged(b, tb, 'second operand unchanged')
    rt = term(c, r)
    X.prove(wf_at(rt, k), 'well formed')
    X.prove(z3.Implies(dom(rt, k), NE(child(rt, k))), 'children not empty')


def star_child(v):
    """a leaf is not empty"""
    t = NodeC(None).flatten(v)[0]
    X.assume(z3.Implies(leaf(t), NE(t)))


@unit('C02', ['common.subscription.pysubscription:_isdisjoint'], assumes=A)
def isdisjoint(m):
    if X.bound is not None:
        return small(m)
    c, p = m.load(SUB), m.load(PY)
    a, b, ta, tb, w, k = two(c)
    D = z3.Function('tree.disjoint', I, I, B)
    W2 = z3.Function('tree.common', I, I, I)

    def rec(x, y):
        x, y = term(c, x), term(c, y)
        add_index(pair(x, y), 'pair')
        return mkbool(disj(x, y))

    def disj(x, y):
        # symmetric: the contract does not depend on argument order
        return z3.Or(D(x, y), D(y, x))
    pair = z3.Function('tree.pair', I, I, I)

    def contract(x, y):
        u = tl(w)
        X.assume(z3.Implies(disj(x, y), z3.Not(z3.And(L(x, u), L(y, u)))))
        v = W2(x, y)
        X.assume(z3.Implies(z3.Not(disj(x, y)), z3.And(L(x, v), L(y, v))))
        return v
    # any ordinary segment
    h0 = X.fresh('segment', I)
    X.assume(z3.And(h0 != STAR(), h0 != QM()))
    E = X.fresh('empty', I)
    X.assume(nil(E))
    real = p._isdisjoint
    with Patch(p, _isdisjoint=rec):
        r = real(a, b)
    keys = [t for t, s, _ in X.witness_terms
            if t.sort() == I and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
            and not t.decl().eq(pair)]
    unchanged(a, ta, 'first operand unchanged')
    unchanged(b, tb, 'second operand unchanged')
    if r:
        for x in (hd(w), QM()):
            for y in (hd(w), QM()):
                contract(child(ta, x), child(tb, y))
        X.prove(z3.Not(z3.And(L(ta, w), L(tb, w))),
                'no common event type when disjoint')
        return
    keys = [*{str(x): x for x in [*keys, QM()]}.values()]
    cands = [E]
    for x in keys:
        for t in (ta, tb):
            ch = child(t, x)
            X.assume(z3.Implies(NE(ch), L(ch, WL(ch))))
            cands += common(x, WL(ch), h0)
        for y in {x, QM()}:
            for i, j in ((x, y), (y, x)):
                v = contract(child(ta, i), child(tb, j))
                cands += common(x, v, h0)
    alts = []
    for v in cands:
        for t in (ta, tb):
            unfold_L(t, v)
        alts.append(z3.And(L(ta, v), L(tb, v)))
    X.prove(z3.Or(*alts), 'some common event type when not disjoint')


def common(x, rest, h0):
    """words starting with key x or (for wildcards) with any segment"""
    h = z3.If(z3.Or(x == QM(), x == STAR()), h0, x)
    return [cons_facts(h, rest)]


@unit('C02', ['common.subscription.common:intersection'], timeout=180,
      assumes=A)
def intersection(m):
    if X.bound is not None:
        return small(m)
    c = m.load(SUB)
    a, b, ta, tb, w, k = two(c)
    u = tl(w)
    which = phases(a, b)

    def rec_i(x, y):
        x, y = term(c, x), term(c, y)
        r = X.fresh('intersection', I)
        X.assume(L(r, u) == z3.And(L(x, u), L(y, u)))
        X.assume(z3.Implies(z3.And(WF(x), WF(y)), WF(r)))
        node_facts(r)
        n = NodeC(c).build([r])
        n[1].truth = (z3.Not(none(r)), n[1].base)
        return n

    def rec_u(x, y):
        x, y = term(c, x), term(c, y)
        r = X.fresh('union', I)
        X.assume(L(r, u) == z3.Or(L(x, u), L(y, u)))
        X.assume(z3.Implies(z3.And(WF(x), WF(y)), WF(r)))
        X.assume(NE(r) == z3.Or(NE(x), NE(y)))
        return NodeC(c).build([r])

    def node_facts(r):
        # lemma nonempty: a well formed node that is a leaf or has children
        # is not empty; one that has neither matches nothing
        X.assume(z3.Implies(z3.And(WF(r), z3.Or(leaf(r), z3.Not(none(r)))),
                            NE(r)))
        X.assume(z3.Implies(z3.And(z3.Not(leaf(r)), none(r)),
                            z3.Not(L(r, u))))

    def part(t, o, x, vis, child_=child):
        """language under key x contributed by visited keys of t"""
        own = z3.And(dom(t, x), vis(x), L(child(t, x), u))
        wild = z3.And(dom(t, QM()), vis(QM()), L(child(t, QM()), u))
        return z3.Or(
            z3.And(x != QM(), own, z3.Or(
                z3.And(dom(o, x), L(child(o, x), u)),
                z3.And(dom(o, QM()), L(child(o, QM()), u)))),
            z3.And(wild, dom(o, x), L(child(o, x), u)))

    def inv(at, vis):
        sp = vis.seg.space
        i = which(vis)
        seg = vis.seg
        def body(x):
            p, (v,), _ = at(x)
            p0, (v0,) = at.init(x)
            q, q0 = z3.And(p, L(v, u)), z3.And(p0, L(v0, u))
            keep = z3.Implies(p, z3.And(WF(v), NE(v), z3.Or(
                p0, dom(ta, x), dom(tb, x))))
            em = seg.emits
            if len(em) == 1 and isinstance(em[0][1], tuple) and \
                    len(em[0][1]) == 3:
                t, o = (ta, tb) if i == 0 else (tb, ta)
                return z3.And(keep, q == z3.Or(q0, part(t, o, x, vis)))
            # over candidates of '?'
            s, o = (ta, tb) if i == 0 else (tb, ta)
            return z3.And(keep, q == z3.Or(q0, z3.And(
                dom(s, x), vis(x), L(child(s, x), u),
                L(child(o, QM()), u))))
        return [(I, 'seg', body, 'intersections of the visited keys')]
    X.dict_spec = lambda d: DictSpec(c, inv)
    real = c.intersection
    with Patch(c, intersection=rec_i, union=rec_u):
        r = real(a, b)
    X.prove(lang(c, r, w) == z3.And(L(ta, w), L(tb, w)),
            'intersection matches when both do')
    unchanged(a, ta, 'first operand unchanged')
    unchanged(b, tb, 'second operand unchanged')
    rt = term(c, r)
    X.prove(wf_at(rt, k), 'well formed')
    X.prove(z3.Implies(dom(rt, k), NE(child(rt, k))), 'children not empty')


@unit('C02', ['common.subscription.common:intersection'], bounds=(),
      assumes=A)
def nonempty(m):
    """lemma: a well formed node that is a leaf or has a child matches some
    event type (children of well formed nodes are not empty)"""
    t = X.fresh('node', I)
    E, h0, k = X.fresh('empty', I), X.fresh('segment', I), X.fresh('key', I)
    X.assume(z3.And(nil(E), h0 != STAR(), h0 != QM()))
    X.assume(z3.Or(leaf(t), dom(t, k)))
    X.assume(z3.Implies(dom(t, k), L(child(t, k), WL(child(t, k)))))
    v, = common(k, WL(child(t, k)), h0)
    unfold_L(t, E)
    unfold_L(t, v)
    X.prove(z3.Or(L(t, E), L(t, v)), 'not empty')


@unit('C02', ['common.subscription.pysubscription:PySubscription.union',
              'common.subscription.pysubscription:PySubscription.intersection',
              'common.subscription.pysubscription:PySubscription.isdisjoint',
              'common.subscription.pysubscription:_get_other_node'],
      assumes=A)
def operations(m):
    """operations on any number of subscriptions (of any implementation),
    by the contracts of operations on trees"""
    if X.bound is not None:
        return small(m)
    c, p = m.load(SUB), m.load(PY)
    root, w = X.fresh('root', I), X.fresh('w', I)
    qts = fn(OpC('queries'), 'queries')
    foreign = fn(BoolC(), 'foreign')
    rootf = z3.Function(X.name('root'), I, I)
    s = p.PySubscription([])
    s._root = node0 = NodeC(c).build([root])

    class Other(Item):
        __slots__ = ()

        def _subst_(self, pairs):
            return Other(tsub(self.t, pairs), self.kind, self.f)

        def _isinstance_(self, t):
            return not_(foreign(self.t)) if t is p.PySubscription else False
    f = {'get_query_types': lambda j: lambda: qts(j),
         '_root': lambda j: NodeC(c).build([rootf(j)])}
    n = X.fresh('others.len', I)
    X.assume(n >= 0)
    g = z3.Const(X.name('g'), I)
    others = MList.of([Seg(g, z3.IntVal(0), n,
                           [(T, Other(g, 'other', f))])], (tuple,))
    sp = others.parts[0].sp = seqs.new_space()

    def from_(x):
        # contract (C01): the tree of query types reported by a subscription
        # has its language
        if isinstance(x, (list, MList)) and not x:
            return NodeC(c).build([X.fresh('empty', I)])
        return NodeC(c).build([rootf(x.t.arg(0))])

    def op(and_):
        def f(x, y):
            r = X.fresh('r', I)
            a, b = L(term(c, x), w), L(term(c, y), w)
            X.assume(L(r, w) == (z3.And(a, b) if and_ else z3.Or(a, b)))
            return NodeC(c).build([r])
        return f
    what = X.choose(3, 'operation')
    if what == 2:
        D = z3.Function('tree.disjoint', I, I, B)
        o = Other(z3.IntVal(0), 'other', f)
        with Patch(c, node_from_query_types=from_), \
                Patch(p, _isdisjoint=lambda x, y: mkbool(
                    D(term(c, x), term(c, y)))):
            X.prove(iff(s.isdisjoint(o), mkbool(D(root, rootf(0)))),
                    'disjointness of the trees')
        X.prove(s._root is node0, 'subscription unchanged')
        return
    inter = what == 1

    def inv(value, vis):
        v = L(term(c, value), w)
        li = L(root, w)
        sg = -1 if inter else 1

        def lit(t):
            return z3.Not(t) if inter else t
        return [
            (None, None, lambda _: z3.Implies(lit(li), lit(v)), 'own types'),
            (I, sp, lambda j: z3.Implies(
                z3.And(vis(j), lit(L(rootf(j), w))), lit(v)),
             'types of the visited'),
            ('exists', sp, (z3.And(lit(v), z3.Not(lit(li))),
                            lambda j: z3.And(vis(j), lit(L(rootf(j), w)))),
             'only types of the visited')]
    X.carry_spec = lambda loc, init: seqs.CarrySpec(NodeC(c), inv) \
        if isinstance(init, c.Node) else None
    with Patch(c, node_from_query_types=from_, union=op(False),
               intersection=op(True)):
        r = (s.intersection if inter else s.union)(
            libs.Spread(others))
    X.prove(isinstance(r, p.PySubscription) and r is not s, 'new subscription')
    X.prove(s._root is node0, 'subscription unchanged')
    v = L(term(c, r._root), w)
    if X.choose(2, 'direction'):
        j = X.fresh('j', I)
        add_index(j, sp)
        X.assume(z3.And(j >= 0, j < n))
        if inter:
            X.prove(z3.Implies(v, z3.And(L(root, w), L(rootf(j), w))),
                    'matches only when all do')
        else:
            X.prove(z3.Implies(z3.Or(L(root, w), L(rootf(j), w)), v),
                    'matches when some does')
    else:
        h = z3.Const(X.name('h'), I)
        lj = L(rootf(h), w)
        universal(h, z3.And(h >= 0, h < n), lj if inter else z3.Not(lj), sp)
        if inter:
            X.prove(z3.Implies(L(root, w), v), 'matches when all do')
        else:
            X.prove(z3.Implies(v, L(root, w)), 'matches only when some does')
