"""C01: matching of event types.

matches_query_type   for event and query types of any length the result is
                     the closed form of the rule ('?' is one segment, a final
                     '*' any rest, anything else itself); a lemma shows that
                     the closed form satisfies the recursive rule;
_matches, trie       by induction over depth: adding, building and listing
                     keep the set of matched event types, matching a trie is
                     matching one of its query types;
subscription         PySubscription over these contracts."""

import types

import z3

from vf import libs, seqs
from vf.unit import unit, cover
from units.lib import *     # noqa
from units.trees import *   # noqa
from vf.syms import StrC, sym_tuple, sym_int, sym_str

A = ['event types have no "?" or "*" segments',
     'query types have "*" only in last place']


def seg_choice(last):
    i = X.choose(3 if last else 2, 'segment')
    return sym_str('seg') if i == 0 else '?' if i == 1 else '*'


def small_query(n):
    k = X.choose(n + 1, 'qlen')
    r = tuple(seg_choice(i == k - 1) for i in range(k))
    for s in r:
        if not isinstance(s, str):
            X.assume(z3.And(s.t != STAR(), s.t != QM()))
    return r


def small_event(n):
    k = X.choose(n + 1, 'elen')
    r = tuple(sym_str('ev') for i in range(k))
    for s in r:
        X.assume(z3.And(s.t != STAR(), s.t != QM()))
    return r


def spec_matches(e, q):
    """documented rule on tuples of known length"""
    ts = []
    for i, s in enumerate(q):
        if isinstance(s, str) and s == '*':
            return z3.And(*ts) if ts else T
        if i >= len(e):
            return z3.BoolVal(False)
        if isinstance(s, str) and s == '?':
            continue
        ts.append(bool_term(eq(s, e[i])))
    if len(e) != len(q):
        return z3.BoolVal(False)
    return z3.And(*ts) if ts else T


def small(m):
    """exact execution of everything on small inputs"""
    p = m.load(PY)
    qs = [small_query(2) for _ in range(X.choose(2, 'nq') + 1)]
    e = small_event(2)
    s = p.PySubscription(MList(qs))
    want = z3.Or(*[spec_matches(e, q) for q in qs])
    X.prove(iff(s.matches(e), mkbool(want)), 'subscription matches')
    got = libs.vc_list(s.get_query_types()).items()
    X.prove(iff(mkbool(want), mkbool(
        z3.Or(*[spec_matches(e, tuple(q)) for q in got])
        if got else z3.BoolVal(False))), 'reported query types')


@unit('C01', ['common.matches:matches_query_type'], bounds=(3,), assumes=A)
def matches_query_type(m):
    mod = m.load('hat.event.common.matches')
    if X.bound is not None:
        e, q = small_event(X.bound), small_query(X.bound)
        X.prove(iff(mod.matches_query_type(e, q),
                    mkbool(spec_matches(e, q))), 'documented rule')
        return
    e, q = sym_tuple(StrC, 'event'), sym_tuple(StrC, 'query')
    g = z3.Const(X.name('g'), I)
    qt = lambda k: q.get(k).t       # noqa
    et = lambda k: e.get(k).t       # noqa
    universal(g, z3.And(g >= 0, g < q.n - 1), qt(g) != STAR())
    star = z3.And(q.n > 0, qt(q.n - 1) == STAR())
    n = z3.If(star, q.n - 1, q.n)
    r = mod.matches_query_type(e, q)
    lens = z3.And(e.n >= n, z3.Or(star, e.n == n))
    k = X.fresh('k', I)
    if r:
        add_index(k)
        add_index(z3.simplify(q.n - 1))
        X.prove(lens, 'lengths when matched')
        X.assume(z3.And(k >= 0, k < n))
        X.prove(z3.Or(qt(k) == QM(), qt(k) == et(k)), 'segments match')
    else:
        g = z3.Const(X.name('g'), I)
        universal(g, z3.And(g >= 0, g < n), z3.Or(qt(g) == QM(),
                                                  qt(g) == et(g)))
        X.assume(lens)
        add_index(z3.simplify(q.n - 1))
        X.prove(False, 'not matched only if rule fails')


@unit('C01', ['common.matches:matches_query_type'], assumes=A,
      bounds=())
def closed_form_is_the_rule(m):
    """lemma: the closed form of matches_query_type satisfies the recursive
    definition M used in contracts of trees (at every pair of suffixes)"""
    s, n, e, en = (X.fresh(x, I) for x in 's n e en'.split())
    q = lambda k: el(s, k)      # noqa
    v = lambda k: el(e, k)      # noqa
    i = X.fresh('i', I)
    X.assume(z3.And(n >= 0, en >= 0, i >= 0, i <= n, i <= en))
    k = z3.Int('k')
    X.assume(z3.ForAll(k, z3.Implies(z3.And(k >= 0, k < n - 1),
                                     q(k) != STAR())))

    def closed(i, j):
        star = z3.And(i < n, q(n - 1) == STAR())
        m = z3.If(star, n - 1, n)
        k = z3.Int('k')
        return z3.And(en - j >= m - i, z3.Or(star, en - j == m - i),
                      z3.ForAll(k, z3.Implies(
                          z3.And(k >= i, k < m),
                          z3.Or(q(k) == QM(), q(k) == v(k)))))
    X.prove(closed(i, i) == z3.If(i >= n, en - i <= 0, z3.If(
        q(i) == STAR(), T, z3.And(
            en - i > 0, z3.Or(q(i) == QM(), q(i) == v(i)),
            closed(i + 1, i + 1)))), 'closed form unfolds as M')


@unit('C01', ['common.subscription.pysubscription:_matches'], assumes=A)
def tree_matches(m):
    if X.bound is not None:
        return small(m)
    c, p = m.load(SUB), m.load(PY)
    node = sym_node(c)
    t = term(c, node)
    e = Word(X.fresh('event', I))
    i = X.fresh('i', I)
    X.assume(z3.And(i >= 0, i <= e.n))
    w = Word(e.s, i).t

    def rec(n, ev, j=0):
        j = int_term(j)
        X.prove(z3.And(j > i, j <= e.n), 'recursion advances')
        X.prove(ev is e, 'recursion on the event type')
        return mkbool(L(term(c, n), Word(e.s, j).t))
    real = p._matches
    unfold_L(t, w)
    with Patch(p, _matches=rec):
        r = real(node, e, mkint(i))
    X.prove(iff(r, mkbool(L(t, w))), 'matches is the language of the tree')


@unit('C01', ['common.subscription.common:_add_query_type'], assumes=A)
def add_query_type(m):
    if X.bound is not None:
        return small(m)
    c = m.load(SUB)
    node = sym_node(c)
    t = term(c, node)
    q = Word(X.fresh('query', I), query=True)
    w = X.fresh('w', I)
    event_word(w)
    add_index(w, 'w')
    add_index(tl(w), 'w')
    k = X.fresh('key', I)
    add_index(k, 'seg')
    add_index(hd(w), 'seg')
    old = lang(c, node, w)
    unfold_M(q.t, w)
    X.assume(WF(t))
    X.assume(wf_at(t, k))
    X.assume(wf_at(t, STAR()))

    def rec(n, rest):
        n0 = term(c, n)
        X.prove(isinstance(rest, Word) and rest.n < q.n,
                'recursion on shorter query')
        new = X.fresh('added', I)
        emptied(n0)

        def inst(u):
            if u.sort() == I:
                X.assume(L(new, u) == z3.Or(L(n0, u), M(rest.t, u)))
        seqs.universal_hook(inst, 'w')
        X.assume(z3.Implies(WF(n0), WF(new)))
        return NodeC(c).build([new])

    def emptied(n0):
        # a node without leaf and children matches nothing and is well formed
        for u in (w, tl(w)):
            X.assume(z3.Implies(z3.And(z3.Not(leaf(n0)), none_key(n0)),
                                z3.Not(L(n0, u))))
        X.assume(z3.Implies(none_key(n0), WF(n0)))
    real = c._add_query_type
    with Patch(c, _add_query_type=rec):
        r = real(node, q)
    X.prove(lang(c, r, w) == z3.Or(old, M(q.t, w)),
            'adds exactly the words of the query')
    rt = term(c, r)
    X.prove(wf_at(rt, k), 'well formed')


def queries(name='queries'):
    """abstract sequence of query words"""
    n = X.fresh(name + '.len', I)
    X.assume(n >= 0)
    f = z3.Function(X.name(name), I, I)
    sp = seqs.new_space()

    class QWord(seqs.Codec):
        sorts = (I,)

        def build(self, ts):
            return Word(ts[0], query=True)
    g = z3.Const(X.name('g'), I)
    r = MList.of([Seg(g, z3.IntVal(0), n,
                      [(T, Word(f(g), query=True))])])
    r.parts[0].sp = sp
    r.n, r.f, r.sp = n, f, sp
    return r


@unit('C01', ['common.subscription.common:node_from_query_types'], assumes=A)
def node_from_query_types(m):
    if X.bound is not None:
        return small(m)
    c = m.load(SUB)
    qs = queries()
    w = X.fresh('w', I)
    event_word(w)

    def add(node, q):
        X.prove(isinstance(q, Word), 'adds a query type')
        t = term(c, node)
        new = X.fresh('added', I)
        X.assume(L(new, w) == z3.Or(L(t, w), M(q.t, w)))
        X.assume(z3.Implies(WF(t), WF(new)))
        return NodeC(c).build([new])

    def inv(node, vis):
        t = term(c, node)
        X.assume(L(t, w) == lang(c, node, w))

        def hit(j):
            return z3.And(j >= 0, j < qs.n, vis(j), M(qs.f(j), w))
        return [(I, qs.sp, lambda j: z3.Implies(hit(j), L(t, w)),
                 'every added query is matched'),
                ('exists', qs.sp, (L(t, w), hit), 'only added queries'),
                (None, None, lambda _: WF(t), 'well formed')]
    X.carry_spec = lambda loc, init: seqs.CarrySpec(NodeC(c), inv) \
        if isinstance(init, c.Node) else None
    with Patch(c, _add_query_type=add):
        r = c.node_from_query_types(qs)
    t = term(c, r)
    X.assume(L(t, w) == lang(c, r, w))
    if X.choose(2, 'direction'):
        j = X.fresh('j', I)
        add_index(j, qs.sp)
        X.assume(z3.And(j >= 0, j < qs.n, M(qs.f(j), w)))
        X.prove(L(t, w), 'every query is matched')
    else:
        g = z3.Const(X.name('g'), I)
        universal(g, T, z3.Not(z3.And(g >= 0, g < qs.n, M(qs.f(g), w))),
                  qs.sp)
        X.prove(z3.Not(L(t, w)), 'nothing else is matched')
    X.prove(WF(t), 'well formed')


@unit('C01', ['common.subscription.common:node_to_query_types'], assumes=A)
def node_to_query_types(m):
    if X.bound is not None:
        return small(m)
    c = m.load(SUB)
    node = sym_node(c)
    t = term(c, node)
    w = X.fresh('w', I)
    event_word(w)
    X.assume(WF(t))
    unfold_L(t, w)
    E = X.fresh('empty', I)
    X.assume(nil(E))
    real = c.node_to_query_types
    with Patch(c, node_to_query_types=lambda n: reported_list(term(c, n))):
        out = libs.vc_list(real(node))
    keys = (hd(w), STAR(), QM())
    for k in keys:
        X.assume(wf_at(t, k))
        none_at(t, k)
        # a leaf matches the empty word
        X.assume(z3.Implies(leaf(child(t, k)), L(child(t, k), E)))

    def facts(v):
        if isinstance(v, Word) and v.t.decl().eq(cons):
            h, r = v.t.children()
            cons_facts(h, r)
            if r.decl().eq(QT):
                n, k = r.children()
                reported(n, tl(w), k)
                X.assume(wf_at(t, h))
                none_at(t, h)
    goal = X.choose(3, 'goal')
    if goal == 0:
        def only(v, j):
            facts(v)
            X.prove(z3.Implies(Mval(v, w), L(t, w)),
                    'reported queries match nothing else')
        each(out, only)
    elif goal == 1:
        def valid(v, j):
            facts(v)
            q = v.t if isinstance(v, Word) else None
            if q is None:
                X.prove(v == (), 'valid query')
                return
            X.prove(vdef(q), 'valid query')
            X.prove(z3.Implies(none(t), nil(q)), 'childless node')
        each(out, valid)
    else:
        for k in keys:
            n = child(t, k)
            add_index(k)
            for u in (tl(w), E):
                add_index(wit(n, u), ('reported',))
                reported(n, u)
        X.assume(L(t, w))
        X.prove(exists(out, lambda v: mkbool(Mval(v, w))),
                'every word is matched by a reported query')


@unit('C01', ['common.subscription.pysubscription:PySubscription.__init__',
              'common.subscription.pysubscription:PySubscription.matches',
              'common.subscription.pysubscription:'
              'PySubscription.get_query_types',
              'common.subscription:create_subscription'],
      assumes=A + ['C extension of subscriptions is not available'])
def subscription(m):
    if X.bound is not None:
        return small(m)
    c, p = m.load(SUB), m.load(PY)
    pkg = m.load('hat.event.common.subscription')
    qs = queries()
    e = Word(X.fresh('event', I))
    w = e.t
    root = X.fresh('root', I)
    k = X.fresh('k', I)

    def from_(x):
        X.prove(x is qs, 'tree of the given query types')
        return NodeC(c).build([root])

    def to(n):
        n = term(c, n)
        return reported_list(n)

    def match(n, ev, i):
        X.prove(ev is e and cmp('==', i, 0), 'matched from the first segment')
        return mkbool(L(term(c, n), w))
    with Patch(c, node_from_query_types=from_, node_to_query_types=to), \
            Patch(p, _matches=match):
        s = pkg.create_subscription(qs)
        X.prove(isinstance(s, p.PySubscription), 'python subscription')
        X.prove(iff(s.matches(e), mkbool(L(root, w))), 'matches its tree')
        out = libs.vc_list(s.get_query_types())
        reported(root, w, k)
        X.assume(WF(root))
        if X.choose(2, 'direction'):
            def only(v, j):
                X.assume(j == k)
                X.prove(z3.Implies(M(v.t, w), L(root, w)), 'reported only')
            each(out, only)
        else:
            X.assume(L(root, w))
            add_index(wit(root, w), ('reported',))
            X.prove(exists(out, lambda v: mkbool(M(v.t, w))), 'reported all')
