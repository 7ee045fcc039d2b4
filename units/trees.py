"""Contracts of subscription trees and query words (C01, C02, C03).

A word (event type or query type suffix) is a term; a tree node is a term
with leaf flag, key domain and children.  L(node, word) is the language of a
node, M(query, word) the documented matching rule; both are defined by
unfolding (well founded: words get shorter)."""

import z3

from vf import libs, seqs
from units.lib import *     # noqa
from vf.syms import StrC

SUB = 'hat.event.common.subscription.common'
PY = 'hat.event.common.subscription.pysubscription'


def _f(n, *s):
    return z3.Function('tree.' + n, *s)


nil = _f('nil', I, B)
hd = _f('hd', I, I)
tl = _f('tl', I, I)
suf = _f('suf', I, I, I)
wlen = _f('len', I, I)
el = _f('el', I, I, I)
cons = _f('cons', I, I, I)
M = _f('M', I, I, B)
L = _f('L', I, I, B)
leaf = _f('leaf', I, B)
dom = _f('dom', I, I, B)
child = _f('child', I, I, I)
WF = _f('WF', I, B)
none = _f('none', I, B)


def STAR():
    return StrC.flatten('*')[0]


def QM():
    return StrC.flatten('?')[0]


class Word(SymTup):
    """word: suffix of sequence s from offset off"""

    def __init__(self, s, off=0, query=False):
        self.s = s
        self.off = off = z3.simplify(z3.IntVal(off) if isinstance(off, int)
                                     else off)
        self.query = query
        n = wlen(s) - off
        super().__init__(z3.simplify(n), self._el)
        z = z3.is_int_value(off) and off.as_long() == 0
        self.t = s if z else suf(s, off)
        X.assume(wlen(s) >= 0)
        word_facts(self.t, s, off, query)

    def _el(self, i):
        return StrC.build([el(self.s, z3.simplify(self.off + i))])

    on_seg = None       # called when a word is iterated

    def seg(self):
        p = SymTup.seg(self)
        if self.on_seg:
            type(self).on_seg(self, p)
        return p

    def __getitem__(self, i):
        if isinstance(i, slice) and i.stop is None and i.step is None:
            lo, _ = seqs.slice_bounds(i, self.n)
            return Word(self.s, self.off + lo, self.query)
        return SymTup.__getitem__(self, i)

    def _prepend_(self, items):
        r = self
        for h in reversed(items):
            r = cons_word(StrC.flatten(h)[0], r)
        return r

    def _subst_(self, pairs):
        w = Word.__new__(Word)
        SymTup.__init__(w, tsub(self.n, pairs), w._el)
        w.s, w.off = tsub(self.s, pairs), tsub(self.off, pairs)
        w.query, w.t = self.query, tsub(self.t, pairs)
        return w


def word_facts(t, s, off, query):
    n = wlen(s) - off
    X.assume(nil(t) == (n <= 0))
    X.assume(z3.Implies(n > 0, z3.And(
        hd(t) == el(s, off), tl(t) == suf(s, off + 1))))
    X.assume(z3.Implies(n <= 0, nil(t)))
    if query:
        # '*' only in last place
        X.assume(z3.Implies(z3.And(n > 0, hd(t) == STAR()), n == 1))
        X.assume(nil(suf(s, off + 1)) == (n <= 1))
    else:
        # event segments are not wildcards
        X.assume(z3.Implies(n > 0, z3.And(hd(t) != STAR(), hd(t) != QM())))


def cons_facts(h, r):
    t = cons(h, r)
    X.assume(z3.And(z3.Not(nil(t)), hd(t) == h, tl(t) == r,
                    wlen(t) == wlen(r) + 1, wlen(r) >= 0,
                    el(t, 0) == h, suf(t, 1) == r))
    return t


def cons_word(h, rest):
    t = cons_facts(h, rest.t)
    w = Word.__new__(Word)
    w.s, w.off, w.query, w.t = t, z3.IntVal(0), rest.query, t
    SymTup.__init__(w, wlen(t), w._el)
    return w


def event_word(w):
    """facts of an arbitrary event word term"""
    X.assume(z3.Implies(z3.Not(nil(w)), z3.And(hd(w) != STAR(),
                                               hd(w) != QM())))


def mdef(q, w):
    """one unfolding of the matching rule"""
    return z3.If(qn(q), nil(w), z3.If(
        hd(q) == STAR(), T, z3.And(
            z3.Not(nil(w)), z3.Or(hd(q) == QM(), hd(q) == hd(w)),
            M(tl(q), tl(w)))))


def qn(q):
    return nil(q)


def unfold_M(q, w):
    X.assume(M(q, w) == mdef(q, w))


def Mval(v, w):
    """matching of a query value (word or tuple)"""
    if isinstance(v, Word):
        d = v.t.decl()
        if d.eq(cons):
            cons_facts(*v.t.children())
        unfold_M(v.t, w)
        return M(v.t, w)
    if isinstance(v, (tuple, MList)):
        v = list(v)
        if not v:
            return nil(w)
        h = StrC.flatten(v[0])[0]
        return z3.If(h == STAR(), T, z3.And(
            z3.Not(nil(w)), z3.Or(h == QM(), h == hd(w)),
            Mval(tuple(v[1:]), tl(w))))
    raise Unsupported('query value')


class NodeC(seqs.Codec):
    sorts = (I,)

    def __init__(self, c):
        self.c = c

    def build(self, ts):
        t = ts[0]
        d = MDict(base=SymMap(StrC, self, lambda k: dom(t, k),
                              lambda k: [child(t, k)]))
        d.origin = (t, d.base)
        return self.c.Node(mkbool(leaf(t)), d)

    def flatten(self, v):
        if isinstance(v, SymOpt):
            v = v.force()
        if not isinstance(v, tuple) or len(v) != 2 or \
                not isinstance(v[1], MDict):
            return None
        lf, d = v
        o = getattr(d, 'origin', None)
        if o and o[1] is d.base and not d.log and (
                lf is True or lf is False) is False and \
                isinstance(lf, SymBool) and lf.t.eq(leaf(o[0])):
            return [o[0]]
        key = (id(d.base), tuple((id(a), id(b)) for a, b in d.log),
               str(lf))
        c = getattr(d, '_term', None)
        if c and c[0] == key:
            return [c[1]]
        t = X.fresh('node', I)
        d._term = (key, t, d.base, list(d.log))
        X.assume(leaf(t) == bool_term(lf))
        dd = snap(d)

        def inst(k):
            if k.sort() != I:
                return
            p, c, _ = dict_at(dd, self, k)
            X.assume(dom(t, k) == p)
            X.assume(z3.Implies(p, child(t, k) == c))
        inst(STAR())
        inst(QM())
        seqs.universal_hook(inst, 'seg')
        if d.base is None and not d.log:
            X.assume(z3.And(none(t), WF(t)))
        return [t]


def snap(d):
    r = MDict(base=d.base)
    r.log = list(d.log)
    return r


class _Spec:
    def __init__(self, c):
        self.kcodec, self.vcodec = StrC, NodeC(c)


def dict_at(d, codec, k):
    """(present, child term, -) of key term k"""
    if d.base is None:
        d.cur_spec = _Spec(codec.c)
    p, c, l = d.at_terms(k)
    return p, c[0], l


def lang(c, node, w):
    """language of a node value at word term w (unfolded once)"""
    nc = NodeC(c)
    lf, d = node
    ps, _, _ = dict_at(d, nc, STAR())
    pq, cq, _ = dict_at(d, nc, QM())
    ph, ch, _ = dict_at(d, nc, hd(w))
    return z3.Or(ps, z3.If(nil(w), bool_term(lf), z3.Or(
        z3.And(ph, L(ch, tl(w))), z3.And(pq, L(cq, tl(w))))))


def ldef(t, w):
    return z3.Or(dom(t, STAR()), z3.If(nil(w), leaf(t), z3.Or(
        z3.And(dom(t, hd(w)), L(child(t, hd(w)), tl(w))),
        z3.And(dom(t, QM()), L(child(t, QM()), tl(w))))))


def unfold_L(t, w):
    X.assume(L(t, w) == ldef(t, w))


def wf_at(t, k):
    """well-formedness of node t seen at key k"""
    return z3.Implies(dom(t, k), z3.And(
        WF(child(t, k)), z3.Implies(k == STAR(), z3.And(leaf(child(t, k)),
                                          none(child(t, k))))))


def sym_node(c, name='node'):
    return NodeC(c).build([X.fresh(name, I)])


def term(c, node):
    if isinstance(node, seqs.Poison):
        node._p()
    return NodeC(c).flatten(node)[0]



def none_key(t):
    """node has no children"""
    return none(t)


def none_at(t, k):
    X.assume(z3.Implies(none(t), z3.Not(dom(t, k))))


N = _f('N', I, I)
QT = _f('QT', I, I, I)
wit = _f('wit', I, I, I)
V = _f('V', I, B)


def vdef(q):
    """valid query: '*' only in last place"""
    return z3.Or(nil(q), z3.If(hd(q) == STAR(), nil(tl(q)), V(tl(q))))


def reported(n, u, k=None):
    """contract of node_to_query_types(n) at word u (and index k)"""
    X.assume(N(n) >= 0)
    X.assume(z3.Implies(z3.And(WF(n), L(n, u)), z3.And(
        wit(n, u) >= 0, wit(n, u) < N(n), M(QT(n, wit(n, u)), u))))
    for k in [wit(n, u)] + ([] if k is None else [k]):
        X.assume(z3.Implies(z3.And(WF(n), k >= 0, k < N(n)), z3.And(
            V(QT(n, k)), z3.Implies(none(n), nil(QT(n, k))),
            z3.Implies(M(QT(n, k), u), L(n, u)))))


def reported_list(n):
    g = z3.Const(X.name('g'), I)
    X.assume(N(n) >= 0)
    p = Seg(g, z3.IntVal(0), N(n), [(T, Word(QT(n, g), query=True))])
    p.sp = ('reported',)
    return libs.Gen(MList.of([p]))
