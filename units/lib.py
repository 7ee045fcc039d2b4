"""Shared helpers of proof units."""

import types

import z3

from vf import libs, seqs
from vf.core import (X, Sym, SymVal, SymInt, SymBool, SymOpt, Unsupported, Ctl,
                     eq, not_, and_, or_, iff, implies, cmp, mkbool, mkint,
                     bool_term, int_term, I, B)
from vf.seqs import (fresh, MList, MDict, MSet, SymMap, SymTup, Seg,
                     universal, add_index, IntC, BoolC, OptC, OpC, TupC,
                     UnionC, ConstC, Fun, tsub, subst)

T = z3.BoolVal(True)


class Over:
    """object with some attributes replaced"""

    def __init__(self, base, **kw):
        self.__dict__.update(kw)
        self._base = base

    def __getattr__(self, n):
        if n == '_base':
            raise AttributeError(n)
        return getattr(self._base, n)


class Patch:
    """module or class attributes replaced by contracts"""
    _none = object()

    def __init__(self, mod, **kw):
        self.mod, self.kw = mod, kw

    def __enter__(self):
        self.old = {k: getattr(self.mod, k, self._none) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.mod, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is self._none:
                delattr(self.mod, k)
            else:
                setattr(self.mod, k, v)


def iff_forall(result, sort, body, label):
    """pose: result <=> for all k: body(k)"""
    if result:
        k = X.fresh('k', sort)
        add_index(k)
        X.prove(body(k), label + ' (true)')
    else:
        g = z3.Const(X.name('g'), sort)
        universal(g, T, body(g))
        X.prove(False, label + ' (false)')


def iff_exists(result, sort, body, label):
    iff_forall(not_(result), sort, lambda k: z3.Not(body(k)), label)


class Val:
    """opaque value compared by identity, which may be falsy (0, '', False)"""
    __slots__ = ('_truth',)

    def __init__(self):
        self._truth = X.fresh('truth', B)

    def __bool__(self):
        return X.decide(self._truth)


class Item(Sym):
    """element k of an abstract sequence: attributes are functions of k"""
    __slots__ = ('t', 'kind', 'f')

    def __init__(self, t, kind, f):
        self.t, self.kind, self.f = t, kind, f

    def _subst_(self, pairs):
        return Item(tsub(self.t, pairs), self.kind, self.f)

    def __getattr__(self, n):
        if n.startswith('_') and n not in self.f:
            raise AttributeError(n)
        if n not in self.f:
            raise AttributeError(n)
        return self.f[n](self.t)

    def __getitem__(self, n):
        if '[]' not in self.f:
            raise Unsupported(f'item of abstract {self.kind}')
        return self.f['[]'](self.t, n)

    def _is_(self, o):
        if isinstance(o, Item) and o.kind == self.kind:
            return mkbool(self.t == o.t)
        return False

    def _eq_(self, o):
        if isinstance(o, Item) and o.kind == self.kind:
            return mkbool(self.t == o.t)
        return False

    def __eq__(self, o):
        return self._eq_(o)

    def __ne__(self, o):
        return not_(self._eq_(o))

    __hash__ = Sym.__hash__

    def __bool__(self):
        return True

    def __setattr__(self, n, v):
        if n in ('t', 'kind', 'f'):
            object.__setattr__(self, n, v)
        else:
            raise Unsupported(f'write to abstract {self.kind}.{n}')


class ItemC(seqs.Codec):
    """codec of Item values (referenced by integer)"""

    def __init__(self, kind, f):
        self.kind, self.f = kind, f
        self.sorts = [I]

    def build(self, ts):
        return Item(ts[0], self.kind, self.f)

    def flatten(self, v):
        if isinstance(v, Item) and v.kind == self.kind:
            return [v.t]
        return None

    def facts(self, ts):
        return []


class PairC(seqs.Codec):
    """codec of pairs of Item values as one integer (there is a bijection of
    integers and pairs of integers)"""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.sorts = [I]
        self.P = z3.Function(X.name('pair'), I, I, I)
        self.F = [z3.Function(X.name('pair.') + n, I, I) for n in 'ab']

    def in_space(self, sp):
        c = seqs.in_space(self, sp)
        g = z3.Const(X.name('g'), I)
        universal(g, T, self.P(self.F[0](g), self.F[1](g)) == g, sp)
        return c

    def build(self, ts):
        return (self.a.build([self.F[0](ts[0])]),
                self.b.build([self.F[1](ts[0])]))

    def flatten(self, v):
        if not isinstance(v, tuple) or len(v) != 2:
            return None
        a, b = self.a.flatten(v[0]), self.b.flatten(v[1])
        if a is None or b is None:
            return None
        t = self.P(a[0], b[0])
        X.assume(z3.And(self.F[0](t) == a[0], self.F[1](t) == b[0]))
        return [t]

    def facts(self, ts):
        return []


def items(kind, f, name='items', pytypes=(list,)):
    """sequence of any length of distinct abstract items"""
    if X.bound is not None:
        n = X.choose(X.bound + 1, name)
        r = MList([Item(z3.IntVal(i), kind, f) for i in range(n)], pytypes)
        r.n = z3.IntVal(n)
        for i in range(n):
            add_index(z3.IntVal(i))
        return r
    n = X.fresh(name + '.len', I)
    X.assume(n >= 0)
    g = z3.Const(X.name('g'), I)
    r = MList.of([Seg(g, z3.IntVal(0), n, [(T, Item(g, kind, f))])], pytypes)
    r.parts[0].sp = r.sp = seqs.new_space()
    r.n = n
    return r


def fn(codec, name, *sorts):
    """fixed (not context dependent) function symbols: term -> value"""
    saved, X.gstack = X.gstack, []
    try:
        f = Fun(codec, name, *(sorts or (I,)))
    finally:
        X.gstack = saved

    def call(*ts):
        vs = f.terms(*ts)
        for i in codec.facts(vs):
            X.assume(i)
        return codec.build(vs)
    call.terms = f.terms
    return call


def each(lst, body):
    """run body(value, index term) for one generic emitted value of every
    part of the list (value is emitted on this path)"""
    for p in libs.to_parts(lst):
        if isinstance(p, list):
            if not p:
                continue
            i = X.choose(len(p) + 1, 'item')
            if i < len(p):
                body(p[i], None)
                raise seqs_cut()
        elif isinstance(p, Seg):
            if not X.choose(2, 'part'):
                continue
            j = X.fresh('j', p.g.sort())
            X.assume(p.dom(j))
            add_index(j, p.sp)
            for gd, v in p.at(j):
                if not X.choose(2, 'emit'):
                    continue
                X.assume(gd)
                if isinstance(v, Seg):
                    each(MList.of([v]), body)
                else:
                    body(v, j)
                raise seqs_cut()
        else:
            raise Unsupported('each over opaque list')


def seqs_cut():
    from vf.core import Cut
    return Cut()


def has(lst, v):
    return mkbool(bool_term(seqs.contains(lst, v)))


def exists(lst, pred):
    """some emitted value of lst satisfies pred (forks)"""
    ps = libs.to_parts(lst)
    if any(isinstance(p, seqs.Opaque) for p in ps):
        raise Unsupported('exists over opaque list')
    for p in ps:
        if isinstance(p, list):
            for v in p:
                if X.decide(bool_term(pred(v))):
                    return True
        elif _exists(p, pred):
            return True
    return False


def _exists(p, pred):
    if X.decide(X.fresh('exists', B)):
        k = X.fresh('k', p.g.sort())
        X.assume(p.dom(k))
        add_index(k, p.sp)
        em = p.at(k)
        gd, v = em[X.choose(len(em), 'emit')]
        X.assume(gd)
        if isinstance(v, Seg):
            if not _exists(v, pred):
                raise seqs_cut()
        else:
            X.assume(bool_term(pred(v)))
        return True
    _none(p, pred, [])
    return False


def _none(p, pred, conds):
    """assume: no emission satisfies pred"""
    srt = p.g.sort()

    def inst(k):
        if k.sort() != srt:
            return
        for gd, v in p.at(k):
            cs = [*conds, p.dom(k), gd]
            if isinstance(v, Seg):
                _none(v, pred, cs)
            else:
                X.assume(z3.Implies(z3.And(*cs),
                                    z3.Not(bool_term(pred(v)))))
    seqs.universal_hook(inst, p.sp)


def distinct_pair(lst, body):
    """two values emitted at different positions (no order)"""
    ps = [p for p in libs.to_parts(lst) if not (isinstance(p, list)
                                                and not p)]
    if not ps:
        return
    if len(ps) == 1 and isinstance(ps[0], list):
        p = ps[0]
        for i in range(len(p)):
            for j in range(i):
                body(p[i], p[j])
        return
    a = X.choose(len(ps), 'first')
    b = X.choose(len(ps), 'second')
    if a < b:
        raise seqs_cut()
    i, x = _some(ps[a])
    j, y = _some(ps[b])
    if a == b:
        if i is j is None or i.eq(j):
            raise seqs_cut()
        X.assume(i != j)
        if not isinstance(ps[a], list) and not ps[a].single():
            if len(ps[a].emits) > 1:
                raise Unsupported('pair of list of several items')
    body(x, y)
    raise seqs_cut()


def _some(p):
    if isinstance(p, list):
        i = X.choose(len(p), 'item')
        return z3.IntVal(i), p[i]
    k = X.fresh('i', p.g.sort())
    X.assume(p.dom(k))
    add_index(k, p.sp)
    em = p.at(k)
    gd, v = em[X.choose(len(em), 'emit') if len(em) > 1 else 0]
    if isinstance(v, Seg):
        raise Unsupported('pair of nested lists')
    X.assume(gd)
    return k, v


def same(la, lb, body, label):
    """two lists emit in parallel: for every position, both or neither emits,
    and body(value of la, value of lb) holds for emitted values"""
    pa, pb = _parts(la), _parts(lb)
    if len(pa) != len(pb):
        if all(isinstance(p, list) for p in pa + pb):
            X.prove(False, label + ' (same number of items)')
            return
        raise Unsupported('lists of different shapes')
    if not pa:
        return
    i = X.choose(len(pa), 'part')
    _same(pa[i], pb[i], [], [], body, label)
    raise seqs_cut()


def _parts(x):
    return [p for p in libs.to_parts(x)
            if not (isinstance(p, list) and not p)]


def _same(a, b, ca, cb, body, label):
    if isinstance(a, seqs.Opaque) or isinstance(b, seqs.Opaque):
        raise Unsupported('opaque list')
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)):
            raise Unsupported('lists of different shapes')
        X.prove(len(a) == len(b), label + ' (same number of items)')
        i = X.choose(len(a), 'item')
        if i >= len(b):
            return
        _leaf(a[i], b[i], ca, cb, body, label)
        return
    if a.g.sort() != b.g.sort():
        raise Unsupported('lists of different shapes')
    j = X.fresh('j', a.g.sort())
    add_index(j, a.sp)
    if b.sp != a.sp:
        add_index(j, b.sp)
    ca, cb = [*ca, a.dom(j)], [*cb, b.dom(j)]
    ea, eb = a.at(j), b.at(j)
    if len(ea) != len(eb):
        if len(ea) > 1 and len(eb) == 1:
            return _alts(ea, eb[0], ca, cb, body, label)
        raise Unsupported('lists of different shapes')
    i = X.choose(len(ea), 'emit')
    (ga, va), (gb, vb) = ea[i], eb[i]
    _leaf(va, vb, [*ca, ga], [*cb, gb], body, label)


def _alts(ea, eb, ca, cb, body, label):
    """alternatives of one emission"""
    i = X.choose(len(ea) + 1, 'alternative')
    if i == len(ea):
        gb, vb = eb
        if any(isinstance(v, Seg) for _, v in ea) or isinstance(vb, Seg):
            raise Unsupported('lists of different shapes')
        for k in range(len(ea)):
            for l in range(k):
                X.prove(z3.Implies(z3.And(*ca), z3.Not(
                    z3.And(ea[k][0], ea[l][0]))), label + ' (once)')
        X.prove(z3.And(*ca, z3.Or(*[g for g, _ in ea])) ==
                z3.And(*cb, gb), label + ' (same positions)')
        return
    X.assume(z3.And(*ca, ea[i][0]))
    X.assume(z3.And(*cb, eb[0]))
    body(ea[i][1], eb[1])


def _leaf(va, vb, ca, cb, body, label):
    if isinstance(va, Seg) and isinstance(vb, Seg):
        return _same(va, vb, ca, cb, body, label)
    if isinstance(va, Seg) or isinstance(vb, Seg):
        raise Unsupported('lists of different shapes')
    a, b = z3.And(*ca), z3.And(*cb)
    X.prove(a == b, label + ' (same positions)')
    X.assume(a)
    X.assume(b)
    body(va, vb)


def limit():
    """the handled error is no limit of a model"""
    libs.vc.guard()


class Memo(list):
    """notes of a unit that no contract depends on"""


class WhileRule:
    """Rule for one unbounded while loop given by its contract:
    havoc(name, value) -> value at the start of a round or KEEP;
    init(locals), round(locals, locals after), done(locals)"""

    def __init__(self, havoc, init, before, after, final, ghosts=(),
                 plain=False, poison=False):
        self.f = havoc, init, before, after, final
        self.poison = poison    # other locals are unknown in a round
        self.plain = plain      # rounds share no state
        self.ghosts = ghosts
        self.used = False

    def __call__(self, site, body, get, set_, names):
        havoc, init, before, after, final = self.f
        if self.used:
            return NotImplemented
        bound = {}
        for n in names:
            try:
                v = get(n)
            except NameError:
                continue
            if not isinstance(v, seqs.Poison):
                bound[n] = v
        # containers the body can change in place
        code = getattr(body, '__code__', None)
        if code is not None and body.__closure__:
            for n, cell in zip(code.co_freevars, body.__closure__):
                try:
                    v = cell.cell_contents
                except ValueError:
                    continue
                if n not in bound and isinstance(v, (MList, MDict, MSet)):
                    bound[n] = v
        new = {n: h for n, v in bound.items()
               for h in [havoc(n, v)] if h is not None}
        if not new and not self.plain:
            return NotImplemented
        self.used = True
        X.on_undo(lambda: setattr(self, 'used', False))
        phase = X.choose(3, 'phase')
        if phase == 0:
            init(bound)
            raise seqs_cut()
        start = {n: h() for n, h in new.items()}
        for n, v in start.items():
            if n in names:
                set_(n, v)
        if self.poison:
            for n in names:
                if n not in start:
                    set_(n, seqs.Poison(n))
        before(start)
        lp = seqs.Loop(seqs._stamp())
        for v in [*start.values(), *self.ghosts, *[
                v.lst for v in start.values() if isinstance(v, libs.Gen)]]:
            # object, or attribute of an object
            lp.carried.add((id(v[0]), v[1]) if type(v) is tuple and
                           len(v) == 2 and type(v[1]) is str else id(v))
        seqs._loops.append(lp)
        try:
            r = body(None)
        except Ctl:
            raise
        except BaseException:
            # a round that raises leaves the loop: followed in phase 2
            if phase == 1:
                raise seqs_cut()
            raise
        finally:
            seqs._loops.remove(lp)
        if phase == 1:
            if r is not None:
                raise seqs_cut()
            end = {}
            for n, v in bound.items():
                end[n] = get(n) if n in names else v
                if n not in new and end[n] is not v and \
                        not self.poison:
                    raise Unsupported(f'while loop changes {n}')
            after(start, end)
            raise seqs_cut()
        if r is None:
            raise seqs_cut()
        final(start)
        return None if r[0] == 'stop' else r


class ForRule:
    """Rule for one for loop over a sequence of any length, given by its
    contract: over(src) says whether it is the loop; init() poses the
    invariant at the start; before(start, value, index) assumes it for a
    generic round, after(start, end, value, index) poses it after the round;
    final(start) assumes what holds when the loop is over, left(start, value,
    index) is called when a round leaves it.  Locals not given by havoc are unknown
    at the start of a round and after the loop."""

    def __init__(self, over, init, before, after, final, havoc=None,
                 ghosts=(), left=None, inplace=None, yields=None,
                 anyorder=False):
        self.over = over
        # items in any order (the contract does not depend on it)
        self.anyorder = anyorder
        self.left = left
        # inplace(name, object): object of an enclosing scope changed in
        # place by rounds (its state is set by before and final);
        # yields(start) -> parts given by the loop (generators)
        self.inplace = inplace or (lambda n, v: False)
        self.yields = yields
        self.obj = {}
        self.out = None
        self.f = init, before, after, final
        self.havoc = havoc or (lambda n, v: None)
        self.ghosts = ghosts
        self.used = False

    def __call__(self, site, src, body, get, set_, names):
        if self.used:
            return NotImplemented
        if not self.over(src):
            return NotImplemented
        if self.anyorder and isinstance(src, MSet) and src.base is None \
                and src.segs and not src.log:
            ps = src.segs       # items of all parts
        else:
            ps = [p for p in libs.to_parts(src)
                  if not (isinstance(p, list) and not p)]
        if self.anyorder:
            if not ps or any(isinstance(p, seqs.Opaque) for p in ps):
                return NotImplemented
        elif len(ps) != 1 or not isinstance(ps[0], Seg) or \
                not ps[0].ordered or ps[0].hi is None:
            return NotImplemented
        init, before, after, final = self.f
        self.used = True
        X.on_undo(lambda: setattr(self, 'used', False))
        bound = {}
        for n in names:
            try:
                v = get(n)
            except NameError:
                continue
            if not isinstance(v, seqs.Poison):
                bound[n] = v
        code = getattr(body, '__code__', None)
        self.obj, self.out, mine = {}, None, []
        if code is not None and body.__closure__:
            for n, cell in zip(code.co_freevars, body.__closure__):
                try:
                    v = cell.cell_contents
                except ValueError:
                    continue
                if isinstance(v, libs.Gen) and n not in names:
                    self.out = v.lst
                elif not isinstance(v, seqs.Poison) and self.inplace(n, v):
                    self.obj[n] = v
                    mine.append(v)
        phase = X.choose(4, 'phase')
        self.bound = bound
        if phase == 0:
            init()
            raise seqs_cut()
        if self.out is not None:
            out = self.out
            X.on_undo(lambda p=out.parts: setattr(out, 'parts', p))
            pre = out.parts
            out.parts = []
            mine.append(out)
        new = {n: h for n, v in bound.items()
               for h in [self.havoc(n, v)] if h is not None}
        start = {n: h() for n, h in new.items()}
        for n in names:
            set_(n, start[n] if n in start else seqs.Poison(n))
        if phase == 3:
            final(start)
            if self.out is not None:
                self.out.parts = [*pre, *(
                    self.yields(start) if self.yields else
                    [seqs.Opaque(X.fresh('n', I))])]
            return None
        seg = ps[X.choose(len(ps), 'part') if len(ps) > 1 else 0]
        if isinstance(seg, list):
            k = X.choose(len(seg), 'item')
            v = seg[k]
        else:
            k = X.fresh('k', seg.g.sort())
            X.assume(seg.dom(k))
            add_index(k, seg.sp)
            em = seg.at(k)
            gd, v = em[X.choose(len(em), 'emit') if len(em) > 1 else 0]
            if isinstance(v, Seg):
                raise Unsupported('rule of a loop over nested lists')
            X.assume(gd)
        before(start, v, k)
        lp = seqs.Loop(seqs._stamp())
        for i in [*start.values(), *self.ghosts, *mine]:
            if isinstance(i, libs.CountModel):
                i = i, 'start'
            lp.carried.add((id(i[0]), i[1]) if type(i) is tuple and
                           len(i) == 2 and type(i[1]) is str else id(i))
        seqs._loops.append(lp)
        try:
            r = body(v)
        except Ctl:
            raise
        except BaseException:
            if phase == 1:
                raise seqs_cut()
            raise
        finally:
            seqs._loops.remove(lp)
        if phase == 1:
            if r is not None:
                raise seqs_cut()
            after(start, {n: get(n) for n in start}, v, k)
            raise seqs_cut()
        if r is None:
            raise seqs_cut()
        if self.out is not None:
            self.out.parts = [*pre, seqs.Opaque(X.fresh('n', I))]
        if self.left is None:
            X.prove(False, 'all items are processed')
        else:
            self.left(start, v, k)
        return None if r[0] == 'stop' else r


class Rules:
    """contract rules of while loops, in the order loops are reached"""

    def __init__(self, *rules):
        self.rules = rules

    def __call__(self, *a):
        for r in self.rules:
            if not r.used:
                return r(*a)
        return NotImplemented


def same_items(a, b, label):
    """b has the items of a in order"""
    if a is b:
        return
    n, k = libs.vc_len(a), libs.vc_len(b)
    if X.choose(2, 'length'):
        X.prove(eq(n, k), label + ' (number)')
        return
    i = X.fresh('i', I)
    X.assume(z3.And(i >= 0, i < int_term(n)))
    X.assume(bool_term(eq(n, k)))
    add_index(i)
    X.prove(eq(a[mkint(i)], b[mkint(i)]), label)


def run_of(lst, total, check, label):
    """list has `total` items, and check(item, position) holds of every one;
    lists of any shape whose segments can be enumerated"""
    off = z3.IntVal(0)
    parts = []
    for p in libs.to_parts(lst):
        if isinstance(p, list):
            parts.append((off, p, len(p)))
            off = off + len(p)
        elif isinstance(p, Seg):
            if not p.single():
                p = seqs.compact(p)
            n = z3.If(p.hi > p.lo, p.hi - p.lo, z3.IntVal(0))
            parts.append((off, p, n))
            off = off + n
        else:
            raise Unsupported('opaque list')
    k = X.choose(len(parts) + 1, 'part')
    if k == len(parts):
        X.prove(z3.simplify(off) == int_term(total), label + ' (number)')
        return
    off, p, n = parts[k]
    if isinstance(p, list):
        for i, v in enumerate(p):
            check(v, off + i)
    else:
        j = X.fresh('j', I)
        X.assume(z3.And(j >= 0, j < n))
        add_index(p.lo + j, p.sp)
        check(p.item(z3.simplify(p.lo + j)), off + j)
    raise seqs_cut()


def pick(seg, k):
    """item k of a segment that gives one item of some kind per index"""
    em = seg.at(k)
    for gd, v in em[:-1]:
        if X.decide(gd):
            return v
    X.assume(em[-1][0])
    return em[-1][1]


class Records:
    """Contract of a while loop that decodes a run of records: at the start
    of a round the bytes left are the records k.., and the output has the
    items 0..k-1; the round takes one record and gives its item."""

    def __init__(self, seg, label):
        self.seg, self.label = seg, label
        self.done = False

    def rule(self):
        return WhileRule(self.havoc, self.init, self.before, self.after,
                         self.final, poison=True)

    @staticmethod
    def is_rest(v):
        from vf.bytesm import SymBytes, RecSeq
        return isinstance(v, SymBytes) and len(v.chunks) == 1 and isinstance(
            v.chunks[0], RecSeq)

    def sub(self):
        g = z3.Const(X.name('g'), I)
        s = Seg(g, z3.IntVal(0), self.k, self.seg.at(g))
        s.sp = self.seg.sp
        return s

    def havoc(self, name, v):
        from vf.bytesm import SymBytes, RecSeq
        if self.is_rest(v):
            def rest():
                c = self.chunk = v.chunks[0]
                return SymBytes([RecSeq(c.rec, self.k, c.hi)])
            self.k = X.fresh('k', I)
            return rest
        if isinstance(v, MList):
            def out():
                v._touch()
                v.parts = [self.sub()]
                self.out = v
                return v
            return out
        if isinstance(v, MSet):
            def out():
                v._touch()
                v.base, v.log, v.segs = None, [], [self.sub()]
                self.out = v
                return v
            return out
        return None

    def init(self, ls):
        rest = [v.chunks[0] for v in ls.values() if self.is_rest(v)]
        out = [v for v in ls.values() if isinstance(v, (MList, MSet))]
        if len(rest) != 1 or len(out) != 1:
            raise Unsupported('loop over records')
        X.prove(z3.And(rest[0].lo == 0, rest[0].hi == z3.If(
            self.seg.hi > 0, self.seg.hi, z3.IntVal(0))),
            self.label + ': all records')
        X.prove(eq(libs.vc_len(out[0]), 0), self.label + ': nothing is read')

    def before(self, start):
        if not any(self.is_rest(v) for v in start.values()):
            raise Unsupported('loop over records')
        X.assume(z3.And(self.k >= 0, self.k <= self.chunk.hi))
        add_index(self.k, self.seg.sp)

    def after(self, start, end):
        from vf.bytesm import SymBytes, RecSeq
        n, = [n for n, v in start.items() if self.is_rest(v)]
        v = end[n]
        if not self.is_rest(v):
            if isinstance(v, SymBytes):
                X.prove(False, self.label + ': the next record is left')
                return
            raise Unsupported('rest of the records')
        c = v.chunks[0]
        if c.rec is not self.chunk.rec:
            raise Unsupported('rest of other records')
        X.prove(z3.And(c.lo == self.k + 1, c.hi == self.chunk.hi),
                self.label + ': one record is taken')
        o = self.out
        if isinstance(o, MList):
            new = [x for p in o.parts[1:] for x in (
                p if isinstance(p, list) else [p])]
        else:
            new = [x for x, p in o.log if p]
            if len(new) != len(o.log) or len(o.segs) != 1:
                raise Unsupported('records')
        X.prove(len(new) == 1, self.label + ': one item')
        want = pick(self.seg, self.k)
        X.prove(eq(new[0], want), self.label + ': item of the record')

    def final(self, start):
        self.done = True
