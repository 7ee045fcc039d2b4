"""Engine containers: lists as sequences of parts, dicts, sets, tuples of
symbolic length, and the loop rule."""

import copy
import sys
import types

import z3

from .core import (X, Ctl, ForkSeen, Infeasible, Cut, Unsupported, NeedCarry, Explorer,
                   Sym, SymBool, SymInt, SymReal, SymVal, SymOpt, I, B,
                   bool_term, int_term, mkbool, mkint, not_, and_, or_,
                   eq, lt, cmp, contains, lift, code, symbolic, implies)


# ------------------------------------------------------------ substitution

def subst(v, pairs):
    """Substitute z3 terms inside a python structure"""
    if not pairs:
        return v
    if isinstance(v, SymBool):
        return mkbool(z3.substitute(v.t, *pairs))
    if isinstance(v, SymInt):
        return mkint(z3.substitute(v.t, *pairs))
    if isinstance(v, SymReal):
        return SymReal(z3.substitute(v.t, *pairs))
    if isinstance(v, SymVal):
        return type(v)._make(v, z3.substitute(v.t, *pairs)) \
            if hasattr(type(v), '_make') else SymVal(
                z3.substitute(v.t, *pairs), v.kind, v.pytype, v.extra)
    if isinstance(v, SymOpt):
        return SymOpt(z3.substitute(v.isnone, *pairs),
                      lambda: subst(v.mk(), pairs))
    if isinstance(v, tuple):
        items = [subst(i, pairs) for i in v]
        if type(v) is tuple:
            return tuple(items)
        return type(v)(*items)
    f = getattr(v, '_subst_', None)
    if f:
        return f(pairs)
    return v


def tsub(t, pairs):
    return z3.substitute(t, *pairs) if pairs else t


# ---------------------------------------------------------------- codecs

class Codec:
    """How a value is represented by a tuple of z3 terms"""
    sorts = ()

    def build(self, ts):
        raise NotImplementedError

    def flatten(self, v):
        """terms or None when v is not of this codec"""
        raise NotImplementedError

    def facts(self, ts):
        return []


class IntC(Codec):
    sorts = (I,)

    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def build(self, ts):
        return mkint(ts[0])

    def flatten(self, v):
        if isinstance(v, SymOpt):
            v = v.force()
        if isinstance(v, (SymInt, int)) and not isinstance(v, bool):
            return [int_term(v)]

    def facts(self, ts):
        r = []
        if self.lo is not None:
            r.append(ts[0] >= self.lo)
        if self.hi is not None:
            r.append(ts[0] < self.hi)
        return r


class BoolC(Codec):
    sorts = (B,)

    def build(self, ts):
        return mkbool(ts[0])

    def flatten(self, v):
        if isinstance(v, (SymBool, bool)):
            return [bool_term(v)]


class OpC(Codec):
    """Opaque kind"""
    sorts = (I,)

    def __init__(self, kind, pytype=object, extra=None):
        self.kind, self.pytype, self.extra = kind, pytype, extra

    def build(self, ts):
        return SymVal(ts[0], self.kind, self.pytype, self.extra)

    def flatten(self, v):
        t = lift(v, self.kind)
        return None if t is None else [t]


class ConstC(Codec):
    """A single python value"""

    def __init__(self, v):
        self.v = v

    def build(self, ts):
        return self.v

    def flatten(self, v):
        return [] if v is self.v else None


class TupC(Codec):
    def __init__(self, cls, *codecs):
        self.cls, self.codecs = cls, codecs
        self.sorts = tuple(s for c in codecs for s in c.sorts)

    def build(self, ts):
        vals, i = [], 0
        for c in self.codecs:
            n = len(c.sorts)
            vals.append(c.build(ts[i:i + n]))
            i += n
        return tuple(vals) if self.cls is tuple else self.cls(*vals)

    def flatten(self, v):
        if isinstance(v, SymOpt):
            v = v.force()
        if not isinstance(v, tuple) or len(v) != len(self.codecs):
            return None
        out = []
        for c, x in zip(self.codecs, v):
            f = c.flatten(x)
            if f is None:
                return None
            out.extend(f)
        return out

    def facts(self, ts):
        r, i = [], 0
        for c in self.codecs:
            n = len(c.sorts)
            r.extend(c.facts(ts[i:i + n]))
            i += n
        return r


class OptC(Codec):
    def __init__(self, c):
        self.c = c
        self.sorts = (B, *c.sorts)

    def build(self, ts):
        s = z3.simplify(ts[0])
        if z3.is_true(s):
            return None
        if z3.is_false(s):
            return self.c.build(ts[1:])
        return SymOpt(ts[0], lambda: self.c.build(ts[1:]))

    def flatten(self, v):
        if v is None:
            return [z3.BoolVal(True),
                    *[default_term(s) for s in self.c.sorts]]
        if isinstance(v, SymOpt):
            f = self.c.flatten(v.value())
            if f is None:
                return None
            return [v.isnone, *f]
        f = self.c.flatten(v)
        return None if f is None else [z3.BoolVal(False), *f]

    def facts(self, ts):
        return [z3.Implies(z3.Not(ts[0]), f) for f in self.c.facts(ts[1:])]


class UnionC(Codec):
    """Tagged union of codecs"""

    def __init__(self, *codecs):
        self.codecs = codecs
        self.sorts = (I, *(s for c in codecs for s in c.sorts))

    def spans(self):
        i = 1
        spans = []
        for c in self.codecs:
            spans.append((i, i + len(c.sorts)))
            i += len(c.sorts)
        return spans

    def alternatives(self, ts):
        """guarded values"""
        return [(ts[0] == k, c.build(ts[a:b])) for k, (c, (a, b)) in
                enumerate(zip(self.codecs, self.spans()))]

    def build(self, ts):
        spans = self.spans()
        for k, (a, b) in enumerate(spans[:-1]):
            if X.decide(ts[0] == k):
                return self.codecs[k].build(ts[a:b])
        a, b = spans[-1]
        return self.codecs[-1].build(ts[a:b])

    def flatten(self, v):
        if isinstance(v, SymOpt):
            v = v.force()
        for k, c in enumerate(self.codecs):
            f = c.flatten(v)
            if f is not None:
                out = [z3.IntVal(k)]
                for j, d in enumerate(self.codecs):
                    out.extend(f if j == k else
                               [default_term(s) for s in d.sorts])
                return out

    def facts(self, ts):
        r = [ts[0] >= 0, ts[0] < len(self.codecs)]
        i = 1
        for k, c in enumerate(self.codecs):
            n = len(c.sorts)
            r.extend(z3.Implies(ts[0] == k, f) for f in c.facts(ts[i:i + n]))
            i += n
        return r


def in_space(codec, sp):
    """codec whose terms are index terms of a space"""
    c = copy.copy(codec)
    c.sp = sp
    return c


def default_term(s):
    if s == B:
        return z3.BoolVal(False)
    if s == I:
        return z3.IntVal(0)
    return z3.Const(f'default_{s}', s)


def fresh(codec, name='v'):
    ts = [X.fresh(f'{name}.{i}', s) for i, s in enumerate(codec.sorts)]
    for f in codec.facts(ts):
        X.assume(f)
    return codec.build(ts)


class Fun:
    """Codec-valued function of index terms"""

    def __init__(self, codec, name, *arg_sorts):
        self.codec = codec
        n = X.name(name)
        gs = list(X.gstack)
        self.gs = gs
        self.fs = [z3.Function(f'{n}.{i}', *[g.sort() for g in gs],
                               *arg_sorts, s)
                   for i, s in enumerate(codec.sorts)]

    def terms(self, *args):
        return [f(*self.gs, *args) for f in self.fs]

    def __call__(self, *args):
        return self.codec.build(self.terms(*args))


def infer_codec(v, old=None):
    """Codec able to represent value v (and everything old represents)"""
    if old is not None and old.flatten(v) is not None:
        return old
    if v is None:
        if old is None:
            return OptC(None) if False else ConstC(None)
        return OptC(old)
    if isinstance(old, ConstC) and old.v is None:
        return OptC(infer_codec(v))
    if isinstance(old, OptC):
        return OptC(infer_codec(v, old.c))
    if isinstance(v, (bool, SymBool)):
        c = BoolC()
    elif isinstance(v, (int, SymInt)):
        c = IntC()
    elif isinstance(v, SymOpt):
        return OptC(infer_codec(v.value(), None))
    elif isinstance(v, SymVal):
        c = OpC(v.kind, v.pytype, v.extra)
    elif isinstance(v, str):
        c = OpC('Str', str)
    elif isinstance(v, tuple):
        c = TupC(type(v), *[infer_codec(i) for i in v])
    elif hasattr(v, '_codec_'):
        c = v._codec_()
    else:
        raise Unsupported(f'no codec for carried value {v!r:.80}')
    if old is not None:
        raise Unsupported('carried value changes kind')
    return c


# --------------------------------------------------------------- segments

class Seg:
    """Generic part of a list: for index g in [lo, hi) (or unordered: for all
    g with dom(g)) the values of `emits` whose guard holds, in order."""

    def __init__(self, g, lo, hi, emits, dom=None, ordered=True, space=None):
        self.g = g                  # z3 const used as template index
        self.lo, self.hi = lo, hi   # z3 terms (hi None: unbounded)
        self.emits = emits          # [(guard term, value)] value may be Seg
        self._dom = dom
        self.ordered = ordered
        self.space = space
        self.alts = False       # guards are exclusive and exhaustive
        self.sp = None          # index space (limits instantiation)

    def clone(self, lo=None, hi=None, emits=None):
        r = Seg(self.g, self.lo if lo is None else lo,
                self.hi if hi is None else hi,
                self.emits if emits is None else emits, self._dom,
                self.ordered, self.space)
        r.alts = self.alts if emits is None else False
        r.sp = self.sp
        return r

    def single(self):
        """exactly one (non nested) item per index"""
        return self.simple() or (self.alts and not any(
            isinstance(v, Seg) for _, v in self.emits))

    def item(self, k):
        """The item at index k of a single() segment (may fork)"""
        em = self.at(k)
        add_index(k, self.sp)
        for gd, v in em[:-1]:
            if X.decide(gd):
                return v
        X.assume(em[-1][0])
        return em[-1][1]

    def dom(self, k):
        if self._dom is not None:
            return tsub(self._dom, [(self.g, k)])
        c = [k >= self.lo]
        if self.hi is not None:
            c.append(k < self.hi)
        return z3.And(*c)

    def at(self, k):
        """Emissions at index k"""
        p = [(self.g, k)]
        return [(tsub(gd, p), subst(v, p)) for gd, v in self.emits]

    def _subst_(self, pairs):
        g2 = z3.Const(X.name('g'), self.g.sort())
        p = [*pairs, (self.g, g2)]
        r = Seg(g2, tsub(self.lo, pairs) if self.lo is not None else None,
                   tsub(self.hi, pairs) if self.hi is not None else None,
                   [(tsub(gd, p), subst(v, p)) for gd, v in self.emits],
                   tsub(self._dom, p) if self._dom is not None else None,
                   self.ordered, self.space)
        r.alts = self.alts
        r.sp = self.sp
        return r

    def simple(self):
        return (len(self.emits) == 1 and z3.is_true(self.emits[0][0]) and
                not isinstance(self.emits[0][1], Seg))

    def __repr__(self):
        return f'Seg[{self.lo},{self.hi}) {len(self.emits)} emits'


class Opaque:
    """Unknown list contents of known length (earlier loop iterations)"""

    def __init__(self, n):
        self.n = n


class MList:
    """list / deque model: parts are python lists (concrete items), Seg or
    Opaque"""

    pytypes = (list,)

    def __init__(self, items=(), pytypes=(list,)):
        self.parts = []
        items = list(items)
        if items:
            self.parts.append(items)
        self.pytypes = pytypes
        self.birth = _stamp()
        self.codec = None

    # -- construction

    @classmethod
    def of(cls, parts, pytypes=(list,)):
        r = cls(pytypes=pytypes)
        r.parts = [p for p in parts if not (isinstance(p, list) and not p)]
        return r

    def _touch(self):
        touch(self)
        old = self.parts
        X.on_undo(lambda: setattr(self, 'parts', old), self.birth)
        self.parts = [list(p) if isinstance(p, list) else p for p in old]

    # -- carry protocol

    def _havoc(self, g, lo, st):
        if st.get('len') is None:
            n0 = len_term(self)
            f = z3.Function(X.name('len'), *[x.sort() for x in X.gstack[:-1]],
                            I, I)
            st['len'] = lambda k: f(*X_g(st), k)
            st['gs'] = list(X.gstack[:-1])
            st['n0'] = n0
        old = self.parts
        X.on_undo(lambda: setattr(self, 'parts', old))
        n = st['len'](g)
        X.assume(n >= 0)
        self.parts = [Opaque(n)]

    # -- queries

    def concrete(self):
        return all(isinstance(p, list) for p in self.parts)

    def items(self):
        if not self.concrete():
            raise Unsupported('list of symbolic contents used natively')
        return [i for p in self.parts for i in p]

    def __len__(self):
        if self.concrete():
            return sum(len(p) for p in self.parts)
        raise Unsupported('native len of symbolic list')

    def __bool__(self):
        if any(isinstance(p, list) and p for p in self.parts):
            return True
        if not self.parts:
            return False
        if any(isinstance(p, Seg) and not p.ordered for p in self.parts):
            for p in self.parts:
                if isinstance(p, Opaque):
                    if X.decide(p.n > 0):
                        return True
                elif isinstance(p, Seg) and some_emission(p):
                    return True
            return False
        return X.decide(len_term(self) > 0)

    def __iter__(self):
        return iter(self.items())

    def append(self, v):
        self._touch()
        if not self.parts or not isinstance(self.parts[-1], list):
            self.parts.append([])
        self.parts[-1].append(v)

    def appendleft(self, v):
        self._touch()
        self.parts.insert(0, [v])

    def extend(self, other):
        other = to_parts(other)
        self._touch()
        for p in other:
            if isinstance(p, list):
                if not self.parts or not isinstance(self.parts[-1], list):
                    self.parts.append([])
                self.parts[-1].extend(p)
            else:
                self.parts.append(p)

    def _drop_empty(self):
        self.parts = [p for p in self.parts
                      if not (isinstance(p, list) and not p)]

    def popleft(self):
        self._touch()
        self._drop_empty()
        if not self.parts:
            raise IndexError('pop from an empty deque')
        p = self.parts[0]
        if isinstance(p, list):
            return p.pop(0)
        if isinstance(p, Seg) and p.single() and p.ordered:
            if not X.decide(p.lo < p.hi):
                self.parts.pop(0)
                return self.popleft()
            v = p.item(p.lo)
            self.parts[0] = p.clone(lo=z3.simplify(p.lo + 1))
            return v
        raise Unsupported('popleft of symbolic list')

    def pop(self, i=-1):
        self._touch()
        self._drop_empty()
        if not self.parts:
            raise IndexError('pop from empty list')
        if i == 0:
            return self.popleft()
        if i != -1:
            raise Unsupported('pop index')
        p = self.parts[-1]
        if isinstance(p, list):
            return p.pop()
        if isinstance(p, Seg) and p.single() and p.ordered:
            if not X.decide(p.lo < p.hi):
                self.parts.pop()
                return self.pop()
            v = p.item(z3.simplify(p.hi - 1))
            self.parts[-1] = p.clone(hi=z3.simplify(p.hi - 1))
            return v
        raise Unsupported('pop of symbolic list')

    def clear(self):
        self._touch()
        self.parts = []

    def insert(self, i, v):
        items = self.items()
        items.insert(i, v)
        self._touch()
        self.parts = [items]

    def remove(self, v):
        items = self.items()
        for k, x in enumerate(items):
            if cmp('==', x, v):
                del items[k]
                self._touch()
                self.parts = [items]
                return
        raise ValueError('list.remove(x): x not in list')

    def copy(self):
        return MList.of([list(p) if isinstance(p, list) else p
                         for p in self.parts], self.pytypes)

    def reverse(self):
        items = self.items()[::-1]
        self._touch()
        self.parts = [items]

    def sort(self, key=None, reverse=False):
        from . import libs
        r = libs.vc_sorted(self, key=key, reverse=reverse)
        self._touch()
        self.parts = r.parts

    def index(self, v):
        for k, x in enumerate(self.items()):
            if cmp('==', x, v):
                return k
        raise ValueError()

    def count(self, v):
        return sum(1 for x in self.items() if cmp('==', x, v))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        if isinstance(i, (int, SymInt)) and len(self.parts) == 1 and \
                isinstance(self.parts[0], Seg) and self.parts[0].single() \
                and self.parts[0].ordered:
            p = self.parts[0]
            n = p.hi - p.lo
            t = int_term(i)
            if X.decide(t < 0):
                t = t + n
            if not X.decide(z3.And(t >= 0, t < n)):
                raise IndexError('list index out of range')
            return p.item(z3.simplify(p.lo + t))
        if isinstance(i, SymInt):
            items = self.items()
            for k in range(len(items)):
                if X.decide(i.t == k):
                    return items[k]
            raise Unsupported('symbolic index out of concrete list')
        # concrete index into leading/trailing concrete items
        parts = [p for p in self.parts
                 if not (isinstance(p, list) and not p)]
        if i >= 0 and parts and isinstance(parts[0], list) and \
                i < len(parts[0]):
            return parts[0][i]
        if i < 0 and parts and isinstance(parts[-1], list) and \
                -i <= len(parts[-1]):
            return parts[-1][i]
        if self.concrete():
            return self.items()[i]
        if i == -1 and len(parts) >= 1:
            # last item of guarded sequence
            return last_item(parts)
        if i == 0:
            return first_item(parts)
        raise Unsupported('index into symbolic list')

    def _slice(self, s):
        if self.concrete() and all(x is None or isinstance(x, int)
                                   for x in (s.start, s.stop, s.step)):
            return MList(self.items()[s.start:s.stop:s.step], self.pytypes)
        if s.step == -1 and s.start is None and s.stop is None:
            from . import libs
            return libs.vc_reversed(self)
        if s.step is not None:
            raise Unsupported('slice step')
        parts = [p for p in self.parts if not (isinstance(p, list) and not p)]
        if len(parts) == 1 and isinstance(parts[0], Seg) and \
                parts[0].single() and parts[0].ordered:
            p = parts[0]
            lo, hi = slice_bounds(s, p.hi - p.lo)
            return MList.of([p.clone(p.lo + lo, p.lo + hi)], self.pytypes)
        if all(x is None or isinstance(x, (int, SymInt))
               for x in (s.start, s.stop)):
            if len(parts) == 1 and isinstance(parts[0], Seg) and \
                    parts[0].ordered and parts[0].hi is not None and \
                    not any(isinstance(v, Seg) for _, v in parts[0].emits):
                p = compact(parts[0])
                lo, hi = slice_bounds(s, p.hi - p.lo)
                return MList.of([p.clone(p.lo + lo, p.lo + hi)],
                                self.pytypes)
            if s.start is None:
                return take(self, s.stop)
            if s.stop is None:
                return drop(self, s.start)
        raise Unsupported('slice of symbolic list')

    def __setitem__(self, i, v):
        items = self.items()
        items[i] = v
        self._touch()
        self.parts = [items]

    def _contains_(self, v):
        ts = []
        for p in self.parts:
            if isinstance(p, list):
                ts.append(bool_term(contains(tuple(p), v)))
            elif isinstance(p, Seg):
                ts.append(seg_contains(p, v))
            else:
                raise Unsupported('membership in opaque list')
        return or_(*[mkbool(t) for t in ts])

    def __contains__(self, v):
        return bool(self._contains_(v))

    def __eq__(self, o):
        if not isinstance(o, MList):
            return False
        if self.concrete() and o.concrete():
            return eq(tuple(self.items()), tuple(o.items()))
        from . import libs
        return eq(libs.vc_tuple(self), libs.vc_tuple(o))

    __hash__ = None

    def __add__(self, o):
        r = self.copy()
        r.extend(o)
        return r

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __reversed__(self):
        return iter(self.items()[::-1])

    def __repr__(self):
        return f'MList({self.parts})'

    def _subst_(self, pairs):
        r = MList(pytypes=self.pytypes)
        r.parts = [[subst(i, pairs) for i in p] if isinstance(p, list)
                   else p._subst_(pairs) for p in self.parts]
        return r


def X_g(st):
    return st['gs']


def _stamp():
    return X.stamp()


def slice_bounds(s, n):
    """slice bounds as z3 terms, for length term n"""
    def norm(x, default):
        if x is None:
            return default
        t = int_term(x)
        t = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n),
                  z3.If(t > n, n, t))
        return z3.simplify(t)

    lo = norm(s.start, z3.IntVal(0))
    hi = norm(s.stop, n)
    hi = z3.If(hi < lo, lo, hi)
    return lo, z3.simplify(hi)


class SymTup:
    """tuple (or bytes-like) of symbolic length: elements are get(i)"""

    def __init__(self, n, get, pytypes=(tuple,), key=None):
        self.n = n
        self.get = get
        self.pytypes = pytypes
        self.birth = _stamp()

    def _len(self):
        return mkint(self.n)

    def __bool__(self):
        return X.decide(self.n > 0)

    def __len__(self):
        raise Unsupported('native len of symbolic tuple')

    def __iter__(self):
        raise Unsupported('native iteration of symbolic tuple')

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('slice step')
            lo, hi = slice_bounds(i, self.n)
            g = self.get
            return SymTup(z3.simplify(hi - lo),
                          lambda k, lo=lo: g(z3.simplify(k + lo)),
                          self.pytypes)
        t = int_term(i)
        neg = z3.simplify(t < 0)
        if z3.is_true(neg) or (not z3.is_false(neg) and X.decide(neg)):
            t = t + self.n
        if not X.decide(z3.And(t >= 0, t < self.n)):
            raise IndexError('tuple index out of range')
        return self.get(z3.simplify(t))

    def _contains_(self, v):
        return mkbool(seg_contains(self.seg(), v))

    def __contains__(self, v):
        return bool(self._contains_(v))

    def seg(self):
        g = z3.Const(X.name('g'), I)
        return Seg(g, z3.IntVal(0), self.n, [(z3.BoolVal(True),
                                              self.get(g))])

    def _eq_(self, o):
        if isinstance(o, tuple):
            c = [self.n == len(o)]
            for k, v in enumerate(o):
                c.append(bool_term(eq(self.get(z3.IntVal(k)), v)))
            return mkbool(z3.And(*c))
        if isinstance(o, SymTup):
            if o is self:
                return True
            # same <-> equal length and elements; both directions
            if not X.decide(self.n == o.n):
                return False
            b = X.fresh('tupeq', B)
            if X.decide(b):
                j = z3.Const(X.name('g'), I)
                a, b = self.get(j), o.get(j)
                if _flat(a) and _flat(b):
                    universal(j, z3.And(j >= 0, j < self.n),
                              bool_term(eq(a, b)))
                return True
            w = X.fresh('tupne', I)
            X.assume(z3.And(w >= 0, w < self.n))
            X.assume(z3.Not(bool_term(eq(self.get(w), o.get(w)))))
            add_index(w)
            return False
        return False

    def __eq__(self, o):
        return self._eq_(o)

    def __ne__(self, o):
        return not_(self._eq_(o))

    __hash__ = None

    def _subst_(self, pairs):
        def get(i):
            j = z3.Const(X.name('j'), I)
            return subst(self.get(j), [*pairs, (j, i)])
        return SymTup(tsub(self.n, pairs), get, self.pytypes)


def _flat(v):
    if isinstance(v, tuple):
        return all(_flat(i) for i in v)
    return isinstance(v, (SymInt, SymBool, SymVal, SymReal, int, str, bool,
                          bytes)) or v is None


# --------------------------------------------------- universals, instances

def universal(g, dom, body, sp=None):
    """Assume: for all g with dom(g): body(g); instantiated on index terms
    (of space sp when given)"""
    if z3.is_true(z3.simplify(body)):
        return
    u = Univ(g, dom, body, sp)
    X.universals.append(u)
    X.on_undo(lambda: X.universals.pop())
    for t, s, v in list(X.witness_terms):
        _inst(u, t, s, v)


class Univ:
    def __init__(self, g, dom, body, sp):
        self.g, self.dom, self.body, self.sp = g, dom, body, sp

    def inst(self, t):
        if t.sort() != self.g.sort():
            return
        X.assume(z3.substitute(z3.Implies(self.dom, self.body),
                               (self.g, t)))


def _inst(u, t, sp, via=None):
    us = getattr(u, 'sp', None)
    if us is None or sp is None or us == sp:
        saved, _via[0] = _via[0], via
        try:
            u.inst(t)
        finally:
            _via[0] = saved


_depth = [0]
_via = [None]
_max_depth = [5]


def derive(*ts, sp=None, via=None):
    """register index terms computed from an instantiated one"""
    if _depth[0] >= _max_depth[0] or (via is not None and
                                      _via[0] == via):
        return
    _depth[0] += 1
    try:
        for t in ts:
            add_index(z3.simplify(t), sp, via)
    finally:
        _depth[0] -= 1


class Hook:
    """universal given by a function of the instantiated index term"""

    template = None

    def __init__(self, f, sp=None, link=None):
        self.inst = f
        self.sp = sp
        self.link = link


def _templates(us):
    out = []
    for u in us:
        if isinstance(u, Univ):
            out.append((u.g, u.sp, z3.Implies(u.dom, u.body)))
        elif u.template is not None:
            out.append((*u.template, ))
    return out


def _mentions(t, g):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(g):
            return True
        todo.extend(x.children())
    return False


def _export(seg, outs):
    """what holds for every item of a nested iteration, for every iteration"""
    g = seg.g
    items = [(o.cond, o.univs, o.wits) for o in outs if o.univs or o.wits]
    if not items:
        return
    done = set()

    def inst(k):
        if k.sort() != g.sort() or k.get_id() in done:
            return
        done.add(k.get_id())
        X.on_undo(lambda: done.discard(k.get_id()))
        p = [(g, k)]
        for cond, us, ws in items:
            c = tsub(z3.And(seg.dom(g), cond), p)
            for v, sp, f in us:
                w = z3.Const(X.name('g'), v.sort())
                universal(w, T_, z3.Implies(c, tsub(f, [(v, w), *p])), sp)
            for t, sp in ws:
                derive(tsub(t, p), sp=sp)
    universal_hook(inst, seg.sp)


def universal_hook(f, sp=None, link=None, template=None):
    h = Hook(f, sp, link)
    h.template = template
    X.universals.append(h)
    X.on_undo(lambda: X.universals.remove(h))
    for t, s, v in list(X.witness_terms):
        _inst(h, t, s, v)


def new_space():
    X.counter += 1
    return X.counter


def interval(p):
    """Guarded segment as the segment of the indices it emits at, when those
    are proved to be one of the intervals stated by the unit (X.hints:
    (space, from, to) of z3 terms); p itself otherwise"""
    if not X.hints or not isinstance(p, Seg) or not p.ordered or \
            p.hi is None or p.g.sort() != I or p.single() or any(
                isinstance(v, Seg) for _, v in p.emits):
        return p
    for sp, lo, hi in X.hints:
        if sp != p.sp:
            continue
        mark = X.mark()
        ex = X.explorer
        nf = len(ex.facts) if ex else 0
        X.solver.push()
        try:
            j = X.fresh('j', I)
            X.solver.add(p.dom(j))
            add_index(j, p.sp)
            gs = [gd for gd, _ in p.at(j)]
            ok = X.entails(z3.Or(*gs) == z3.And(lo <= j, j < hi),
                           timeout=4000) and all(
                X.entails(z3.Not(z3.And(gs[a], gs[b])), timeout=4000)
                for a in range(len(gs)) for b in range(a))
        finally:
            X.undo(mark)
            if ex:
                del ex.facts[nf:]
            X.solver.pop()
        if not ok:
            continue
        lo = z3.simplify(z3.If(lo > p.lo, lo, p.lo))
        hi = z3.simplify(z3.If(hi < p.hi, hi, p.hi))
        r = Seg(p.g, lo, hi, p.emits if len(p.emits) > 1 else [
            (T_, p.emits[0][1])], p._dom, p.ordered, p.space)
        r.alts, r.sp = len(p.emits) > 1, p.sp
        return r
    return p


def compact(p):
    """Simple segment over [0, m) of the items an ordered, guarded segment
    emits, in order (existence of the enumeration is by definition)"""
    p = interval(p)
    if p.single() and not p.alts:
        return p
    if getattr(p, 'cmp_path', None) is X.explorer and X.explorer:
        return p.cmp
    if not p.ordered or p.hi is None or any(
            isinstance(v, Seg) for _, v in p.emits):
        raise Unsupported('enumeration of nested or unordered segment')
    m = seg_count(p, p.hi)
    many = len(p.emits) > 1
    src = z3.Function(X.name('src'), I, I)
    which = z3.Function(X.name('which'), I, I)
    pos = [z3.Function(X.name('pos'), I, I) for _ in p.emits]
    guards = [gd for gd, _ in p.emits]

    def gat(e, k):
        return tsub(guards[e], [(p.g, k)])

    def before(a, b):
        if not many:
            return src(a) < src(b)
        return z3.Or(src(a) < src(b), z3.And(src(a) == src(b),
                                             which(a) < which(b)))
    seen = []
    sp = new_space()

    def inst(t):
        """t: index of the result"""
        if t.sort() != I:
            return
        ok = [p.dom(src(t))]
        for e in range(len(p.emits)):
            ok.append(z3.Implies(which(t) == e, z3.And(
                gat(e, src(t)), pos[e](src(t)) == t)))
        ok.append(z3.And(which(t) >= 0, which(t) < len(p.emits)))
        X.assume(z3.Implies(z3.And(t >= 0, t < m), z3.And(*ok)))
        for u in seen:
            X.assume(z3.Implies(
                z3.And(t >= 0, t < m, u >= 0, u < m, t < u), before(t, u)))
            X.assume(z3.Implies(
                z3.And(t >= 0, t < m, u >= 0, u < m, u < t), before(u, t)))
        seen.append(t)
        X.on_undo(lambda: seen.pop())
        derive(src(t), sp=p.sp, via=sp)

    def inst_src(t):
        """t: index of the source"""
        if t.sort() != I:
            return
        for e in range(len(p.emits)):
            q = pos[e](t)
            X.assume(z3.Implies(z3.And(p.dom(t), gat(e, t)), z3.And(
                q >= 0, q < m, src(q) == t, which(q) == e)))
        derive(*[f(t) for f in pos], sp=sp, via=sp)
    universal_hook(inst, sp, sp)
    universal_hook(inst_src, p.sp, sp)
    g = z3.Const(X.name('g'), I)
    if many:
        emits = [(which(g) == e, subst(v, [(p.g, src(g))]))
                 for e, (_, v) in enumerate(p.emits)]
    else:
        emits = [(z3.BoolVal(True), subst(p.emits[0][1], [(p.g, src(g))]))]
    r = Seg(g, z3.IntVal(0), m, emits)
    r.alts = many
    r.sp = sp
    p.cmp, p.cmp_path = r, X.explorer
    return r


def compact_parts(ps):
    return [compact(q) if isinstance(q, Seg) and q.ordered and not q.single()
            else q for q in ps]


def add_index(t, sp=None, via=None):
    """Register index term: all universals are instantiated at it"""
    for x, xs, xv in X.witness_terms:
        if t.eq(x) and (xs is None or xs == sp) and (
                xv is None or xv == via):
            return
    X.witness_terms.append((t, sp, via))
    X.on_undo(lambda: X.witness_terms.pop())
    for u in list(X.universals):
        _inst(u, t, sp, via)


def seg_contains(p, v):
    """z3 condition: v is among the emissions of segment p (forks)"""
    k = X.fresh('in', p.g.sort())
    b = X.fresh('isin', B)
    def member(k):
        return z3.Or(*[z3.And(gd, bool_term(eq(x, v)))
                       for gd, x in p.at(k)])
    if X.decide(b):
        X.assume(p.dom(k))
        X.assume(member(k))
        add_index(k, p.sp)
        return z3.BoolVal(True)
    g2 = z3.Const(X.name('g'), p.g.sort())
    universal(g2, p.dom(g2), z3.Not(member(g2)), p.sp)
    return z3.BoolVal(False)


def first_item(parts):
    """First item of nonempty guarded sequence (forks; IndexError if none)"""
    for p in parts:
        if isinstance(p, list):
            if p:
                return p[0]
            continue
        if isinstance(p, Opaque):
            raise Unsupported('item of opaque list')
        r = _extreme(p, first=True)
        if r is not None:
            return r[0]
    raise IndexError('index out of range')


def last_item(parts):
    for p in reversed(parts):
        if isinstance(p, list):
            if p:
                return p[-1]
            continue
        if isinstance(p, Opaque):
            raise Unsupported('item of opaque list')
        r = _extreme(p, first=False)
        if r is not None:
            return r[0]
    raise IndexError('index out of range')


def _extreme(p, first):
    """(value, index) of first/last emission of an ordered segment, or None"""
    if not p.ordered:
        raise Unsupported('order of unordered segment')
    if p.hi is None:
        raise Unsupported('unbounded segment')
    k = X.fresh('ext', I)
    b = X.fresh('some', B)
    anyg = lambda i: z3.Or(*[gd for gd, _ in p.at(i)])   # noqa
    g2 = z3.Const(X.name('g'), I)
    if not X.decide(b):
        universal(g2, p.dom(g2), z3.Not(anyg(g2)), p.sp)
        return None
    X.assume(p.dom(k))
    X.assume(anyg(k))
    add_index(k, p.sp)
    rng = (z3.And(g2 >= p.lo, g2 < k) if first else
           z3.And(g2 > k, g2 < p.hi))
    universal(g2, rng, z3.Not(anyg(g2)), p.sp)
    em = p.at(k)
    for gd, v in (em if first else reversed(em)):
        if isinstance(v, Seg):
            raise Unsupported('nested segment item')
        if X.decide(gd):
            return v, k
    raise Infeasible()


def some_emission(p):
    """some value is emitted (forks)"""
    if X.decide(X.fresh('some', B)):
        k = X.fresh('k', p.g.sort())
        X.assume(p.dom(k))
        add_index(k, p.sp)
        em = p.at(k)
        gd, v = em[X.choose(len(em), 'emit') if len(em) > 1 else 0]
        X.assume(gd)
        if isinstance(v, Seg) and not some_emission(v):
            raise Cut()
        return True
    no_emission(p, [])
    return False


def no_emission(p, conds):
    """assume: nothing is emitted"""
    srt = p.g.sort()

    def inst(k):
        if k.sort() != srt:
            return
        for gd, v in p.at(k):
            cs = [*conds, p.dom(k), gd]
            if isinstance(v, Seg):
                no_emission(v, cs)
            else:
                X.assume(z3.Not(z3.And(*cs)))
    v = z3.Const(X.name('g'), srt)
    tmp = None
    if not any(isinstance(i, Seg) for _, i in p.at(v)):
        tmp = (v, p.sp, z3.And(*[z3.Not(z3.And(*conds, p.dom(v), gd))
                                 for gd, _ in p.at(v)]))
    universal_hook(inst, p.sp, template=tmp)


def len_term(lst):
    """z3 length term of any sized container"""
    if isinstance(lst, SymTup):
        return lst.n
    if isinstance(lst, MList):
        t = z3.IntVal(0)
        for p in lst.parts:
            if isinstance(p, list):
                t = t + len(p)
            elif isinstance(p, Opaque):
                t = t + p.n
            else:
                t = t + seg_count(p, p.hi)
        return z3.simplify(t)
    raise Unsupported('length')


T_ = z3.BoolVal(True)


def seg_count(p, upto):
    """Number of emissions at indices below `upto`"""
    if isinstance(p, Seg) and p.single() and p.ordered and p.hi is not None:
        return z3.If(upto > p.lo, upto - p.lo, z3.IntVal(0))
    if not p.ordered:
        raise Unsupported('count of unordered segment')
    if not hasattr(p, 'cnt') or p.cnt_path is not X.explorer:
        f = Fun(IntC(), 'cnt', I)
        p.cnt = lambda k: f.terms(k)[0]
        p.cnt_path = X.explorer
        X.assume(p.cnt(p.lo) == 0)
        g2 = z3.Const(X.name('g'), I)
        step = z3.IntVal(0)
        for gd, v in p.at(g2):
            if isinstance(v, Seg):
                # length of the nested segment: only known not to be negative
                inner = Fun(IntC(), 'cnt', I).terms(g2)[0]
                X.assume(inner >= 0)
                universal(g2, T_, inner >= 0, p.sp)
                step = step + z3.If(gd, inner, 0)
                continue
            step = step + z3.If(gd, 1, 0)
        universal(g2, z3.And(g2 >= p.lo, g2 < p.hi),
                  z3.And(p.cnt(g2 + 1) == p.cnt(g2) + step, p.cnt(g2) >= 0,
                         p.cnt(g2 + 1) <= p.cnt(p.hi)), p.sp)
        X.assume(p.cnt(p.hi) >= 0)
        # an exact count of zero means no emission at all
        g3 = z3.Const(X.name('g'), I)
        if z3.is_true(z3.simplify(upto == p.hi)) and not any(
                isinstance(v, Seg) for _, v in p.emits):
            w = X.fresh('cw', I)
            anyw = z3.Or(*[gd for gd, _ in p.at(w)])
            X.assume(z3.Or(p.cnt(p.hi) == 0,
                           z3.And(w >= p.lo, w < p.hi, anyw)))
            add_index(w, p.sp)
        del g3
    return p.cnt(upto)


def take(lst, n):
    """First n items (symbolic n) of a list: guarded by running count"""
    t = int_term(n)
    out = []
    before = z3.IntVal(0)
    for p in to_parts(lst):
        if isinstance(p, list):
            items = []
            for i, v in enumerate(p):
                if X.decide(before + i < t):
                    items.append(v)
                else:
                    break
            out.append(items)
            if len(items) < len(p):
                return MList.of(out)
            before = before + len(p)
        elif isinstance(p, Seg):
            p = interval(p)
            if p.single() and p.ordered:
                ln = p.hi - p.lo
                keep = z3.If(t - before < 0, z3.IntVal(0),
                             z3.If(t - before < ln, t - before, ln))
                out.append(p.clone(hi=z3.simplify(p.lo + keep)))
                before = before + z3.If(ln > 0, ln, z3.IntVal(0))
            else:
                total = seg_count(p, p.hi)
                cnt = p.cnt
                if len(p.emits) != 1:
                    raise Unsupported('take of multi emission segment')
                gd, v = p.emits[0]
                s = Seg(p.g, p.lo, p.hi,
                        [(z3.And(gd, before + cnt(p.g) < t), v)], p._dom,
                        p.ordered, p.space)
                s.sp = p.sp
                out.append(s)
                before = before + total
        else:
            raise Unsupported('take of opaque list')
    return MList.of(out)


def drop(lst, n):
    t = int_term(n)
    out = []
    before = z3.IntVal(0)
    for p in to_parts(lst):
        if isinstance(p, list):
            out.append([v for i, v in enumerate(p)
                        if not X.decide(before + i < t)])
            before = before + len(p)
        elif isinstance(p, Seg) and p.single() and p.ordered:
            ln = p.hi - p.lo
            k = z3.If(t - before < 0, z3.IntVal(0),
                      z3.If(t - before < ln, t - before, ln))
            out.append(p.clone(lo=z3.simplify(p.lo + k)))
            before = before + z3.If(ln > 0, ln, z3.IntVal(0))
        else:
            raise Unsupported('drop of symbolic list')
    return MList.of(out)


# ------------------------------------------------------------------ dicts

class SymMap:
    """Base contents of a dict: dom and values as functions of the key"""

    def __init__(self, kcodec, vcodec, dom, val):
        self.kcodec, self.vcodec = kcodec, vcodec
        self.dom = dom          # key terms -> z3 bool
        self.val = val          # key terms -> value terms

    @classmethod
    def fresh(cls, kcodec, vcodec, name='map'):
        fd = Fun(BoolC(), name + '.dom', *kcodec.sorts)
        fv = Fun(vcodec, name + '.val', *kcodec.sorts)
        return cls(kcodec, vcodec, lambda *k: fd.terms(*k)[0],
                   lambda *k: fv.terms(*k))


_DEL = object()


class MDict:
    """dict model: symbolic base plus a log of writes"""

    def __init__(self, pairs=(), base=None, default=None, pytypes=(dict,)):
        self.base = base
        self.log = []           # (key, value | _DEL)
        self.default = default
        self.pytypes = pytypes
        self.birth = _stamp()
        self.tracked = None
        for k, v in pairs:
            self._put(k, v)

    def _touch(self):
        touch(self)
        old, base = self.log, self.base

        def undo():
            self.log, self.base = old, base
        X.on_undo(undo, self.birth)
        self.log = list(old)

    # -- carry protocol: loop invariant given by the contract

    def _spec(self, st):
        if 'spec' in st:
            return st['spec']
        spec = X.dict_spec and X.dict_spec(self)
        if not spec:
            raise Unsupported('loop modifies dict shared by iterations')
        st['spec'] = spec
        st['init'] = (self.base, list(self.log))
        st['gs'] = list(X.gstack[:-1])
        gss = [x.sort() for x in st['gs']]
        seg = st['seg']
        idx = [] if seg is None else [seg.g.sort()]
        ks = spec.kcodec.sorts
        n = X.name('dict')

        def mk(tag, res, with_idx=True):
            args = gss + (idx if with_idx else []) + list(ks)
            if not args:
                c = z3.Const(f'{n}.{tag}', res)
                return lambda *a: c
            return z3.Function(f'{n}.{tag}', *args, res)
        for pre, wi in (('', True), ('e', False)):
            st[pre + 'dom'] = mk(pre + 'dom', B, wi)
            st[pre + 'val'] = [mk(f'{pre}val{i}', x, wi)
                               for i, x in enumerate(spec.vcodec.sorts)]
            st[pre + 'last'] = mk(pre + 'last', seg.g.sort(), wi)
        st['vis'] = z3.Function(n + '.vis', *gss, *idx, *idx, B)
        return spec

    def _state_at(self, st, k, spec):
        pre, a = ('e', st['gs']) if k is None else ('', [*st['gs'], k])
        self.base = SymMap(
            spec.kcodec, spec.vcodec,
            lambda *x: st[pre + 'dom'](*a, *x),
            lambda *x: [f(*a, *x) for f in st[pre + 'val']])
        self.base.last = lambda *x: st[pre + 'last'](*a, *x)
        self.log = []

    def _vis(self, st, k):
        seg = st['seg']
        if k is None:
            return lambda j: seg.dom(j)
        if seg.ordered:
            return _visited(lambda j: z3.And(j >= seg.lo, j < k), k)
        return lambda j: z3.And(seg.dom(j), j != k,
                                st['vis'](*st['gs'], k, j))

    def at_terms(self, *ks, now=None):
        """(present, value terms, last writer) at key terms (no fork)"""
        b = self.base
        if b is None:
            spec = self.cur_spec
            pres = z3.BoolVal(False)
            vals = [default_term(x) for x in spec.vcodec.sorts]
            last = None
            kc, vc = spec.kcodec, spec.vcodec
        else:
            pres, vals = b.dom(*ks), b.val(*ks)
            last = b.last(*ks) if hasattr(b, 'last') else None
            kc, vc = b.kcodec, b.vcodec
        if last is None and now is not None:
            last = now
        for k2, v in self.log:
            t = kc.flatten(k2)
            if t is None:
                continue
            c = z3.And(*[x == y for x, y in zip(ks, t)])
            pres = z3.If(c, z3.BoolVal(v is not _DEL), pres)
            if v is not _DEL:
                vt = vc.flatten(v)
                if vt is None:
                    raise Unsupported('value kind of carried dict')
                vals = [z3.If(c, x, y) for x, y in zip(vt, vals)]
            if now is not None:
                last = z3.If(c, now, last)
        return pres, vals, last

    def _inv(self, st, vis, assume, what='', now=None):
        spec = st['spec']
        self.cur_spec = spec
        dflt = default_term(st['seg'].g.sort())

        def at(*ks):
            p, v, w = self.at_terms(*ks, now=now)
            if not assume and hasattr(spec.kcodec, 'sp'):
                add_index(ks[0], spec.kcodec.sp)
            if not assume and hasattr(spec.vcodec, 'sp'):
                add_index(v[0], spec.vcodec.sp)
            return p, v, (dflt if w is None else w)

        def at0(*ks):
            """state at the start of the loop"""
            saved = self.base, self.log
            self.base, self.log = st['init']
            try:
                return self.at_terms(*ks)[:2]
            finally:
                self.base, self.log = saved
        at.init = at0
        vis.seg = st['seg']
        for sort, sp, body, label in spec.inv(at, vis):
            if isinstance(sort, str):
                exists_inv(sp, body, label, assume, what)
                continue
            if assume:
                g = z3.Const(X.name('g'), sort)
                universal(g, z3.BoolVal(True), body(g), sp)
            else:
                k = X.fresh('k', sort)
                add_index(k, sp)
                X.prove(body(k), f'loop invariant {what}: {label}')

    def _havoc(self, g, lo, st):
        spec = self._spec(st)
        base, log = self.base, self.log

        def undo():
            self.base, self.log = base, log
        X.on_undo(undo)
        self._state_at(st, g, spec)
        self._inv(st, self._vis(st, g), True)

    def _preserved(self, st, g):
        vis = self._vis(st, g)
        self._inv(st, lambda j: z3.Or(vis(j), j == g), False, 'preserved',
                  now=g)

    def _initially(self, st):
        base, log = self.base, self.log
        self.base, self.log = st['init']
        try:
            self._inv(st, lambda j: z3.BoolVal(False), False, 'initially')
        finally:
            self.base, self.log = base, log

    def _new_state(self, st):
        return MDictState(self.base, list(self.log))

    def _recur(self, seg, conts, end, st, k):
        pass

    def _set_after(self, end, st, new, pairs, e=None):
        self._touch()
        spec = st['spec']
        if new is not None:
            at = e if e is not None else end
            self._state_at(st, at, spec)
            self._inv(st, self._vis(st, at), True)
            n = new._subst_(pairs)
            self.base, self.log = n.base, n.log
            return
        k = end if st['seg'].ordered else None
        self._state_at(st, k, spec)
        self._inv(st, self._vis(st, k), True)

    def _put(self, k, v):
        # concrete keys: replace in place to keep insertion order
        for i, (k2, v2) in enumerate(self.log):
            if v2 is not _DEL and _same(k, k2):
                self.log[i] = (k2, v)
                return
        if self.concrete():
            for i, (k2, v2) in enumerate(self.log):
                r = eq(k, k2)
                if r is not False and X.decide(bool_term(r)):
                    self.log[i] = (k2, v)
                    return
        self.log.append((k, v))

    def ident(self):
        """identity of the contents (kept by copies)"""
        o = getattr(self, 'origin', None)
        if o and o[1] is self.base and not self.log:
            return str(o[0])
        return id(self)

    def lookup(self, k):
        """value or _DEL"""
        if isinstance(k, SymOpt):
            k = k.force()
        for k2, v in reversed(self.log):
            r = eq(k, k2)
            if r is True or (r is not False and X.decide(bool_term(r))):
                return v
        if self.base is None:
            return _DEL
        ks = self.base.kcodec.flatten(k)
        if ks is None:
            return _DEL
        if hasattr(self.base.kcodec, 'sp'):
            add_index(ks[0], self.base.kcodec.sp)
        if X.decide(self.base.dom(*ks)):
            ts = self.base.val(*ks)
            for f in self.base.vcodec.facts(ts):
                X.assume(f)
            if hasattr(self.base.vcodec, 'sp'):
                add_index(ts[0], self.base.vcodec.sp)
            return self.base.vcodec.build(ts)
        return _DEL

    def get(self, k, d=None):
        v = self.lookup(k)
        return d if v is _DEL else v

    def __getitem__(self, k):
        v = self.lookup(k)
        if v is _DEL:
            if self.default is None:
                raise KeyError(k if not symbolic(k) else 'key')
            v = self.default()
            self[k] = v
        return v

    def __setitem__(self, k, v):
        self._touch()
        self._put(k, v)

    def setdefault(self, k, d=None):
        v = self.lookup(k)
        if v is _DEL:
            self[k] = d
            return d
        return v

    def pop(self, k, *d):
        v = self.lookup(k)
        if v is _DEL:
            if d:
                return d[0]
            raise KeyError(k if not symbolic(k) else 'key')
        self._delete(k)
        return v

    def _delete(self, k):
        self._touch()
        if self.base is None and all(
                _decidable(k, k2) for k2, _ in self.log):
            self.log = [(k2, v) for k2, v in self.log if not _same(k, k2)]
        else:
            self.log.append((k, _DEL))

    def __delitem__(self, k):
        self.pop(k)

    def clear(self):
        self._touch()
        self.base = None
        self.log = []

    def update(self, *a, **kw):
        for o in a:
            if isinstance(o, MDict):
                if o.base is not None:
                    if self.base is None and not self.log:
                        self._touch()
                        self.base = o.base
                        self.log = list(o.log)
                        continue
                    raise Unsupported('update from symbolic dict')
                for k, v in o.log:
                    if v is not _DEL:
                        self[k] = v
            elif isinstance(o, dict):
                for k, v in o.items():
                    self[k] = v
            else:
                for k, v in native(o):
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        r = MDict(base=self.base, default=self.default, pytypes=self.pytypes)
        r.log = list(self.log)
        return r

    def _contains_(self, k):
        return self.lookup(k) is not _DEL

    def __contains__(self, k):
        return self.lookup(k) is not _DEL

    def concrete(self):
        return self.base is None and all(
            v is not _DEL for _, v in self.log)

    def __bool__(self):
        if self.log and self.log[-1][1] is not _DEL:
            return True     # the last write is present
        if self.concrete():
            return bool(self.log)
        if not self.log and getattr(self, 'truth', None) and \
                self.truth[1] is self.base:
            return X.decide(self.truth[0])
        if self.base is None or self.log:
            raise Unsupported('truth of dict after deletions')
        ks = [X.fresh('key', s) for s in self.base.kcodec.sorts]
        b = X.fresh('nonempty', B)
        if X.decide(b):
            X.assume(self.base.dom(*ks))
            if len(ks) == 1:
                add_index(ks[0])
            return True
        if len(ks) == 1:
            g = z3.Const(X.name('g'), ks[0].sort())
            universal(g, z3.BoolVal(True), z3.Not(self.base.dom(g)))
        else:
            raise Unsupported('emptiness of dict with compound keys')
        return False

    def __len__(self):
        if self.concrete():
            return len(self.log)
        raise Unsupported('len of symbolic dict')

    def len_term(self):
        if self.concrete():
            return z3.IntVal(len(self.log))
        n = X.fresh('dictlen', I)
        X.assume(n >= 0)
        return n

    def __iter__(self):
        return iter([k for k, _ in self._conc()])

    def _conc(self):
        if not self.concrete():
            raise Unsupported('native iteration of symbolic dict')
        return list(self.log)

    def keys(self):
        return DictView(self, 'keys')

    def values(self):
        return DictView(self, 'values')

    def items(self):
        return DictView(self, 'items')

    def __eq__(self, o):
        if isinstance(o, dict):
            o = MDict(o.items())
        if not isinstance(o, MDict):
            return False
        if self is o:
            return True
        a, b = self._conc(), o._conc()
        if len(a) != len(b):
            return False
        ts = []
        for k, v in a:
            w = o.lookup(k)
            if w is _DEL:
                return False
            ts.append(bool_term(eq(v, w)))
        return mkbool(z3.And(*ts)) if ts else True

    __hash__ = None

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def _subst_(self, pairs):
        r = self.copy()
        r.log = [(subst(k, pairs), v if v is _DEL else subst(v, pairs))
                 for k, v in self.log]
        b = self.base
        if b is not None:
            if not isinstance(b, SymMap):
                raise Unsupported('copy of derived dict')
            r.base = SymMap(b.kcodec, b.vcodec,
                            lambda *k: tsub(b.dom(*k), pairs),
                            lambda *k: [tsub(t, pairs) for t in b.val(*k)])
            if hasattr(b, 'last'):
                r.base.last = lambda *k: tsub(b.last(*k), pairs)
            o = getattr(self, 'origin', None)
            if o and o[1] is b:
                r.origin = (tsub(o[0], pairs), r.base)
        return r

    def __repr__(self):
        return f'MDict({self.log}, base={self.base is not None})'


def _same(a, b):
    """Definitely equal (no fork)"""
    try:
        r = eq(a, b)
    except Unsupported:
        return False
    return r is True


def _decidable(a, b):
    r = eq(a, b)
    return r is True or r is False


def _visited(f, k):
    """predicate of visited iterations; k: index of the next one"""
    f.k = k
    return f


def exists_inv(sp, body, label, assume, what=''):
    """body = (condition, witness -> formula): a witness index of space sp
    exists when the condition holds"""
    cond, f = body
    if assume:
        k = X.fresh('wit', I)
        add_index(k, sp)
        X.assume(z3.Implies(cond, f(k)))
    else:
        alts = [f(t) for t, s, _ in X.witness_terms
                if s == sp and t.sort() == I]
        X.prove(z3.Implies(cond, z3.Or(*alts) if alts else
                           z3.BoolVal(False)),
                f'loop invariant {what}: {label}')


class CarrySpec:
    """Contract-supplied invariant of a local or attribute that loop
    iterations change: inv(value, vis) -> [(sort, space, body, label)]"""

    def __init__(self, codec, inv):
        self.codec, self.inv = codec, inv


class Cell:
    """carry protocol of such a location"""

    def __init__(self, loc, init, spec, get, set_):
        self.loc, self.init, self.spec = loc, init, spec
        self.get, self.set = get, set_

    def _havoc(self, g, lo, st):
        if 'f' not in st:
            seg = st['seg']
            st['gs'] = list(X.gstack[:-1])
            gss = [x.sort() for x in st['gs']]
            idx = seg.g.sort()
            n = X.name('cell')
            cs = self.spec.codec.sorts
            st['f'] = [z3.Function(f'{n}.{i}', *gss, idx, s)
                       for i, s in enumerate(cs)]
            st['e'] = [z3.Function(f'{n}.e{i}', *gss, s) if gss else None
                       for i, s in enumerate(cs)]
            st['ec'] = [z3.Const(f'{n}.e{i}', s) for i, s in enumerate(cs)]
            st['vis'] = z3.Function(n + '.vis', *gss, idx, idx, B)
        self.set(self._value(st, g))

    def _value(self, st, k):
        if k is None:
            ts = [f(*st['gs']) if f is not None else c
                  for f, c in zip(st['e'], st['ec'])]
        else:
            ts = [f(*st['gs'], k) for f in st['f']]
        for f in self.spec.codec.facts(ts):
            X.assume(f)
        v = self.spec.codec.build(ts)
        self._inv(st, v, self._vis(st, k), True)
        return v

    def _vis(self, st, k):
        return MDict._vis(self, st, k)

    def _inv(self, st, v, vis, assume, what=''):
        vis.seg = st['seg']
        for sort, sp, body, label in self.spec.inv(v, vis):
            if isinstance(sort, str):
                exists_inv(sp, body, label, assume, what)
                continue
            if assume:
                if sort is None:
                    X.assume(body(None))
                    continue
                universal_hook(
                    lambda t, sort=sort, body=body: X.assume(body(t))
                    if t.sort() == sort else None, sp)
            else:
                k = None
                if sort is not None:
                    k = X.fresh('k', sort)
                    add_index(k, sp)
                X.prove(body(k), f'loop invariant {what}: {label}')

    def _new_state(self, st):
        v = self.get()
        return None if isinstance(v, Poison) else v

    def _preserved(self, st, g):
        v0 = self._vis(st, g)

        def vis(j):
            return z3.Or(v0(j), j == g)
        vis.now = g
        vis.k = g + 1 if g.sort() == I else None
        self._inv(st, self.get(), vis, False, 'preserved')

    def _initially(self, st):
        self._inv(st, self.init, _visited(
            lambda j: z3.BoolVal(False), st['seg'].lo), False, 'initially')

    def _recur(self, seg, conts, end, st, k):
        pass

    def _set_after(self, end, st, new, pairs, e=None):
        if new is not None:
            at = e if e is not None else end
            self._value(st, at)
            self.set(subst(new, pairs))
            return
        self.set(self._value(st, end if st['seg'].ordered else None))


class MDictState:
    def __init__(self, base, log):
        self.base, self.log = base, log

    def _subst_(self, pairs):
        d = MDict(base=self.base)
        d.log = self.log
        d = d._subst_(pairs)
        return MDictState(d.base, d.log)


class DictView:

    def __init__(self, d, what):
        self.d = d
        self.what = what

    def parts(self):
        d = self.d
        if d.concrete():
            return [[self._sel(k, v) for k, v in d.log]]
        p = getattr(d.base, 'p', None)
        if isinstance(p, Seg):
            # built from a list of pairs
            if d.log or p.ordered or not d.base.distinct():
                raise Unsupported('iteration over dict of pairs')
            (gd, (k, v)), = p.emits
            return [p.clone(emits=[(gd, self._sel(k, v))])]
        if len(d.base.kcodec.sorts) != 1:
            raise Unsupported('iteration over compound symbolic keys')
        g = z3.Const(X.name('k'), d.base.kcodec.sorts[0])
        key = d.base.kcodec.build([g])
        dom = d.base.dom(g)
        extra = []
        for k2, v in d.log:
            t = d.base.kcodec.flatten(k2)
            dom = z3.And(dom, g != t[0])
        live = []
        for k2, v in d.log:
            live = [(a, b) for a, b in live if not _same(a, k2)]
            if v is not _DEL:
                live.append((k2, v))
        for i, (a, _) in enumerate(live):
            for b, _ in live[i + 1:]:
                if not _decidable(a, b):
                    raise Unsupported('aliasing keys in dict iteration')
        if live:
            extra.append([self._sel(k, v) for k, v in live])
        val = d.base.vcodec.build(d.base.val(g))
        seg = Seg(g, None, None, [(z3.BoolVal(True), self._sel(key, val))],
                  dom=dom, ordered=False, space=('dict', d.ident()))
        seg.sp = getattr(d.base.kcodec, 'sp', None)
        return [seg, *extra]

    def _sel(self, k, v):
        return {'keys': k, 'values': v, 'items': (k, v)}[self.what]

    def __iter__(self):
        return iter([self._sel(k, v) for k, v in self.d._conc()])

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return bool(self.d)

    def _contains_(self, x):
        if self.what == 'keys':
            return self.d._contains_(x)
        return MList.of(to_parts(self))._contains_(x)

    def __contains__(self, x):
        return bool(self._contains_(x))

    def _eq_(self, o):
        if not isinstance(o, DictView) or self.what != o.what or \
                self.what == 'values':
            return self is o
        a, b = self.d, o.d
        if a.concrete() and b.concrete():
            return MSet(self) == MSet(o)
        if self.what != 'keys' or a.log or b.log or (
                a.base is None or b.base is None) or \
                len(a.base.kcodec.sorts) != 1 or \
                a.base.kcodec.sorts != b.base.kcodec.sorts:
            raise Unsupported('equality of dict views')
        s, = a.base.kcodec.sorts
        if X.decide(X.fresh('samekeys', B)):
            g = z3.Const(X.name('g'), s)
            universal(g, z3.BoolVal(True), a.base.dom(g) == b.base.dom(g))
            return True
        w = X.fresh('key', s)
        X.assume(a.base.dom(w) != b.base.dom(w))
        add_index(w)
        return False

    def __eq__(self, o):
        return self._eq_(o)

    __hash__ = None

    def intersection(self, *o):
        return MSet(self).intersection(*o)

    def __and__(self, o):
        return MSet(self).intersection(o)

    def __or__(self, o):
        return MSet(self).union(o)

    def __sub__(self, o):
        return MSet(self).difference(o)


class MSet:
    """set model: symbolic membership base plus log of additions/removals"""

    pytypes = (set,)

    def __init__(self, items=(), base=None, kcodec=None):
        self.base = base        # terms -> z3 bool
        self.kcodec = kcodec
        self.log = []           # (value, True | False)
        self.birth = _stamp()
        self.segs = []          # generic contents (unordered)
        for p in to_parts(items):
            if isinstance(p, list):
                for v in p:
                    self._add(v)
            elif isinstance(p, Seg):
                self.segs.append(p)
            else:
                raise Unsupported('set of opaque list')

    def _touch(self):
        touch(self)
        old = self.log, self.base, self.segs

        def undo():
            self.log, self.base, self.segs = old
        X.on_undo(undo, self.birth)
        self.log = list(old[0])
        self.segs = list(self.segs)

    def _add(self, v):
        if self.log and all(p for _, p in self.log):
            for k, _ in self.log:
                if _same(k, v):
                    return
        self.log.append((v, True))

    def add(self, v):
        self._touch()
        self._add(v)

    def _member(self, v):
        for k, present in reversed(self.log):
            r = eq(k, v)
            if r is True or (r is not False and X.decide(bool_term(r))):
                return present
        if self.base is not None:
            ks = self.kcodec.flatten(v)
            if ks is not None and X.decide(self.base(*ks)):
                return True
        for s in self.segs:
            if z3.is_true(seg_contains(s, v)):
                return True
        return False

    def _contains_(self, v):
        return self._member(v)

    def __contains__(self, v):
        return self._member(v)

    def discard(self, v):
        self._touch()
        if self.concrete() and all(_decidable(k, v) for k, _ in self.log):
            self.log = [(k, p) for k, p in self.log if not _same(k, v)]
            return
        self.log.append((v, False))

    def remove(self, v):
        if not self._member(v):
            raise KeyError('element')
        self.discard(v)

    def pop(self):
        items = self.items_()
        if not items:
            raise KeyError('pop from an empty set')
        v = items[X.choose(len(items), 'setpop')]
        self.discard(v)
        return v

    def update(self, *others):
        for o in others:
            for p in to_parts(o):
                if isinstance(p, list):
                    for v in p:
                        self.add(v)
                elif isinstance(p, Seg):
                    self._touch()
                    self.segs.append(p)
                else:
                    raise Unsupported('set update')

    def difference_update(self, *others):
        for o in others:
            for v in native(o):
                self.discard(v)

    def clear(self):
        self._touch()
        self.log, self.base, self.segs = [], None, []

    def copy(self):
        r = MSet(base=self.base, kcodec=self.kcodec)
        r.log = list(self.log)
        r.segs = list(self.segs)
        return r

    def concrete(self):
        return self.base is None and not self.segs and all(
            p for _, p in self.log)

    def items_(self):
        """distinct items (forks on aliasing)"""
        if not self.concrete():
            raise Unsupported('native iteration of symbolic set')
        out = []
        for v, _ in self.log:
            dup = False
            for w in out:
                r = eq(v, w)
                if r is True or (r is not False and X.decide(bool_term(r))):
                    dup = True
                    break
            if not dup:
                out.append(v)
        return out

    def parts(self):
        if self.concrete():
            return [self.items_()]
        if not self.log and self.base is None and len(self.segs) == 1:
            s = self.segs[0]
            return [Seg(s.g, s.lo, s.hi, s.emits, s._dom if s._dom is not None
                        else s.dom(s.g), False, s.space)]
        if self.base is not None and not self.segs and \
                len(self.kcodec.sorts) == 1:
            g = z3.Const(X.name('k'), self.kcodec.sorts[0])
            dom = self.base(g)
            for v, p in self.log:
                dom = z3.And(dom, g != self.kcodec.flatten(v)[0])
            live = []
            for v, p in self.log:
                live = [a for a in live if not _same(a, v)]
                if p:
                    live.append(v)
            seg = Seg(g, None, None,
                      [(z3.BoolVal(True), self.kcodec.build([g]))],
                      dom=dom, ordered=False)
            seg.sp = getattr(self.kcodec, 'sp', None)
            return [seg, live]
        raise Unsupported('iteration of symbolic set')

    def __iter__(self):
        return iter(self.items_())

    def __len__(self):
        return len(self.items_())

    def __bool__(self):
        if any(p for _, p in self.log[-1:]):
            return True
        if self.concrete():
            return bool(self.log)
        return self._nonempty()

    def _nonempty(self):
        if self.log and self.kcodec is None:
            # some logged positive entry not removed later
            raise Unsupported('truth of set after removals')
        ks = ([X.fresh('el', s) for s in self.kcodec.sorts]
              if self.kcodec else None)
        if ks is None:
            return bool(MList.of(self.parts()))
        b = X.fresh('nonempty', B)
        v = self.kcodec.build(ks)
        if X.decide(b):
            for f in self.kcodec.facts(ks):
                X.assume(f)
            if not self._member(v):
                raise Infeasible()
            self.witness = v
            return True
        # empty: no generic member; tracked members checked on lookup
        g = [z3.Const(X.name('g'), s) for s in self.kcodec.sorts]
        gv = self.kcodec.build(g)
        removed = z3.Or(*[bool_term(eq(k, gv)) for k, p in self.log
                          if not p]) if self.log else z3.BoolVal(False)
        for k, p in self.log:
            if p and not any(_same(k, k2) and not p2 for k2, p2 in self.log):
                raise Infeasible()
        if len(g) == 1:
            universal(g[0], z3.BoolVal(True),
                      z3.Or(z3.Not(self.base(g[0])), removed))
        else:
            self.known_empty = (g, removed)
            X.assume(z3.ForAll(g, z3.Or(z3.Not(self.base(*g)), removed)))
        return False

    def union(self, *others):
        r = self.copy()
        r.update(*others)
        return r

    def _restrict(self, o, keep):
        """generic members also (keep) / not also in o"""
        if self.base is not None or self.log:
            raise Unsupported('operation of symbolic sets')
        r = MSet(kcodec=self.kcodec)
        for p in self.segs:
            em = []
            for gd, v in p.emits:
                if isinstance(v, Seg):
                    raise Unsupported('set of nested segments')
                t = member_term(o, v)
                em.append((z3.simplify(z3.And(gd, t if keep
                                              else z3.Not(t))), v))
            r.segs.append(p.clone(emits=em))
        return r

    def intersection(self, *os):
        a = self
        if len(os) != 1:
            for o in os:
                a = a.intersection(o)
            return a
        o, = os
        if not a.concrete():
            return a._restrict(o, True)
        return MSet([v for v in a.items_() if contains(as_container(o), v)])

    def difference(self, o):
        if not self.concrete():
            return self._restrict(o, False)
        return MSet([v for v in self.items_()
                     if not contains(as_container(o), v)])

    def issubset(self, o):
        return and_(*[contains(as_container(o), v) for v in self.items_()])

    def issuperset(self, o):
        return and_(*[contains(self, v) for v in native(o)])

    def isdisjoint(self, o):
        return not_(or_(*[contains(as_container(o), v)
                          for v in self.items_()]))

    def __or__(self, o):
        return self.union(o)

    def __and__(self, o):
        return self.intersection(o)

    def __sub__(self, o):
        return self.difference(o)

    def __eq__(self, o):
        if isinstance(o, (set, frozenset)):
            o = MSet(list(o))
        if not isinstance(o, MSet):
            return False
        if o is self:
            return True
        return and_(self.issubset(o), o.issubset(self))

    __hash__ = None

    def _subst_(self, pairs):
        r = MSet(kcodec=self.kcodec)
        b = self.base
        if b is not None:
            r.base = lambda *k: tsub(b(*k), pairs)
        r.log = [(subst(v, pairs), p) for v, p in self.log]
        r.segs = [x._subst_(pairs) for x in self.segs]
        return r

    def __repr__(self):
        return f'MSet({self.log})'


def member_term(o, v):
    """membership of v as a term (no fork)"""
    if isinstance(o, DictView) and o.what == 'keys':
        o = o.d
    if isinstance(o, (MDict, MSet)):
        if getattr(o, 'segs', None):
            raise Unsupported('membership of generic set contents')
        t = z3.BoolVal(False)
        if o.base is not None:
            kc = o.base.kcodec if isinstance(o, MDict) else o.kcodec
            ks = kc.flatten(v)
            if ks is not None:
                t = o.base.dom(*ks) if isinstance(o, MDict) else o.base(*ks)
        for k, x in o.log:
            p = x is not _DEL if isinstance(o, MDict) else x
            t = z3.If(bool_term(eq(k, v)), z3.BoolVal(bool(p)), t)
        return t
    if isinstance(o, (tuple, list)):
        return z3.Or(*[bool_term(eq(x, v)) for x in o]) if o else \
            z3.BoolVal(False)
    if isinstance(o, MList) and o.concrete():
        return member_term(o.items(), v)
    raise Unsupported('membership term')


def as_container(o):
    if isinstance(o, (MSet, MList, MDict, DictView, SymTup, tuple)):
        return o
    return native(o)


# ------------------------------------------------------------- iterables

def to_parts(x):
    """Parts (python lists / Seg / Opaque) of any iterable"""
    if isinstance(x, SymOpt):
        x = x.force()
    if isinstance(x, MList):
        return list(x.parts)
    if isinstance(x, SymTup):
        return [x.seg()]
    if isinstance(x, MDict):
        return DictView(x, 'keys').parts()
    if isinstance(x, (DictView, MSet)):
        return x.parts()
    if isinstance(x, Seg):
        return [x]
    f = getattr(x, '_parts_', None)
    if f:
        return f()
    if isinstance(x, Sym):
        raise Unsupported(f'iteration of {x!r:.60}')
    if x is None:
        raise TypeError("'NoneType' object is not iterable")
    if isinstance(x, Poison):
        x._p()
    return [list(x)]


def native(x):
    """Native list of the items of a concrete iterable"""
    out = []
    for p in to_parts(x):
        if not isinstance(p, list):
            raise Unsupported('symbolic iterable used natively')
        out.extend(p)
    return out


def is_native(x):
    return all(isinstance(p, list) for p in to_parts(x))


# -------------------------------------------------------------- loop rule

class Poison:
    """Value of a loop local at the start of a generic iteration"""

    def __init__(self, name, after=None):
        object.__setattr__(self, '_n', name)
        object.__setattr__(self, '_after', after)

    def _p(self, *a, **k):
        if self._after:
            raise NeedAfter(self._after, self._n)
        raise NeedCarry(('local', self._n))

    def __getattr__(self, n):
        self._p()

    def __setattr__(self, n, v):
        self._p()

    for _m in ('bool eq ne lt le gt ge add radd sub rsub mul len iter '
               'getitem setitem contains call hash index enter exit iadd '
               'isub str and or not neg').split():
        locals()[f'__{_m}__'] = _p
    _contains_ = _is_ = _p
    del _m


class NeedAfter(Ctl):
    """Loop local used after the loop"""

    def __init__(self, site, name):
        super().__init__(site, name)
        self.key = (site, name)


class Loop:
    """A generic-iteration context (for writes to older objects)"""

    def __init__(self, stamp):
        self.stamp = stamp
        self.carried = set()
        self.generic = False


_loops = []     # stack of active generic iterations


def touch(obj):
    """Called before obj is modified"""
    for lp in _loops:
        if obj.birth <= lp.stamp and id(obj) not in lp.carried:
            raise NeedCarry(('obj', obj))


def guard(obj=None):
    """Called before ghost state is modified: state that a loop without rule
    changes is not known"""
    for lp in _loops:
        if lp.generic and (obj is None or obj.birth <= lp.stamp):
            raise Unsupported('ghost state changed in a loop without rule')


def _ghosts():
    """plain mutable state of the running unit (its locals and objects of
    classes defined by units), by identity"""
    out, todo, seen = {}, [], set()
    f = sys._getframe(1)
    while f is not None:
        if f.f_globals.get('__name__', '').startswith('units.'):
            for n, v in f.f_locals.items():
                todo.append((v, n))
        f = f.f_back
    while todo:
        v, n = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        c = type(v)
        if c is list or c is set or c is dict:
            s = len(v)
            if c is not set:
                todo += [(x, n) for x in (v.values() if c is dict else v)]
        elif c is types.SimpleNamespace or (
                c.__module__.startswith('units.') and
                not isinstance(v, type) and hasattr(v, '__dict__')):
            d = v.__dict__
            s = {k: id(x) for k, x in d.items()}
            todo += [(x, n + '.' + k) for k, x in d.items()]
        elif c is types.FunctionType and v.__closure__ and \
                (v.__module__ or '').startswith('units.'):
            for k, x in zip(v.__code__.co_freevars, v.__closure__):
                try:
                    todo.append((x.cell_contents, k))
                except ValueError:
                    pass
            continue
        else:
            continue
        out[id(v)] = v, n, s
    return out


def _ghosts_kept(before):
    for v, n, s in before.values():
        if type(s) is int:
            same = len(v) == s
        else:
            d = v.__dict__
            same = len(d) == len(s) and all(
                k in d and id(d[k]) == i for k, i in s.items())
        if not same:
            raise Unsupported(f'ghost state {n} changed in a loop without '
                              'rule')


def touch_attr(obj, name):
    for lp in _loops:
        b = X.heap.get(id(obj))
        if (b is None or b <= lp.stamp) and \
                (id(obj), name) not in lp.carried:
            raise NeedCarry(('attr', obj, name))


class Carry:
    """State location that loop iterations change: function of the index"""

    def __init__(self, loc, init, codec=None, closed=None):
        self.loc = loc
        self.init = init
        self.codec = codec
        self.fun = None
        self.closed = closed    # closed form: index term -> value
        self.tried = set()
        self.st = {}
        self.in_body = True


def loc_key(loc):
    if loc[0] == 'local':
        return loc
    if loc[0] == 'attr':
        return ('attr', id(loc[1]), loc[2])
    return ('obj', id(loc[1]))


class Outcome:
    __slots__ = ('univs', 'wits', 'kind', 'value', 'cond', 'facts', 'emits', 'new', 'locals')


def run_loop(src, body, get, set_, names, site, is_while):
    """Entry point of transformed for/while loops; returns None, ('break',_)
    or ('return', value)"""
    names = [n for n in names]
    if is_while:
        if X.bound is None and X.while_rule:
            r = X.while_rule(site, body, get, set_, names)
            if r is not NotImplemented:
                return r
        if X.bound is not None or not generic_while(site):
            return _native_while(body, site)
        seg = Seg(z3.Const(X.name('g'), I), z3.IntVal(0), None,
                  [(z3.BoolVal(True), None)])
        return run_seg(seg, body, get, set_, names, site)
    if X.bound is None and X.for_rule:
        r = X.for_rule(site, src, body, get, set_, names)
        if r is not NotImplemented:
            return r
    if X.bound is None:
        key = X.loop_handlers.get(site) if hasattr(X, 'loop_handlers') \
            else None
        if key:
            return key(src, body, get, set_, names)
    parts = to_parts(src)
    for p in parts:
        if isinstance(p, list):
            for v in list(p):
                r = body(v)
                if r is not None:
                    if r[0] == 'stop':
                        return None
                    return r
        elif isinstance(p, Seg):
            r = run_seg(p, body, get, set_, names, site)
            if r is not None:
                return r
        else:
            raise Unsupported('iteration over opaque list')
    return None


def generic_while(site):
    return True


def _native_while(body, site):
    n = 0
    while True:
        r = body(None)
        if r is not None:
            return None if r[0] == 'stop' else r
        n += 1
        if X.bound is not None and n > X.bound + 6:
            raise Infeasible()
        if n > 2000:
            raise Unsupported('while loop bound')


def run_seg(seg, body, get, set_, names, site):
    # try natively if the loop is entirely concrete
    if seg.hi is None and seg.ordered:
        # while loop: run concrete iterations as long as no state forks
        r = _concrete_prefix(body, site)
        if r is not _SYMBOLIC:
            return r
    carries = {}
    for n in names:
        c = X.loop_carry.get((site, n)) if hasattr(X, 'loop_carry') else None
        if c:
            carries[('local', n)] = c
    stamp = _stamp()
    for attempt in range(60):
        mark_ob = len(X.obligations)
        try:
            outs = _explore_body(seg, body, get, set_, names, site, carries,
                                 stamp)
        except NeedCarry as e:
            del X.obligations[mark_ob:]
            _add_carry(carries, e.loc, get, set_)
            continue
        if _close_carries(seg, carries, outs):
            del X.obligations[mark_ob:]
            continue
        break
    else:
        raise Unsupported(f'loop {site}: carried state not resolved')
    return _finish(seg, outs, carries, get, set_, names, site)


_SYMBOLIC = object()


def _concrete_prefix(body, site):
    """Run a while loop natively while its control stays concrete.

    Only usable when nothing in the iteration forks; detected by checking
    whether decisions were made.  Aborts (and undoes) on first fork."""
    ex = X.explorer
    n = 0
    mark = X.mark()
    X.solver.push()
    sv_trace, sv_conds, sv_facts = (len(ex.trace), len(ex.conds),
                                    len(ex.facts))
    counter = X.counter
    nofork = X.nofork
    path_stamp = X.path_stamp
    X.path_stamp = X.stamp()
    X.nofork = True
    ob = len(X.obligations)
    try:
        while True:
            r = body(None)
            if r is not None:
                res = None if r[0] == 'stop' else r
                break
            n += 1
            if n > 200:
                raise Unsupported('concrete while loop too long')
    except ForkSeen:
        X.nofork = nofork
        X.path_stamp = path_stamp
        X.undo(mark)
        X.solver.pop()
        del ex.trace[sv_trace:], ex.conds[sv_conds:], ex.facts[sv_facts:]
        del X.obligations[ob:]
        X.counter = counter
        raise_if = None
        return _SYMBOLIC
    except BaseException:
        X.nofork = nofork
        X.path_stamp = path_stamp
        X.keep_since(mark, path_stamp)
        # keep effects, propagate (program exception)
        facts = [*ex.conds[sv_conds:], *ex.facts[sv_facts:]]
        X.solver.pop()
        for f in facts:
            X.solver.add(f)
        raise
    X.nofork = nofork
    X.path_stamp = path_stamp
    X.keep_since(mark, path_stamp)
    facts = [*ex.conds[sv_conds:], *ex.facts[sv_facts:]]
    X.solver.pop()
    for f in facts:
        X.solver.add(f)
    return res


def _cell(loc, init, get, set_, token):
    spec = X.carry_spec and X.carry_spec(loc, init)
    if not spec:
        return None
    cell = Cell(loc, init, spec, get, set_)
    c = Carry(('obj', cell), None)
    c.token = token
    return c


def _add_carry(carries, loc, get, set_):
    k = loc_key(loc)
    if k in carries:
        if _loops:
            raise NeedCarry(loc)    # of an enclosing loop
        raise Unsupported(f'carried twice: {loc!r:.80}')
    if loc[0] == 'local':
        try:
            init = get(loc[1])
        except NameError:
            raise Unsupported(f'loop local {loc[1]} read before assignment')
        if isinstance(init, Poison):
            raise NeedCarry(('local', init._n))
        if isinstance(init, (MList, MDict, MSet)) and not (
                X.carry_spec and X.carry_spec(loc, init)):
            raise Unsupported(f'rebinding of container local {loc[1]}')
        n = loc[1]
        carries[k] = _cell(loc, init, lambda: get(n), lambda v: set_(n, v),
                           loc) or Carry(loc, init)
    elif loc[0] == 'attr':
        if not hasattr(loc[1], loc[2]):
            raise Unsupported('carried attribute without initial value')
        init = getattr(loc[1], loc[2])
        o, n = loc[1], loc[2]
        carries[k] = _cell(loc, init, lambda: getattr(o, n),
                           lambda v: setattr_j(o, n, v), (id(o), n)) or \
            Carry(loc, init)
    else:
        obj = loc[1]
        if not hasattr(obj, '_havoc'):
            raise Unsupported(
                f'loop modifies {type(obj).__name__} shared by iterations')
        carries[k] = Carry(loc, None)


def _carry_value(c, k):
    if c.closed:
        return c.closed(k)
    if c.fun is None:
        c.codec = c.codec or infer_codec(c.init)
        saved = X.gstack
        X.gstack = saved[:-1] if c.in_body else saved
        c.fun = Fun(c.codec, f'carry.{c.loc[-1]}', I)
        X.gstack = saved
    return c.fun(k)


def _explore_body(seg, body, get, set_, names, site, carries, stamp):
    outs = []
    g = z3.Const(X.name('g'), seg.g.sort())
    X.solver.push()
    mark = X.mark()
    n_univ, n_wit = len(X.universals), len(X.witness_terms)
    n_gs = len(X.gstack)
    X.gstack.append(g)
    lp = Loop(stamp)
    lp.generic = True
    for c in carries.values():
        lp.carried.add(c.token if getattr(c, 'token', None) else
                       id(c.loc[1]) if c.loc[0] == 'obj' else
                       (id(c.loc[1]), c.loc[2]) if c.loc[0] == 'attr'
                       else c.loc)
    _loops.append(lp)
    saved_locals = {}
    for n in names:
        try:
            saved_locals[n] = get(n)
        except NameError:
            saved_locals[n] = _UNBOUND
    lists = [c.loc[1] for c in carries.values()
             if c.loc[0] == 'obj' and isinstance(c.loc[1], MList)]
    ghosts = _ghosts()
    try:
        X.assume(seg.dom(g), fact=False)
        add_index(g, seg.sp)

        def one():
            for n in names:
                set_(n, Poison(n))
            for c in carries.values():
                c.in_body = True
                if c.loc[0] == 'obj':
                    c.st['seg'] = seg
                    c.loc[1]._havoc(g, seg.lo, c.st)
                else:
                    v = _carry_value(c, g)
                    if c.loc[0] == 'local':
                        set_(c.loc[1], v)
                    else:
                        setattr_j(c.loc[1], c.loc[2], v)
            for inv in X.loop_invs.get(site, ()):
                X.assume(inv(LoopState(carries, g, False)))
            for gd, v in seg.at(g):
                if not z3.is_true(gd) and not X.decide(gd):
                    continue
                if isinstance(v, Seg):
                    r = run_seg(v, body, get, set_, names, site)
                else:
                    r = body(v)
                if r is not None:
                    return r
            return None

        def done(kind, value, ex):
            _ghosts_kept(ghosts)
            o = Outcome()
            if kind == 'ret':
                o.kind = 'cont' if value is None else value[0]
                o.value = value
            else:
                o.kind = kind
                o.value = value
            o.cond = z3.And(*ex.conds) if ex.conds else z3.BoolVal(True)
            o.facts = list(ex.facts)
            o.univs, o.wits = [], []
            if X.export:
                o.univs = _templates(X.universals[n_univ:])
                o.wits = [(t, sp) for t, sp, _ in X.witness_terms[n_wit:]
                          if not t.eq(g) and _mentions(t, g)]
            o.emits = {}
            for lst in lists:
                parts = lst.parts
                if not (parts and isinstance(parts[0], Opaque)):
                    raise Unsupported('list consumed inside loop')
                if any(isinstance(p, Opaque) for p in parts[1:]):
                    raise Unsupported('list prefix copied inside loop')
                o.emits[id(lst)] = parts[1:]
            o.new = {}
            for k, c in carries.items():
                if c.loc[0] == 'local':
                    o.new[k] = get(c.loc[1])
                elif c.loc[0] == 'attr':
                    o.new[k] = getattr(c.loc[1], c.loc[2])
                elif hasattr(c.loc[1], '_new_state'):
                    o.new[k] = c.loc[1]._new_state(c.st)
            o.locals = {}
            for n in names:
                try:
                    v = get(n)
                except NameError:
                    continue
                if not isinstance(v, Poison):
                    o.locals[n] = v
            if o.kind == 'cont':
                for c in carries.values():
                    if hasattr(c.loc[1], '_preserved'):
                        c.loc[1]._preserved(c.st, g)
                for i, inv in enumerate(X.loop_invs.get(site, ())):
                    X.prove(inv(LoopState(carries, g + 1, True, o.new)),
                            f'loop invariant {i} preserved at {site}')
            outs.append(o)

        X.explore(one, done)
    finally:
        for n, v in saved_locals.items():
            if v is not _UNBOUND:
                set_(n, v)
        _loops.pop()
        del X.gstack[n_gs:]
        X.undo(mark)
        X.solver.pop()
    for o in outs:
        o.cond = z3.substitute(o.cond, (g, seg.g)) if not g.eq(seg.g) \
            else o.cond
    p = [(g, seg.g)]
    for o in outs:
        o.facts = [tsub(f, p) for f in o.facts]
        o.univs = [(v, sp, tsub(f, p)) for v, sp, f in o.univs]
        o.wits = [(tsub(t, p), sp) for t, sp in o.wits]
        o.emits = {k: [[subst(i, p) for i in x] if isinstance(x, list)
                       else x._subst_(p) for x in v]
                   for k, v in o.emits.items()}
        o.new = {k: subst(v, p) for k, v in o.new.items()}
        o.locals = {k: subst(v, p) for k, v in o.locals.items()}
        if o.kind in ('return', 'break', 'stop'):
            o.value = (o.value[0], subst(o.value[1], p))
        elif o.kind == 'exc':
            o.value = subst_exc(o.value, p)
    return outs


def subst_exc(e, p):
    return e


_UNBOUND = object()


class LoopState:
    """Access to carried state for invariants"""

    def __init__(self, carries, k, after, new=None):
        self.carries, self.k, self.after, self.new = carries, k, after, new

    def attr(self, obj, name):
        k = ('attr', id(obj), name)
        if k not in self.carries:
            return getattr(obj, name)
        return self.new[k] if self.after else _carry_value(self.carries[k],
                                                           self.k)

    def local(self, name):
        k = ('local', name)
        if k not in self.carries:
            raise Unsupported(f'invariant needs carried local {name}')
        return self.new[k] if self.after else _carry_value(self.carries[k],
                                                           self.k)


def setattr_j(obj, name, v):
    birth = X.heap.get(id(obj), 0)
    if hasattr(obj, '__dict__') and name in obj.__dict__:
        old = obj.__dict__[name]
        X.on_undo(lambda: obj.__dict__.__setitem__(name, old), birth)
    else:
        X.on_undo(lambda: obj.__dict__.pop(name, None), birth)
    object.__setattr__(obj, name, v)


def _close_carries(seg, carries, outs):
    """Infer closed forms / widen codecs; True when exploration must be
    repeated"""
    g = seg.g
    conts = [o for o in outs if o.kind == 'cont']
    again = False
    for k, c in list(carries.items()):
        if c.loc[0] == 'obj':
            continue
        if c.closed:
            # verify inductiveness
            ok = True
            for o in conts:
                want = c.closed(g + 1)
                if not _entails_in(seg, o, eq(o.new[k], want)):
                    ok = False
                    break
            if not ok:
                c.closed = None
                c.fun = None
                _next_closed(seg, c, carries)
                again = True
            continue
        # codec must represent every new value
        for o in conts:
            nc = infer_codec(o.new[k], c.codec)
            if nc is not c.codec:
                c.codec = nc
                c.fun = None
                again = True
        if again:
            continue
        if 'init' not in c.tried:
            c.tried.add('init')
            c.cands = _candidates(seg, c, carries)
            if _next_closed(seg, c, carries):
                again = True
    return again


def _next_closed(seg, c, carries):
    if getattr(c, 'cands', None):
        c.closed = c.cands.pop(0)
        return True
    return False


def _candidates(seg, c, carries):
    init = c.init
    if isinstance(init, (bool, SymBool)):
        out = [lambda k: init]
        for d in carries.values():
            if d.loc[0] == 'obj' and hasattr(d.loc[1], '_bool_candidates'):
                out.extend(d.loc[1]._bool_candidates(d.st))
        return out
    if isinstance(init, (int, SymInt)) and seg.lo is not None:
        t = int_term(init)
        return [lambda k: init,
                lambda k: mkint(t + (k - seg.lo)),
                lambda k: mkint(t - (k - seg.lo))]
    return [lambda k: init]


def _entails_in(seg, o, what):
    X.solver.push()
    try:
        X.solver.add(seg.dom(seg.g), o.cond, *o.facts)
        return X.entails(what)
    finally:
        X.solver.pop()


def _finish(seg, outs, carries, get, set_, names, site):
    g = seg.g
    conts = [o for o in outs if o.kind == 'cont']
    exits = [o for o in outs if o.kind in ('break', 'stop', 'return', 'exc')]
    cuts = [o for o in outs if o.kind == 'cut']

    for c in carries.values():
        if hasattr(c.loc[1], '_initially'):
            c.loc[1]._initially(c.st)
    for i, inv in enumerate(X.loop_invs.get(site, ())):
        X.prove(inv(LoopState0(carries, seg.lo)),
                f'loop invariant {i} initially at {site}')

    def contcond():
        """formula over g: iteration g ends by continuing"""
        alts = [z3.And(o.cond, *o.facts) for o in conts]
        return z3.Or(*alts) if alts else z3.BoolVal(False)

    def recurrences(end):
        for k, c in carries.items():
            if c.loc[0] == 'obj':
                obj = c.loc[1]
                if isinstance(obj, MList):
                    f = c.st['len']
                    X.assume(f(seg.lo) == c.st['n0'])
                    rel = []
                    for o in conts:
                        add = z3.IntVal(0)
                        for p in o.emits.get(id(obj), ()):
                            if isinstance(p, list):
                                add = add + len(p)
                            else:
                                add = add + seg_count(p, p.hi)
                        rel.append(z3.Implies(o.cond, f(g + 1) == f(g) + add))
                    universal(g, seg_dom_upto(seg, end), z3.And(*rel)
                              if rel else z3.BoolVal(True), seg.sp)
                else:
                    obj._recur(seg, conts, end, c.st, k)
                continue
            if c.closed:
                continue
            _carry_value(c, seg.lo)
            init_ts = c.codec.flatten(c.init)
            for a, b in zip(c.fun.terms(seg.lo), init_ts):
                X.assume(a == b)
            rel = []
            for o in conts:
                new = c.codec.flatten(o.new[k])
                if new is None:
                    raise Unsupported('carried value kind')
                rel.append(z3.Implies(o.cond, z3.And(
                    *[a == b for a, b in zip(c.fun.terms(g + 1), new)])))
            universal(g, seg_dom_upto(seg, end),
                      z3.And(*rel) if rel else z3.BoolVal(True), seg.sp)

    def set_state(end, o=None, pairs=(), ex=None):
        """Program state after the iterations below `end` (and partial
        iteration o at end)"""
        for k, c in carries.items():
            if c.loc[0] == 'obj':
                obj = c.loc[1]
                if isinstance(obj, MList):
                    emits = []
                    for co in conts:
                        # facts make the guard exact for this alternative
                        cc = (z3.And(co.cond, *co.facts) if X.export
                              else co.cond)
                        for p in co.emits.get(id(obj), ()):
                            if isinstance(p, list):
                                emits.extend((cc, v) for v in p)
                            else:
                                emits.append((cc, p))
                    obj._touch()
                    if emits:
                        ns = Seg(g, seg.lo, end, emits, seg._dom,
                                 seg.ordered, seg.space)
                        ns.sp = seg.sp
                        ns.alts = all(_one_emit(co.emits.get(id(obj), ()))
                                      for co in conts)
                        obj.parts.append(ns)
                    if o is not None:
                        for p in o.emits.get(id(obj), ()):
                            if isinstance(p, list):
                                vals = [subst(v, pairs) for v in p]
                                if seg.ordered and seg.space is not None:
                                    obj.parts.append(Seg(
                                        g, end, end + 1,
                                        [(z3.BoolVal(True), v)
                                         for v in vals], None, True,
                                        seg.space))
                                else:
                                    obj.parts.append(vals)
                            else:
                                obj.parts.append(p._subst_(list(pairs)))
                else:
                    obj._set_after(end, c.st, o.new[k] if o else None,
                                   list(pairs), ex)
                continue
            if o is not None:
                v = subst(o.new[k], list(pairs))
            else:
                v = _carry_value(c, end)
            if c.loc[0] == 'local':
                set_(c.loc[1], v)
            else:
                setattr_j(c.loc[1], c.loc[2], v)
        for n in names:
            if ('local', n) in carries:
                continue
            if o is not None:
                if n in o.locals:
                    set_(n, subst(o.locals[n], list(pairs)))
                else:
                    _set_after_local(n, end, seg, conts, get, set_, site,
                                     pairs)
            else:
                _set_after_local(n, end, seg, conts, get, set_, site, ())

    for c in carries.values():
        c.in_body = False

    n_alt = len(exits) + (0 if seg.hi is None and seg.ordered else 1)
    if n_alt == 0:
        raise Cut()
    which = X.choose(n_alt, 'loopexit') if exits else 0
    if which < len(exits):
        o = exits[which]
        e = X.fresh('e', g.sort())
        X.assume(seg.dom(e))
        add_index(e, seg.sp)
        pairs = [(g, e)]
        g2 = z3.Const(X.name('g'), g.sort())
        before = (z3.And(g2 >= seg.lo, g2 < e) if seg.ordered
                  else z3.And(seg.dom(g2), g2 != e, _before(seg, e)(g2)))
        universal(g2, before, tsub(contcond(), [(g, g2)]), seg.sp)
        if seg.ordered:
            recurrences(e)
        else:
            if carries:
                _check_unordered(carries)
        X.assume(tsub(z3.And(o.cond, *o.facts), pairs))
        add_index_deep(e, seg.sp)
        set_state(e if seg.ordered else None, o, pairs, e)
        for inv in X.loop_invs.get(site, ()):
            X.assume(inv(LoopState(carries, e, False)))
        if o.kind == 'exc':
            raise o.value
        if o.kind == 'stop':
            return None
        if o.kind == 'return':
            return ('return', subst(o.value[1], pairs))
        return ('break', None)
    # all iterations completed
    end = seg.hi
    if seg.ordered:
        end = z3.If(seg.hi < seg.lo, seg.lo, seg.hi)
        end = z3.simplify(end)
        if not X.entails(seg.hi >= seg.lo):
            pass
        else:
            end = seg.hi
    if exits or cuts or any(o.facts for o in conts):
        g2 = z3.Const(X.name('g'), g.sort())
        universal(g2, seg.dom(g2), tsub(contcond(), [(g, g2)]), seg.sp)
    if seg.ordered:
        recurrences(end)
        if not end.eq(seg.lo):
            add_index(end, seg.sp)
    elif carries:
        _check_unordered(carries)
    set_state(end)
    if X.export:
        _export(seg, conts)
    if seg.ordered:
        for inv in X.loop_invs.get(site, ()):
            X.assume(inv(LoopState(carries, end, False)))
    return None


def _one_emit(parts):
    return sum(len(p) if isinstance(p, list) else 2 for p in parts) == 1


class LoopState0(LoopState):
    def __init__(self, carries, k):
        super().__init__(carries, k, False)

    def attr(self, obj, name):
        k = ('attr', id(obj), name)
        return self.carries[k].init if k in self.carries \
            else getattr(obj, name)

    def local(self, name):
        k = ('local', name)
        if k not in self.carries:
            raise Unsupported(f'invariant needs carried local {name}')
        return self.carries[k].init


def _before(seg, e):
    """visited-before relation of unordered iteration (uninterpreted)"""
    f = z3.Function(X.name('visited'), seg.g.sort(), B)
    return lambda k: f(k)


def _check_unordered(carries):
    for c in carries.values():
        if c.loc[0] == 'obj' and isinstance(c.loc[1], (MList, MDict, Cell)):
            continue
        raise Unsupported('state carried through unordered iteration')


def add_index_deep(e, sp=None):
    add_index(e, sp)


def seg_dom_upto(seg, end):
    if not seg.ordered:
        return seg.dom(seg.g)
    return z3.And(seg.g >= seg.lo, seg.g < end)


def _set_after_local(n, end, seg, conts, get, set_, site, pairs):
    """Value of a loop local after the loop (last iteration)"""
    if (site, n) in X.after_needed and seg.ordered:
        if X.decide(end > seg.lo):
            vals = [o for o in conts if n in o.locals]
            if len(conts) == len(vals) and vals:
                for o in vals[:-1]:
                    if X.decide(tsub(o.cond, [(seg.g, end - 1)])):
                        set_(n, subst(o.locals[n], [(seg.g, end - 1)]))
                        return
                set_(n, subst(vals[-1].locals[n], [(seg.g, end - 1)]))
                add_index(z3.simplify(end - 1), seg.sp)
                return
            raise Unsupported(f'loop local {n} used after loop')
        return
    set_(n, Poison(n, after=site))


def segment_bounds(seg):
    return seg.lo, seg.hi
