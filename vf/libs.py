"""The `_vc_` engine object, builtins and library models, module loader."""

import asyncio as _asyncio
import builtins
import collections as _collections
import contextlib as _contextlib
import datetime as _datetime
import enum
import functools as _functools
import importlib
import itertools as _itertools
import pathlib
import sys
import types
import typing

import z3

from . import core, seqs
from .core import (X, Ctl, Infeasible, Cut, Unsupported, Sym, SymBool,
                   SymInt, SymReal, SymVal, SymOpt, I, B, bool_term, int_term,
                   mkbool, mkint, not_, and_, or_, eq, lt, cmp, contains,
                   symbolic)
from .seqs import (MList, MDict, MSet, SymTup, Seg, DictView, Poison,
                   to_parts, native, len_term)
from .bytesm import SymBytes, StructModel, vc_bytes, ByteRun
from .transform import transform


# ------------------------------------------------------------- _vc_ object

MODEL_LIMITS = (TypeError, AttributeError,
                NotImplementedError, RecursionError, AssertionError,
                z3.Z3Exception)


class Coro:
    """Coroutine: call of a transformed async function, run when awaited"""

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw

    def run(self):
        return self.fn(*self.args, **self.kw)

    def close(self):
        pass


class VC:

    # -- loops

    def loop(self, src, fn, get, set_, names, site, is_while):
        if isinstance(src, SymOpt):
            src = src.force()
        return seqs.run_loop(src, fn, get, set_, names, site, is_while)

    def comp(self, kind, src, fn, site):
        lst = MList()
        X.emit_stack.append(lst)
        try:
            seqs.run_loop(src, fn, _noget, _noset, (), site, False)
        finally:
            _remove_id(X.emit_stack, lst)
        if X.hints:
            lst.parts = [seqs.interval(p) for p in lst.parts]
        if kind == 'set':
            return MSet(lst)
        if kind == 'dict':
            return vc_dict(lst)
        if kind == 'gen':
            return Gen(lst)
        return lst

    def comp_inner(self, it, fn, site):
        return seqs.run_loop(it, fn, _noget, _noset, (), site + '/inner',
                             False)

    def emit(self, v):
        X.emit_stack[-1].append(v)

    # -- generators

    def genlist(self):
        return Gen(MList())

    def yield_(self, y, v):
        y.lst.append(v)

    def yield_from(self, y, it):
        y.lst.extend(it)

    # -- async

    def await_(self, v):
        return await_(v)

    def async_(self, fn):
        @_functools.wraps(fn)
        def wrapper(*a, **k):
            return Coro(fn, a, k)
        wrapper._vc_async_ = True
        return wrapper

    # -- operators

    def cmp(self, op, a, b):
        return cmp(op, a, b)

    def chain(self, ops, left, *rights):
        r = True
        a = left
        for op, f in zip(ops, rights):
            b = f()
            r = cmp(op, a, b)
            if not r:
                return r
            a = b
        return r

    def not_(self, v):
        if isinstance(v, (SymBool, SymOpt)):
            return not_(v)
        return not v

    def bin(self, op, a, b):
        return binop(op, a, b)

    def aug(self, op, a, b):
        if isinstance(a, MList) and op == '+':
            a.extend(b)
            return a
        if isinstance(a, MSet) and op == '|':
            a.update(b)
            return a
        if isinstance(a, MSet) and op == '-':
            a.difference_update(b)
            return a
        return binop(op, a, b)

    def getitem(self, o, k):
        if isinstance(o, SymOpt):
            o = o.force()
        if isinstance(k, SymOpt) and not isinstance(o, MDict):
            k = k.force()
        if isinstance(o, (list, tuple)) and isinstance(k, SymInt):
            for i in range(-len(o), len(o)):
                if X.decide(k.t == i):
                    return o[i]
            raise IndexError('index out of range')
        if isinstance(o, dict) and symbolic(k):
            for k2, v in o.items():
                r = eq(k, k2)
                if r is True or (r is not False and X.decide(bool_term(r))):
                    return v
            raise KeyError('key')
        if isinstance(o, tuple) and isinstance(k, slice):
            return o[_conc_slice(k)]
        return o[k]

    def slice(self, a, b, c):
        return slice(*[i.force() if isinstance(i, SymOpt) else i
                       for i in (a, b, c)])

    def setattr(self, o, n, v):
        if isinstance(o, SymOpt):
            o = o.force()
        seqs.touch_attr(o, n)
        if hasattr(o, '__dict__') and not isinstance(o, type):
            _born(o)
            seqs.setattr_j(o, n, v)
        else:
            setattr(o, n, v)

    def setitem(self, o, k, v):
        if isinstance(o, SymOpt):
            o = o.force()
        o[k] = v

    def delitem(self, o, k):
        del o[k]

    def unpack(self, v, n, star):
        if isinstance(v, SymOpt):
            v = v.force()
        if star >= 0:
            items = v
            if isinstance(v, (SymTup, MList)) and star == n - 1:
                head = []
                ln = len_term(v)
                if not X.decide(ln >= star):
                    raise ValueError('not enough values to unpack')
                for i in range(star):
                    head.append(v[i])
                return [*head, vc_list(v[star:])]
            items = native(items)
            if len(items) < n - 1:
                raise ValueError('not enough values to unpack')
            tail = n - 1 - star
            end = len(items) - tail
            return [*items[:star], MList(items[star:end]), *items[end:]]
        if isinstance(v, SymTup):
            if not X.decide(v.n == n):
                raise ValueError('wrong number of values to unpack')
            return [v.get(z3.IntVal(i)) for i in range(n)]
        items = list(v) if isinstance(v, (tuple, list)) else native(v)
        if len(items) < n:
            raise ValueError(f'not enough values to unpack (expected {n}, '
                             f'got {len(items)})')
        if len(items) > n:
            raise ValueError(f'too many values to unpack (expected {n})')
        return items

    # -- displays

    def mklist(self, *parts):
        r = MList()
        for star, v in parts:
            if star:
                r.extend(v)
            else:
                r.append(v)
        return r

    def mkset(self, *parts):
        r = MSet()
        for star, v in parts:
            if star:
                r.update(v)
            else:
                r.add(v)
        return r

    def mktuple(self, *parts):
        if len(parts) > 1 and parts[-1][0] and \
                hasattr(parts[-1][1], '_prepend_') and \
                not any(star for star, _ in parts[:-1]):
            return parts[-1][1]._prepend_([v for _, v in parts[:-1]])
        return vc_tuple(self.mklist(*parts))

    def mkdict(self, *parts):
        r = MDict()
        for star, k, v in parts:
            if star:
                r.update(k)
            else:
                r[k] = v
        return r

    def fstr(self, *parts):
        if any(isinstance(p, (Sym, MList, MDict, SymTup)) or symbolic(p)
               for p in parts):
            if all(isinstance(p, str) or type(p) is SymVal and p.kind == 'Str'
                   for p in parts):
                return core.str_cat(parts)
            return SymVal(X.fresh('fstr', I), 'Str', str)
        return ''.join(str(p) for p in parts)

    def fmt(self, v, conv, spec):
        if symbolic(v) or symbolic(spec) or \
                isinstance(v, (Sym, MList, MDict, SymTup)):
            return SymVal(X.fresh('fmt', I), 'Str', str)
        if conv != -1:
            v = {'s': str, 'r': repr, 'a': ascii}[chr(conv)](v)
        return format(v, spec)

    def no_yield(self):
        raise Unsupported('yield of a context manager in a loop')

    def star(self, v):
        if isinstance(v, (MList, SymTup)) and not seqs.is_native(v):
            return [Spread(v)]
        return native(v)

    def varargs(self, v):
        if not any(isinstance(i, Spread) for i in v):
            return v
        if len(v) == 1:
            return v[0].v
        return vc_tuple(MList.of([p for i in v for p in (
            to_parts(i.v) if isinstance(i, Spread) else [[i]])]))

    def kwstar(self, v):
        if isinstance(v, MDict):
            return {k: x for k, x in v._conc()}
        return v

    def guard(self):
        e = sys.exc_info()[1]
        if isinstance(e, Ctl):
            raise e
        if isinstance(e, MODEL_LIMITS):
            # limit of a model, not to be handled by the code under contract
            raise Unsupported(f'{type(e).__name__}: {e}') from e

    def aborting(self):
        return isinstance(sys.exc_info()[1], (Ctl, *MODEL_LIMITS))

    def alias(self):
        return typing.Any


class Spread:
    """*args of symbolic length"""

    def __init__(self, v):
        self.v = v


def _remove_id(stack, lst):
    for i in range(len(stack) - 1, -1, -1):
        if stack[i] is lst:
            del stack[i]
            return


def _noget(n):
    raise NameError(n)


def _noset(n, v):
    raise NameError(n)


def _conc_slice(s):
    return slice(*[i.__index__() if isinstance(i, SymInt) else i
                   for i in (s.start, s.stop, s.step)])


def _born(o):
    if id(o) not in X.heap:
        b = seqs._stamp()
        X.heap[id(o)] = b
        i = id(o)
        keep.append(o)
        X.on_undo(lambda: X.heap.pop(i, None))


keep = []


def await_(v):
    if isinstance(v, Coro):
        return v.run()
    f = getattr(v, '_await_', None)
    if f:
        return f()
    if isinstance(v, SymOpt):
        return await_(v.force())
    raise TypeError(f'object {type(v).__name__} cannot be used in await')


def binop(op, a, b):
    if op == '+' and hasattr(b, '_prepend_') and type(a) is tuple:
        return b._prepend_(list(a))
    if isinstance(a, SymOpt):
        a = a.force()
    if isinstance(b, SymOpt):
        b = b.force()
    if op == '+':
        if isinstance(a, (tuple, SymTup)) and isinstance(b, (tuple, SymTup)) \
                and (isinstance(a, SymTup) or isinstance(b, SymTup)):
            return vc_tuple(MList.of([*to_parts(a), *to_parts(b)]))
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        if isinstance(a, int) and isinstance(b, (SymInt, SymReal)):
            return SymReal(z3.RealVal(a)) / b
        return a / b
    if op == '//':
        return a // b
    if op == '%':
        if isinstance(a, str):
            return SymVal(X.fresh('fmt', I), 'Str', str)
        return a % b
    if op == '<<':
        if isinstance(a, int) and isinstance(b, int):
            return a << b
        if isinstance(b, int):
            return a * (1 << b)
    if op == '>>':
        if isinstance(a, int) and isinstance(b, int):
            return a >> b
        if isinstance(b, int):
            return a // (1 << b)
    if op == '|':
        return a | b
    if op == '&':
        return a & b
    if op == '^':
        return a ^ b
    if op == '**':
        return a ** b
    raise Unsupported(f'operator {op}')


# ---------------------------------------------------------- generator lists

class Gen(MList):
    """Result of a generator: list consumed by next()"""

    def __init__(self, lst):
        self.lst = lst
        self.pytypes = (types.GeneratorType,)
        self.birth = lst.birth
        self.codec = None

    @property
    def parts(self):
        return self.lst.parts

    @parts.setter
    def parts(self, v):
        self.lst.parts = v

    def __bool__(self):
        return True

    def _touch(self):
        self.lst._touch()


# -------------------------------------------------------------- builtins

_PYTYPE = {SymInt: (int,), SymBool: (bool, int), SymReal: (float,),
           SymBytes: (bytes,)}


class TypeLike:
    """Callable builtin override that can be used in isinstance/annotations"""

    def __init__(self, pytype, fn):
        self.pytype, self.fn = pytype, fn
        self.__name__ = pytype.__name__

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def __getitem__(self, k):
        return typing.Any

    def __or__(self, o):
        return typing.Any

    __ror__ = __or__

    def __getattr__(self, n):
        return getattr(self.pytype, n)

    def __eq__(self, o):
        return o is self or o is self.pytype

    def __hash__(self):
        return hash(self.pytype)


def _unwrap_type(t):
    if isinstance(t, TypeLike):
        return t.pytype
    return t


_ABC = {}


def vc_isinstance(v, t):
    if isinstance(v, SymOpt):
        v = v.force()
    if isinstance(v, Poison):
        v._p()
    if isinstance(t, types.UnionType):
        t = typing.get_args(t)
    ts = t if isinstance(t, tuple) else (t,)
    ts = [_unwrap_type(i) for i in ts]
    f = getattr(v, '_isinstance_', None)
    for i in ts:
        if not isinstance(i, type):
            if f:
                r = f(i)
                if r:
                    return True
            continue
        if isinstance(v, Sym):
            if isinstance(v, SymVal):
                pts = (v.pytype,) if isinstance(v.pytype, type) else v.pytype
            else:
                pts = _PYTYPE.get(type(v), ())
                if f:
                    if f(i):
                        return True
                    continue
            if any(issubclass(p, i) for p in pts):
                return True
            if object in pts:
                if f:
                    if f(i):
                        return True
                    continue
                raise Unsupported(f'isinstance of opaque {v!r} {i}')
            continue
        if isinstance(v, (MList, MDict, MSet, SymTup)):
            if any(issubclass(p, i) for p in v.pytypes):
                return True
            continue
        if f:
            if f(i):
                return True
            continue
        if isinstance(v, i):
            return True
    return False


MSet.pytypes = (set,)
MDict.pytypes = (dict,)


def vc_len(x):
    if hasattr(x, '_len_'):
        return x._len_()
    if isinstance(x, SymOpt):
        x = x.force()
    f = getattr(x, '_len', None)
    if f:
        return f()
    if isinstance(x, MList):
        return mkint(len_term(x))
    if isinstance(x, MDict):
        return mkint(x.len_term())
    if isinstance(x, DictView):
        return mkint(x.d.len_term())
    if isinstance(x, MSet) and x.base is not None:
        n = X.fresh('setlen', I)
        X.assume(n >= 0)
        return mkint(n)
    if x is None or isinstance(x, (int, SymInt)):
        raise TypeError('object has no len()')
    return len(x)


def vc_list(x=()):
    if isinstance(x, Gen):
        r = MList.of([list(p) if isinstance(p, list) else p
                      for p in x.parts])
        return r
    return MList.of([list(p) if isinstance(p, list) else p
                     for p in to_parts(x)])


def vc_tuple(x=()):
    if isinstance(x, SymOpt):
        x = x.force()
    if isinstance(x, tuple):
        return tuple(x)
    if isinstance(x, SymTup):
        return x
    if isinstance(x, SymVal) and x.kind == 'EventType':
        return x
    ps = [p for p in to_parts(x) if not (isinstance(p, list) and not p)]
    if all(isinstance(p, list) for p in ps):
        return tuple(i for p in ps for i in p)
    ps = seqs.compact_parts(ps)
    if len(ps) == 1 and isinstance(ps[0], Seg) and ps[0].single() and \
            ps[0].ordered and ps[0].hi is not None:
        p = ps[0]
        t = SymTup(z3.simplify(z3.If(p.hi < p.lo, z3.IntVal(0),
                                     p.hi - p.lo)),
                   lambda k: p.item(z3.simplify(p.lo + k)))
        t.src = p
        return t
    # concatenation of concrete items and simple segments
    n = z3.IntVal(0)
    spans = []
    for p in ps:
        if isinstance(p, list):
            ln = z3.IntVal(len(p))
        elif isinstance(p, Seg) and p.single() and p.ordered:
            ln = z3.If(p.hi < p.lo, z3.IntVal(0), p.hi - p.lo)
        else:
            raise Unsupported('tuple of symbolic list')
        spans.append((n, ln, p))
        n = z3.simplify(n + ln)

    def get(k):
        for s, ln, p in spans:
            if X.decide(k < s + ln):
                if isinstance(p, list):
                    for i, v in enumerate(p[:-1]):
                        if X.decide(k - s == i):
                            return v
                    return p[-1]
                return p.item(z3.simplify(p.lo + k - s))
        raise Infeasible()
    return SymTup(n, get)


def vc_set(x=()):
    if hasattr(x, '_set_'):
        return x._set_()
    return MSet(x)


def vc_dict(*a, **kw):
    if len(a) > 1:
        raise TypeError()
    r = MDict()
    if a:
        x = a[0]
        if isinstance(x, (MDict, dict)):
            r.update(x)
        else:
            for p in to_parts(x):
                if isinstance(p, list):
                    for i in p:
                        k, v = vc.unpack(i, 2, -1)
                        r[k] = v
                else:
                    _dict_from_seg(r, p)
    r.update(**kw)
    return r


def _dict_from_seg(r, p):
    if r.log or r.base is not None:
        raise Unsupported('dict from mixed symbolic parts')
    r.base = SegMap(p)


class SegMap:
    """dict base given by a segment emitting (key, value) pairs: last wins"""

    def __init__(self, p):
        if len(p.emits) != 1:
            raise Unsupported('dict of multi emission segment')
        self.p = p
        gd, kv = p.emits[0]
        if not (isinstance(kv, tuple) and len(kv) == 2):
            raise Unsupported('dict item')
        self.kcodec = seqs.infer_codec(kv[0])
        self.vcodec = _IdC(self)
        self._last = None

    def dom(self, *ks):
        p = self.p
        key = self.kcodec.build(list(ks))
        b = X.fresh('haskey', B)
        g2 = z3.Const(X.name('g'), p.g.sort())

        def hit(k):
            gd, kv = p.at(k)[0]
            return z3.And(gd, bool_term(eq(kv[0], key)))
        w = X.fresh('kw', p.g.sort())
        if X.decide(z3.And(b, p.dom(w), hit(w))):
            seqs.add_index(w, p.sp)
            if p.ordered:
                seqs.universal(g2, z3.And(p.dom(g2), g2 > w),
                               z3.Not(hit(g2)), p.sp)
            # unordered: any of the items with the key
            self._last = w
            return z3.BoolVal(True)
        seqs.universal(g2, p.dom(g2), z3.Not(hit(g2)), p.sp)
        return z3.BoolVal(False)

    def val(self, *ks):
        return [self._last]

    def distinct(self):
        """keys of different items are proved to be different"""
        p = self.p
        i, j = X.fresh('i', p.g.sort()), X.fresh('j', p.g.sort())

        def fn():
            X.assume(z3.And(p.dom(i), p.dom(j), i != j))
            seqs.add_index(i, p.sp)
            seqs.add_index(j, p.sp)
            (a, (ka, _)), = p.at(i)
            (b, (kb, _)), = p.at(j)
            X.assume(z3.And(a, b, bool_term(eq(ka, kb))))
            return True
        alts = []

        def done(kind, value, ex):
            if X._check(timeout=20000) != z3.unsat:
                alts.append(kind)
        X.explore(fn, done)
        return not alts


class _IdC(seqs.Codec):
    sorts = (I,)

    def __init__(self, m):
        self.m = m

    def build(self, ts):
        return self.m.p.at(ts[0])[0][1][1]


def vc_int(x=0, *a):
    if isinstance(x, SymOpt):
        x = x.force()
    if isinstance(x, SymReal):
        return x.trunc()
    if isinstance(x, (SymInt,)):
        return x
    if isinstance(x, SymBool):
        return mkint(int_term(x))
    if isinstance(x, Sym):
        raise Unsupported('int of opaque')
    return int(x, *a)


def vc_float(x=0.0):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.t))
    return float(x)


def vc_bool(x=False):
    if isinstance(x, SymBool):
        return x
    return bool(x)


def vc_str(x='', encoding=None, *a):
    if isinstance(x, SymVal) and x.kind == 'Str':
        return x
    if isinstance(x, SymBytes):
        return x.decode()
    if isinstance(x, SymInt):
        f = z3.Function('str.of.int', I, I)(x.t)
        X.assume(z3.Function('int.of.str', I, I)(f) == x.t)
        return SymVal(f, 'Str', str)
    if isinstance(x, Sym) or symbolic(x):
        return SymVal(X.fresh('str', I), 'Str', str)
    if encoding is not None:
        return str(x, encoding, *a)
    return str(x)


def vc_round(x, n=None):
    if isinstance(x, SymReal):
        if n is not None:
            raise Unsupported('round digits')
        return x.round()
    if isinstance(x, SymInt):
        return x
    return round(x) if n is None else round(x, n)


def vc_abs(x):
    if isinstance(x, SymInt):
        return mkint(z3.If(x.t < 0, -x.t, x.t))
    return abs(x)


def vc_sorted(x, *, key=None, reverse=False):
    ps = [p for p in to_parts(x) if not (isinstance(p, list) and not p)]
    if all(isinstance(p, list) for p in ps):
        items = [i for p in ps for i in p]
        ks = [key(i) if key else i for i in items]
        out = []        # stable insertion sort with symbolic comparisons
        for k, i in zip(ks, items):
            pos = len(out)
            while pos > 0:
                a, b = out[pos - 1][0], k
                c = cmp('<', a, b) if reverse else cmp('<', b, a)
                if c:
                    pos -= 1
                else:
                    break
            out.insert(pos, (k, i))
        return MList([i for _, i in out])
    return sorted_seg(ps, key, reverse)


def sorted_seg(ps, key, reverse):
    """Sorted permutation of a symbolic list (contract of sorted):
    result[k] = source[perm(k)], perm a bijection, keys monotone, stable"""
    t = vc_tuple(MList.of(ps))
    if isinstance(t, tuple):
        raise Unsupported('sorted')
    n, item = t.n, t.get
    perm = z3.Function(X.name('perm'), I, I)
    inv = z3.Function(X.name('iperm'), I, I)

    part = getattr(t, 'src', None)
    lo = part.lo if part is not None else z3.IntVal(0)
    lsp = part.sp if part is not None else None
    sp = seqs.new_space()

    def inst(k):
        if k.sort() != I:
            return
        X.assume(z3.Implies(z3.And(k >= 0, k < n), z3.And(
            perm(k) >= 0, perm(k) < n, inv(perm(k)) == k)))
        seqs.derive(lo + perm(k), sp=lsp, via=sp)

    def inst_src(j):
        if j.sort() != I:
            return
        k = z3.simplify(j - lo)
        X.assume(z3.Implies(z3.And(k >= 0, k < n), z3.And(
            inv(k) >= 0, inv(k) < n, perm(inv(k)) == k)))
        seqs.derive(inv(k), sp=sp, via=sp)
    seqs.universal_hook(inst, sp, sp)
    seqs.universal_hook(inst_src, lsp, sp)
    g = z3.Const(X.name('g'), I)

    def kf(v):
        return key(v) if key else v
    seg = Seg(g, z3.IntVal(0), n, [(z3.BoolVal(True), item(perm(g)))])
    seg.sp = sp
    # keys of any two registered indices are ordered like the indices
    ga, gb = (z3.Const(X.name('g'), I) for _ in 'ab')

    def less():
        for t in (ga, gb):
            X.assume(z3.And(t >= 0, t < n))
            seqs.add_index(t, sp)
        x, y = kf(item(perm(ga))), kf(item(perm(gb)))
        return cmp('<', x, y) if reverse else cmp('<', y, x)
    lt_ = summarize(less)
    pair_universal(n, lambda a, b: z3.Implies(
        a < b, z3.Not(z3.substitute(lt_, (ga, a), (gb, b)))), sp)
    return MList.of([seg])


def summarize(fn):
    """condition under which fn() (which may fork) is true, as one term;
    fn must not create state"""
    alts = []

    def done(kind, value, ex):
        if kind != 'ret':
            if X._check(timeout=20000) == z3.unsat:
                return
            raise Unsupported(f'comparison ends by {kind} ({value!r:.60})')
        v = bool_term(value)
        if not z3.is_false(v):
            alts.append(z3.And(*ex.conds, v))
    X.explore(fn, done)
    return z3.simplify(z3.Or(*alts)) if alts else z3.BoolVal(False)


def pair_universal(n, f, sp=None):
    """for all a, b in [0, n): f(a, b), instantiated on pairs of indices"""
    ga, gb = (z3.Const(X.name('g'), I) for _ in 'ab')
    tm = z3.And(f(ga, gb), f(gb, ga))
    u = PairU(n, lambda a, b: z3.substitute(tm, (ga, a), (gb, b)), sp)
    X.universals.append(u)
    X.on_undo(lambda: X.universals.remove(u))
    for t, s, v in list(X.witness_terms):
        seqs._inst(u, t, s, v)


class PairU:
    def __init__(self, n, f, sp=None):
        self.n, self.f, self.sp = n, f, sp
        self.seen = []

    def inst(self, a):
        if a.sort() != I:
            return
        for b in self.seen:
            X.assume(z3.Implies(
                z3.And(a >= 0, a < self.n, b >= 0, b < self.n),
                self.f(a, b)))
        self.seen.append(a)
        X.on_undo(lambda: self.seen.pop())


def vc_reversed(x):
    ps = [p for p in to_parts(x) if not (isinstance(p, list) and not p)]
    out = []
    for p in reversed(ps):
        if isinstance(p, list):
            out.append(p[::-1])
        elif isinstance(p, Seg) and p.ordered and p.hi is not None:
            g2 = z3.Const(X.name('g'), I)
            k = z3.simplify(p.lo + p.hi - 1 - g2)
            out.append(Seg(g2, p.lo, p.hi, list(reversed(p.at(k)))))
        else:
            raise Unsupported('reversed')
    return MList.of(out)


def vc_zip(*its, strict=False):
    pss = [[p for p in to_parts(i) if not (isinstance(p, list) and not p)]
           for i in its]
    if all(isinstance(p, list) for ps in pss for p in ps):
        return MList(list(zip(*[[i for p in ps for i in p] for ps in pss])))
    cols = []
    n = None
    for i in its:
        if isinstance(i, CountModel):
            cols.append(lambda k, i=i: mkint(int_term(i.start) + k))
            continue
        t = vc_tuple(i)
        if isinstance(t, tuple):
            ln = z3.IntVal(len(t))
            t2 = t

            def get(k, t2=t2):
                for j, v in enumerate(t2):
                    if X.decide(k == j):
                        return v
                raise Infeasible()
        else:
            ln, get = t.n, t.get
        n = ln if n is None else z3.If(ln < n, ln, n)
        cols.append(get)
    g = z3.Const(X.name('g'), I)
    return MList.of([Seg(g, z3.IntVal(0), z3.simplify(n), [
        (z3.BoolVal(True), tuple(c(g) for c in cols))])])


def vc_enumerate(x, start=0):
    ps = [p for p in to_parts(x) if not (isinstance(p, list) and not p)]
    if all(isinstance(p, list) for p in ps):
        return MList(list(enumerate([i for p in ps for i in p], start)))
    t = vc_tuple(x)
    g = z3.Const(X.name('g'), I)
    return MList.of([Seg(g, z3.IntVal(0), t.n, [
        (z3.BoolVal(True), (mkint(g + int_term(start)), t.get(g)))])])


def vc_range(*a):
    a = [i.force() if isinstance(i, SymOpt) else i for i in a]
    if all(isinstance(i, int) for i in a):
        return range(*a)
    if len(a) == 1:
        lo, hi = 0, a[0]
    else:
        lo, hi = a[:2]
        if len(a) == 3 and a[2] != 1:
            raise Unsupported('range step')
    g = z3.Const(X.name('g'), I)
    return MList.of([Seg(g, int_term(lo), int_term(hi),
                         [(z3.BoolVal(True), mkint(g))])])


def vc_any(x):
    r = []

    def body(v):
        if v:
            return ('return', True)
    r = seqs.run_loop(x, body, _noget, _noset, (), 'builtins:any', False)
    return bool(r)


def vc_all(x):
    def body(v):
        if not v:
            return ('return', False)
    r = seqs.run_loop(x, body, _noget, _noset, (), 'builtins:all', False)
    return not r


_MISSING = object()


def _minmax(op, a, key, default):
    if len(a) > 1:
        items = list(a)
    else:
        ps = to_parts(a[0])
        if not all(isinstance(p, list) for p in ps):
            return _minmax_seg(op, a[0], key, default)
        items = [i for p in ps for i in p]
    if not items:
        if default is not _MISSING:
            return default
        raise ValueError('arg is an empty sequence')
    best = items[0]
    for i in items[1:]:
        x, y = (key(i), key(best)) if key else (i, best)
        if isinstance(x, SymInt) or isinstance(y, SymInt):
            if not key:
                c = bool_term(cmp(op, x, y))
                best = mkint(z3.If(c, int_term(x), int_term(y)))
                continue
        if cmp(op, x, y):
            best = i
    return best


def _minmax_seg(op, x, key, default):
    """contract of min/max over a symbolic list: an item such that none is
    better"""
    lst = x if isinstance(x, MList) else MList.of(to_parts(x))
    if not MList.__bool__(lst):
        if default is not _MISSING:
            return default
        raise ValueError('arg is an empty sequence')
    if len(lst.parts) != 1 or any(isinstance(v, Seg)
                                  for _, v in lst.parts[0].emits):
        raise Unsupported('min/max of composed list')
    p = lst.parts[0]
    w = X.fresh('best', p.g.sort())
    X.assume(p.dom(w))
    em = p.at(w)
    i = X.choose(len(em), 'best')
    X.assume(em[i][0])
    seqs.add_index(w, p.sp)
    v = em[i][1]
    g2 = z3.Const(X.name('g'), p.g.sort())

    def better(u):
        def f():
            X.assume(z3.And(p.dom(g2), gd))
            seqs.add_index(g2, p.sp)
            a, b = (key(u), key(v)) if key else (u, v)
            return cmp(op, a, b)
        return summarize(f)
    for gd, u in p.at(g2):
        seqs.universal(g2, z3.And(p.dom(g2), gd), z3.Not(better(u)), p.sp)
    return v


def vc_max(*a, key=None, default=_MISSING):
    return _minmax('>', a, key, default)


def vc_min(*a, key=None, default=_MISSING):
    return _minmax('<', a, key, default)


def vc_sum(x, start=0):
    r = start
    for i in native(x):
        r = binop('+', r, i)
    return r


def vc_iter(x, *a):
    if a:
        raise Unsupported('iter sentinel')
    if isinstance(x, Gen):
        return x
    return Gen(MList.of(to_parts(x)))


def vc_next(x, *d):
    if isinstance(x, SymOpt):
        x = x.force()
    f = getattr(x, '_next_', None)
    if f:
        return f()
    if isinstance(x, Gen):
        try:
            if all(isinstance(p, list) or p.single() for p in x.parts):
                return x.popleft()
            v = seqs.first_item(x.parts)
        except IndexError:
            if d:
                return d[0]
            raise StopIteration() from None
        x.parts = [seqs.Opaque(X.fresh('rest', I))]
        return v
    return next(x, *d)


def vc_map(f, *its):
    def body(v):
        vc.emit(f(*v) if len(its) > 1 else f(v))
    return vc.comp('gen', vc_zip(*its) if len(its) > 1 else its[0], body,
                   'builtins:map')


def vc_filter(f, it):
    def body(v):
        if f(v) if f else v:
            vc.emit(v)
    return vc.comp('gen', it, body, 'builtins:filter')


def vc_print(*a, **k):
    pass


def vc_repr(x):
    return vc.fstr(x)


def vc_hash(x):
    return hash(x)


def vc_getattr(o, n, *d):
    if isinstance(o, SymOpt):
        o = o.force()
    return getattr(o, n, *d)


def vc_setattr(o, n, v):
    vc.setattr(o, n, v)


vc = VC()

BUILTINS = dict(builtins.__dict__)
BUILTINS.update({
    'len': vc_len, 'isinstance': vc_isinstance, 'sorted': vc_sorted,
    'set': TypeLike(set, vc_set), 'dict': TypeLike(dict, vc_dict),
    'list': TypeLike(list, vc_list), 'tuple': TypeLike(tuple, vc_tuple),
    'frozenset': TypeLike(frozenset, vc_set),
    'bytes': TypeLike(bytes, vc_bytes), 'str': TypeLike(str, vc_str),
    'bytearray': TypeLike(bytearray, vc_bytes),
    'memoryview': TypeLike(memoryview, vc_bytes),
    'int': TypeLike(int, vc_int), 'float': TypeLike(float, vc_float),
    'bool': TypeLike(bool, vc_bool), 'round': vc_round, 'abs': vc_abs,
    'zip': vc_zip, 'enumerate': vc_enumerate, 'range': vc_range,
    'any': vc_any, 'all': vc_all, 'max': vc_max, 'min': vc_min,
    'sum': vc_sum, 'iter': vc_iter, 'next': vc_next, 'map': vc_map,
    'filter': vc_filter, 'reversed': vc_reversed, 'print': vc_print,
    'repr': vc_repr, 'getattr': vc_getattr, 'setattr': vc_setattr,
})


# ------------------------------------------------------------ itertools

class CountModel:
    def __init__(self, start=0, step=1):
        if step != 1:
            raise Unsupported('count step')
        self.start = start
        self.birth = seqs._stamp()

    def _next_(self):
        seqs.touch_attr(self, 'start')
        v = self.start
        _born_as(self, self.birth)
        seqs.setattr_j(self, 'start', binop('+', v, 1))
        return v

    def _parts_(self):
        g = z3.Const(X.name('g'), I)
        return [Seg(g, z3.IntVal(0), None, [
            (z3.BoolVal(True), mkint(int_term(self.start) + g))])]


def _born_as(o, stamp):
    if id(o) not in X.heap:
        X.heap[id(o)] = stamp
        keep.append(o)
        i = id(o)
        X.on_undo(lambda: X.heap.pop(i, None))


class Chain:
    def __call__(self, *its):
        r = MList()
        for i in its:
            r.extend(i)
        return Gen(r)

    def from_iterable(self, its):
        def body(v):
            X.emit_stack[-1].extend(v)
        return vc.comp('gen', its, body, 'itertools:chain.from_iterable')


def it_takewhile(f, it):
    def body(v):
        if f(v):
            vc.emit(v)
            return None
        return ('break', None)
    return vc.comp('gen', it, body, 'itertools:takewhile')


def it_dropwhile(f, it):
    ps = [p for p in to_parts(it) if not (isinstance(p, list) and not p)]
    if not ps:
        return Gen(MList())
    if all(isinstance(p, list) for p in ps):
        items = [i for p in ps for i in p]
        while items and f(items[0]):
            items.pop(0)
        return Gen(MList(items))
    # explicit: index of first item not satisfying f
    return Gen(_dropwhile_parts(f, ps))


def _dropwhile_parts(f, ps):
    out = []
    ps = list(ps)
    while ps:
        p = ps.pop(0)
        if isinstance(p, list):
            while p and f(p[0]):
                p = p[1:]
            if p:
                return MList.of([p, *ps])
            continue
        if not p.ordered:
            raise Unsupported('dropwhile of unordered')
        if not p.single():
            p = seqs.compact(p)
        q = p.clone(emits=[(gd, (mkint(p.g), v)) for gd, v in p.emits])
        q.alts, q.sp = p.alts, p.sp

        def body(v):
            if not f(v[1]):
                return ('return', v[0])
        r = seqs.run_loop(MList.of([q]), body, _noget, _noset, (),
                          'itertools:dropwhile', False)
        if r:
            rest = p.clone(lo=int_term(r[1]))
            rest.sp = p.sp
            return MList.of([rest, *ps])
    return MList.of(out)


def it_islice(it, *a):
    a = [i.force() if isinstance(i, SymOpt) else i for i in a]
    if len(a) == 1:
        if a[0] is None:
            return Gen(MList.of(to_parts(it)))
        return Gen(seqs.take(it, a[0]))
    if len(a) == 2:
        r = seqs.drop(it, a[0] or 0)
        if a[1] is not None:
            r = seqs.take(r, binop('-', a[1], a[0] or 0))
        return Gen(r)
    raise Unsupported('islice')


def it_groupby(it, key=None):
    items = native(it)
    out = []
    for i in items:
        k = key(i) if key else i
        if out:
            r = eq(out[-1][0], k)
            if r is True or (r is not False and X.decide(bool_term(r))):
                out[-1][1].append(i)
                continue
        out.append((k, MList([i])))
    return Gen(MList([(k, Gen(v)) for k, v in out]))


itertools_model = types.SimpleNamespace(
    chain=Chain(), takewhile=it_takewhile, dropwhile=it_dropwhile,
    islice=it_islice, count=CountModel, groupby=it_groupby,
    filterfalse=lambda f, it: vc_filter(lambda v: not_(f(v)), it))


# ---------------------------------------------------------- collections

class DequeModel(TypeLike):
    pass


def vc_deque(x=(), maxlen=None):
    r = vc_list(x)
    r.pytypes = (_collections.deque,)
    return r


def vc_defaultdict(default=None, *a, **k):
    r = vc_dict(*a, **k)
    r.default = default
    r.pytypes = (dict, _collections.defaultdict)
    return r


collections_model = types.SimpleNamespace(
    deque=TypeLike(_collections.deque, vc_deque),
    defaultdict=TypeLike(_collections.defaultdict, vc_defaultdict),
    OrderedDict=TypeLike(dict, vc_dict),
    namedtuple=_collections.namedtuple)


class PartialModel:
    def __init__(self, fn, *a, **k):
        self.func, self.args, self.keywords = fn, a, k

    def __call__(self, *a, **k):
        return self.func(*self.args, *a, **{**self.keywords, **k})


functools_model = types.SimpleNamespace(
    partial=PartialModel,
    lru_cache=lambda *a, **k: (a[0] if a and callable(a[0]) else
                               (lambda fn: fn)),
    cache=lambda fn: fn,
    wraps=_functools.wraps,
    reduce=lambda f, it, *a: _functools.reduce(f, native(it), *a),
    cmp_to_key=_functools.cmp_to_key)


class Suppress:
    def __init__(self, *ts):
        self.ts = ts

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if isinstance(e, MODEL_LIMITS):
            raise Unsupported(f'{type(e).__name__}: {e}') from e
        return e is not None and not isinstance(e, Ctl) and isinstance(
            e, self.ts)


contextlib_model = types.SimpleNamespace(
    suppress=Suppress, closing=_contextlib.closing,
    contextmanager=_contextlib.contextmanager,
    # await points of the function are part of its sequential run
    asynccontextmanager=_contextlib.contextmanager)


# ------------------------------------------------------------ json, util

def util_first(xs, fn=None, default=None):
    def body(v):
        if fn is None or fn(v):
            return ('return', v)
    r = seqs.run_loop(xs, body, _noget, _noset, (), 'hat.util:first', False)
    return r[1] if r else default


class JsonModel:
    """hat.json: encode/decode are assumed inverse; data is opaque"""

    def __init__(self, real):
        self._real = real

    def encode(self, data, format=None, indent=None):
        return JsonText(data)

    def decode(self, text, format=None):
        if isinstance(text, JsonText):
            d = text.data
            if isinstance(d, SymTup):
                return MList.of([d.seg()])
            return d
        if isinstance(text, Sym):
            return SymVal(_jdec(text.t), 'Json')
        return self._real.decode(text)

    def get(self, data, path, default=None):
        if isinstance(data, (MDict, MList)) or isinstance(data, Sym):
            raise Unsupported('json.get of symbolic data')
        return self._real.get(data, path, default)

    def __getattr__(self, n):
        return getattr(self._real, n)


_jdec = z3.Function('jsondecode', I, I)


class JsonText(Sym):
    """json.encode(data) : text"""
    __slots__ = ('data',)

    def __init__(self, data):
        self.data = data

    def encode(self, *a, **k):
        from .bytesm import Enc
        return SymBytes([Enc('utf8', self)])

    def __eq__(self, o):
        if isinstance(o, JsonText):
            return eq(self.data, o.data)
        return False

    __hash__ = Sym.__hash__

    def _subst_(self, pairs):
        return JsonText(seqs.subst(self.data, pairs))

    def _isinstance_(self, t):
        return t is str


# --------------------------------------------------------------- loader

class Stub:
    """Attribute bag for external modules that are only referenced"""

    def __init__(self, name):
        self._name = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Stub(f'{self._name}.{n}')

    def __call__(self, *a, **k):
        raise Unsupported(f'external call {self._name}')

    def __or__(self, o):
        return typing.Any

    __ror__ = __or__

    def __mro_entries__(self, bases):
        return ()


class NullLog:
    def __getattr__(self, n):
        return lambda *a, **k: None


logging_model = types.SimpleNamespace(
    getLogger=lambda *a: NullLog(),
    LoggerAdapter=lambda *a, **k: NullLog(),
    Logger=object, DEBUG=10, INFO=20, WARNING=30, ERROR=40,
    config=types.SimpleNamespace(dictConfig=lambda c: None))


class _EnumMeta(enum.EnumMeta):
    def __call__(cls, value, names=None, *a, **kw):
        if names is None:
            return super().__call__(value, *a, **kw)
        if isinstance(names, (MList, MDict)):
            names = native(names)
        return super().__call__(value, names, *a, **kw)


class _Enum(enum.Enum, metaclass=_EnumMeta):
    pass


enum_model = types.SimpleNamespace(**{
    k: getattr(enum, k) for k in dir(enum) if not k.startswith('__')})
enum_model.Enum = _Enum


class Registry:
    """Transformed copies of the hat.event modules, from the staged tree"""

    def __init__(self, root, models=None):
        self.root = pathlib.Path(root)
        self.mods = {}
        self.models = {
            'struct': StructModel, 'itertools': itertools_model,
            'collections': collections_model,
            'functools': functools_model, 'contextlib': contextlib_model,
            'logging': logging_model, 'logging.config': logging_model,
            'enum': enum_model}
        self.models.update(models or {})
        self.hat = types.ModuleType('hat')
        self.mods['hat'] = self.hat
        import hat.json
        import hat.sbs
        import hat.util
        um = types.SimpleNamespace(**{
            k: getattr(hat.util, k) for k in dir(hat.util)
            if not k.startswith('__')})
        um.first = util_first
        self.hat.json = self.models.get('hat.json', JsonModel(hat.json))
        self.hat.util = um
        self.hat.sbs = hat.sbs
        if 'hat.aio' in self.models:
            self.hat.aio = self.models['hat.aio']
        self.sources = {}

    def extraction_report(self):
        """what was extracted: module -> sha256 of the source verified"""
        import hashlib
        return {n: hashlib.sha256(str(t).encode()).hexdigest()[:16]
                for n, t in sorted(self.sources.items())}

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            raise Unsupported('relative import')
        if name == 'hat' or name.startswith('hat.'):
            if name.startswith('hat.event'):
                try:
                    m = self.load(name)
                except FileNotFoundError:
                    raise ImportError(name) from None
            elif name == 'hat':
                m = self.hat
            else:
                m = self.models.get(name)
                if m is None:
                    m = importlib.import_module(name)
                parts = name.split('.')[1:]
                o = self.hat
                for p in parts[:-1]:
                    if not hasattr(o, p):
                        setattr(o, p, types.SimpleNamespace())
                    o = getattr(o, p)
                if not hasattr(o, parts[-1]):
                    setattr(o, parts[-1], m)
                m = getattr(o, parts[-1])
            if not fromlist:
                return self.hat
            for f in fromlist:
                if f == '*' or hasattr(m, f):
                    continue
                sub = f'{name}.{f}'
                if name.startswith('hat.event'):
                    try:
                        setattr(m, f, self.load(sub))
                    except FileNotFoundError:
                        raise ImportError(sub) from None
                elif name == 'hat':
                    if sub == 'hat.event':
                        self.load(sub)
                        continue
                    setattr(m, f, self.models.get(sub) or
                            importlib.import_module(sub))
                else:
                    setattr(m, f, importlib.import_module(sub))
            return m
        top = name.split('.')[0]
        if name in self.models:
            return self.models[name]
        if top in self.models and not fromlist:
            return self.models[top]
        if top == 'lmdb':
            return Stub('lmdb')
        if top in ('hat', ):
            raise Unsupported(name)
        r = importlib.import_module(name)
        if fromlist:
            return r
        return sys.modules[top]

    def path(self, name):
        p = self.root.joinpath(*name.split('.'))
        if (p / '__init__.py').exists():
            return p / '__init__.py', True
        if p.with_suffix('.py').exists():
            return p.with_suffix('.py'), False
        if p.is_dir():
            return None, True
        raise FileNotFoundError(name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent, _, leaf = name.rpartition('.')
        if parent and parent not in self.mods:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        path, pkg = self.path(name)
        m = types.ModuleType(name)
        self.mods[name] = m
        if path is not None:
            m.__file__ = str(path)
            if pkg:
                m.__path__ = [str(path.parent)]
            m.__package__ = name if pkg else parent
            src = path.read_text()
            self.sources[name] = src
            tree = transform(src, str(path), name)
            b = dict(BUILTINS)
            b['__import__'] = self.import_
            m.__dict__['__builtins__'] = b
            m.__dict__['_vc_'] = vc
            saved = X.journal, list(seqs._loops), X.path_stamp
            X.journal, X.path_stamp = [], 0
            seqs._loops.clear()
            try:
                exec(compile(tree, str(path), 'exec', dont_inherit=True),
                     m.__dict__)
            finally:
                X.journal, seqs._loops[:], X.path_stamp = saved
        if parent:
            setattr(self.mods[parent], leaf, m)
        return m
