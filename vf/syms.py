"""Builders of symbolic domain values."""

import z3

from .core import (X, SymVal, SymOpt, SymInt, I, B, mkint, mkbool, lit,
                   bool_term, eq)
from .seqs import (IntC, BoolC, OpC, TupC, OptC, ConstC, UnionC, SymTup, Seg,
                   MList, Fun, fresh, universal, add_index)

S64 = (-(1 << 63), 1 << 63)
U64 = (0, 1 << 64)
US = (0, 1000000)

StrC = OpC('Str', str)
BytesC = OpC('Bytes', bytes)
JsonC = OpC('Json', object)
PayloadC = OpC('Payload', object)
TypeC = OpC('EventType', tuple)


def TsC(c):
    return TupC(c.Timestamp, IntC(*S64), IntC(*US))


def IdC(c):
    return TupC(c.EventId, IntC(*U64), IntC(*U64), IntC(*U64))


def EventC(c):
    """Event with opaque type and payload"""
    return TupC(c.Event, IdC(c), TypeC, TsC(c), OptC(TsC(c)), OptC(PayloadC))


def sym_int(name='n', lo=None, hi=None):
    return fresh(IntC(lo, hi), name)


def sym_bool(name='b'):
    return fresh(BoolC(), name)


def sym_str(name='s'):
    return fresh(StrC, name)


def sym_list(codec, name='l', lo=0, pytypes=(list,), as_tuple=False):
    """list of symbolic length (bounded mode: every length up to the bound)
    whose items are built by codec as functions of the index"""
    if X.bound is not None:
        n = X.choose(X.bound + 1, name + '.len')
        items = [fresh(codec, f'{name}[{i}]') for i in range(n)]
        return tuple(items) if as_tuple else MList(items, pytypes)
    n = X.fresh(name + '.len', I)
    X.assume(n >= lo)
    f = Fun(codec, name, I)

    def get(k):
        ts = f.terms(k)
        return codec.build(ts)
    facts = _facts_universal(codec, f, n)
    del facts
    if as_tuple:
        return SymTup(n, get)
    g = z3.Const(X.name('g'), I)
    ts = f.terms(g)
    if isinstance(codec, UnionC):
        em = codec.alternatives(ts)
    else:
        em = [(z3.BoolVal(True), codec.build(ts))]
    r = MList.of([Seg(g, z3.IntVal(0), n, em)], pytypes)
    r.fun = f
    r.n = n
    return r


def _facts_universal(codec, f, n):
    g = z3.Const(X.name('g'), I)
    fs = codec.facts(f.terms(g))
    if fs:
        universal(g, z3.And(g >= 0, g < n), z3.And(*fs))


def sym_tuple(codec, name='t'):
    return sym_list(codec, name, as_tuple=True)
