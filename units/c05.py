"""C05: conversions of timestamps.

bytes, SBS   decoding inverts encoding over the whole range, bytes are ordered
             as timestamps;
datetime     inverse over the range of datetime (integer days, seconds and
             microseconds), any time zone;
float        nearest microsecond, reals for floats;
add          exact microseconds, normalized."""

import z3

from vf import dtm, libs
from vf.unit import unit, cover
from vf.core import (X, SymReal, eq, lt, not_, and_, or_, implies, iff, cmp,
                     bool_term, int_term, I)
from vf.seqs import fresh
from vf.syms import TsC, sym_int

ENC = 'common.encoder:'


def mods(m):
    c = m.load('hat.event.common.common')
    e = m.load('hat.event.common.encoder')
    e.datetime = dtm.datetime_model
    return c, e


@unit('C05', [ENC + 'timestamp_to_bytes', ENC + 'timestamp_from_bytes'])
def bytes_roundtrip(m):
    c, e = mods(m)
    t = fresh(TsC(c), 't')
    b = e.timestamp_to_bytes(t)
    X.prove(eq(libs.vc_len(b), 12), '12 bytes')
    X.prove(eq(e.timestamp_from_bytes(b), t), 'from_bytes(to_bytes(t)) == t')


@unit('C05', [ENC + 'timestamp_to_bytes'])
def bytes_order(m):
    c, e = mods(m)
    t = fresh(TsC(c), 't')
    u = fresh(TsC(c), 'u')
    a, b = e.timestamp_to_bytes(t), e.timestamp_to_bytes(u)
    X.prove(iff(a < b, cmp('<', t, u)), 'byte order is timestamp order')
    X.prove(iff(eq(a, b), eq(t, u)), 'distinct timestamps, distinct bytes')


@unit('C05', [ENC + 'timestamp_to_sbs', ENC + 'timestamp_from_sbs'])
def sbs_roundtrip(m):
    c, e = mods(m)
    t = fresh(TsC(c), 't')
    d = e.timestamp_to_sbs(t)
    X.prove(eq(e.timestamp_from_sbs(d), t), 'from_sbs(to_sbs(t)) == t')


@unit('C05', [ENC + 'timestamp_to_datetime', ENC + 'timestamp_from_datetime'])
def datetime_roundtrip(m):
    c, e = mods(m)
    t = fresh(TsC(c), 't')
    X.assume(z3.And(t.s.t >= dtm.MIN_S, t.s.t <= dtm.MAX_S))
    d = e.timestamp_to_datetime(t)
    X.prove(d.us == t.s.t * 1000000 + t.us.t, 'datetime of same instant')
    X.prove(d.aware and z3.simplify(d.off).eq(z3.IntVal(0)),
            'datetime in utc')
    X.prove(eq(e.timestamp_from_datetime(d), t),
            'from_datetime(to_datetime(t)) == t')


@unit('C05', [ENC + 'timestamp_from_datetime'])
def from_datetime(m):
    c, e = mods(m)
    us = X.fresh('us', I)
    off = X.fresh('off', I)
    X.assume(z3.And(us + off >= dtm.MIN_S * 1000000,
                    us + off < (dtm.MAX_S + 1) * 1000000))
    X.assume(z3.And(off > -86400000000, off < 86400000000))
    if X.decide(X.fresh('naive', z3.BoolSort())):
        X.assume(off == 0)
        d = dtm.DTM(us, False)
    else:
        d = dtm.DTM(us, True, off)
    r = e.timestamp_from_datetime(d)
    X.prove(and_(cmp('>=', r.us, 0), cmp('<', r.us, 1000000)), 'normalised')
    X.prove(int_term(r.s) * 1000000 + int_term(r.us) == us, 'same instant')


def _real(t):
    return (z3.ToReal(int_term(t.s)) +
            z3.ToReal(int_term(t.us)) / z3.RealVal(1000000))


HALF = z3.RealVal('1/2000000')


@unit('C05', [ENC + 'timestamp_from_float'],
      assumes=['floats are treated as mathematical reals'])
def from_float(m):
    c, e = mods(m)
    x = X.fresh('x', z3.RealSort())
    r = e.timestamp_from_float(SymReal(x))
    X.prove(and_(cmp('>=', r.us, 0), cmp('<', r.us, 1000000)), 'normalised')
    X.prove(z3.And(_real(r) - x <= HALF, x - _real(r) <= HALF),
            'nearest microsecond')


@unit('C05', [ENC + 'timestamp_to_float'],
      assumes=['floats are treated as mathematical reals'])
def to_float(m):
    c, e = mods(m)
    t = fresh(TsC(c), 't')
    r = e.timestamp_to_float(t)
    X.prove(eq(r, SymReal(_real(t))), 'exact seconds')
    X.prove(eq(e.timestamp_from_float(r), t), 'from_float(to_float(t)) == t')


@unit('C05', ['common.common:Timestamp.add'],
      assumes=['floats are treated as mathematical reals'])
def add(m):
    c, e = mods(m)
    t = fresh(TsC(c), 't')
    x = X.fresh('x', z3.RealSort())
    r = t.add(SymReal(x))
    X.prove(and_(cmp('>=', r.us, 0), cmp('<', r.us, 1000000)), 'normalised')
    d = _real(r) - _real(t) - x
    X.prove(z3.And(d <= HALF, -d <= HALF), 'nearest microsecond')


@unit('C05', ['common.common:Timestamp.add'])
def add_int(m):
    c, e = mods(m)
    t = fresh(TsC(c), 't')
    n = sym_int('n')
    r = t.add(n)
    X.prove(and_(eq(r.s, t.s + n), eq(r.us, t.us)), 'whole seconds added')
