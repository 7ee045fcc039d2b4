"""Model of datetime: instants as (seconds since epoch, microseconds)."""

import datetime as _dt
import types

import z3

from .core import (X, Unsupported, Sym, SymInt, SymReal, SymOpt, I, B,
                   int_term, mkint, mkbool)
from .seqs import SymVal

MIN_S = -62135596800
MAX_S = 253402300799
_FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second')
_F = {n: z3.Function('dt_' + n, I, I) for n in _FIELDS}
_SECS = z3.Function('dt_secs', I, I, I, I, I, I, I)
UTC = _dt.timezone.utc


class TD(Sym):
    """timedelta: total microseconds"""
    __slots__ = ('us',)

    def __init__(self, us):
        self.us = us

    @property
    def days(self):
        return mkint(self.us / 86400000000)

    @property
    def seconds(self):
        return mkint((self.us % 86400000000) / 1000000)

    @property
    def microseconds(self):
        return mkint(self.us % 1000000)

    def total_seconds(self):
        return _float_secs(self.us)

    def __floordiv__(self, o):
        if isinstance(o, TD):
            d = z3.simplify(o.us)
            if z3.is_int_value(d) and d.as_long() > 0:
                return mkint(self.us / d)
        elif isinstance(o, int) and o > 0:
            return TD(self.us / o)
        raise Unsupported('timedelta division')

    def __mod__(self, o):
        if isinstance(o, TD):
            d = z3.simplify(o.us)
            if z3.is_int_value(d) and d.as_long() > 0:
                return TD(self.us % d)
        raise Unsupported('timedelta modulo')

    def __add__(self, o):
        if isinstance(o, DTM):
            return o + self
        return TD(self.us + o.us)

    def __sub__(self, o):
        return TD(self.us - o.us)

    def __neg__(self):
        return TD(-self.us)

    def __mul__(self, o):
        return TD(self.us * int_term(o))

    __rmul__ = __mul__

    def __eq__(self, o):
        return mkbool(self.us == o.us) if isinstance(o, TD) else False

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        return mkbool(self.us < o.us)

    def __ge__(self, o):
        return mkbool(self.us >= o.us)


def _float_secs(us):
    """float seconds: exact value up to float rounding (16 us bound)"""
    r = X.fresh('fsecs', z3.RealSort())
    exact = z3.ToReal(us) / 1000000
    X.assume(z3.And(r - exact <= z3.RealVal('16/1000000'),
                    exact - r <= z3.RealVal('16/1000000')))
    # whole numbers of seconds are represented exactly
    X.assume(z3.Implies(us % 1000000 == 0, r == exact))
    return SymReal(r)


def timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0,
              hours=0, weeks=0):
    t = z3.IntVal(0)
    for v, k in ((days, 86400000000), (seconds, 1000000), (microseconds, 1),
                 (milliseconds, 1000), (minutes, 60000000),
                 (hours, 3600000000), (weeks, 604800000000)):
        if isinstance(v, SymOpt):
            v = v.force()
        if isinstance(v, (float, SymReal)):
            raise Unsupported('timedelta of float')
        t = t + int_term(v) * k
    return TD(z3.simplify(t))


class DTM(Sym):
    """datetime at total microseconds `us` since epoch of its local time in
    a zone of offset `off` microseconds (naive: aware=False, off=0)"""
    __slots__ = ('us', 'aware', 'off', 'micro_')

    def __init__(self, us, aware, off=None):
        self.us = us            # utc instant
        self.aware = aware
        self.off = z3.IntVal(0) if off is None else off

    def _local(self):
        return self.us + self.off

    def __getattr__(self, n):
        if n in _F:
            s = self._local() / 1000000
            fs = [_F[k](s) for k in _FIELDS]
            X.assume(_SECS(*fs) == s)
            return mkint(_F[n](s))
        raise AttributeError(n)

    @property
    def microsecond(self):
        return mkint(self._local() % 1000000)

    @property
    def tzinfo(self):
        return TZ(self.off) if self.aware else None

    def replace(self, **kw):
        if set(kw) == {'tzinfo'}:
            tz = kw['tzinfo']
            off = _tzoff(tz)
            return DTM(self._local() - off, tz is not None, off)
        if set(kw) <= {'tzinfo', 'microsecond'}:
            us = int_term(kw['microsecond'])
            d = DTM(self.us - (self._local() % 1000000) + us, self.aware,
                    self.off)
            return d.replace(tzinfo=kw['tzinfo']) if 'tzinfo' in kw else d
        raise Unsupported('datetime.replace')

    def astimezone(self, tz=None):
        if not self.aware:
            raise Unsupported('astimezone of naive (local time zone)')
        return DTM(self.us, True, _tzoff(tz))

    def utcoffset(self):
        return TD(self.off) if self.aware else None

    def timestamp(self):
        if not self.aware:
            raise Unsupported('timestamp of naive (local time zone)')
        return _float_secs(self.us)

    def __sub__(self, o):
        if isinstance(o, TD):
            return DTM(self.us - o.us, self.aware, self.off)
        if isinstance(o, DTM):
            if self.aware != o.aware:
                raise TypeError("can't subtract offset-naive and "
                                "offset-aware datetimes")
            return TD(self.us - o.us)
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, TD):
            r = DTM(self.us + o.us, self.aware, self.off)
            if not X.decide(z3.And(r._local() >= MIN_S * 1000000,
                                   r._local() < (MAX_S + 1) * 1000000)):
                raise OverflowError('date value out of range')
            return r
        return NotImplemented

    def __eq__(self, o):
        return mkbool(self.us == o.us) if isinstance(o, DTM) else False

    __hash__ = Sym.__hash__


class TZ:
    def __init__(self, off):
        self.off = off

    def utcoffset(self, dt):
        return TD(self.off)


def _tzoff(tz):
    if tz is None or tz is UTC:
        return z3.IntVal(0)
    if isinstance(tz, TZ):
        return tz.off
    raise Unsupported('time zone')


class _DT:
    """datetime.datetime"""

    def __call__(self, year, month, day, hour=0, minute=0, second=0,
                 microsecond=0, tzinfo=None):
        args = [year, month, day, hour, minute, second]
        if all(isinstance(i, int) for i in args):
            d = _dt.datetime(*args, tzinfo=UTC)
            s = z3.IntVal(int((d - _dt.datetime(1970, 1, 1, tzinfo=UTC)) //
                              _dt.timedelta(seconds=1)))
        else:
            s = _SECS(*[int_term(i) for i in args])
        m = int_term(microsecond)
        if not X.decide(z3.And(m >= 0, m < 1000000)):
            raise ValueError('microsecond must be in 0..999999')
        off = _tzoff(tzinfo)
        return DTM(s * 1000000 + m - off, tzinfo is not None, off)

    def fromtimestamp(self, t, tz=None):
        if tz is None:
            raise Unsupported('local time zone')
        if isinstance(t, (SymReal, float)):
            raise Unsupported('fromtimestamp of float')
        t = int_term(t)
        if not X.decide(z3.And(t >= MIN_S, t <= MAX_S)):
            raise ValueError('year is out of range')
        if X.decide(X.fresh('platform_oserror', B)):
            raise OSError('platform')
        return DTM(t * 1000000, True, _tzoff(tz))

    def now(self, tz=None):
        t = X.fresh('now', I)
        return DTM(t, tz is not None, _tzoff(tz))

    def utcfromtimestamp(self, t):
        return DTM(int_term(t) * 1000000, False)

    def __or__(self, o):
        return object

    __ror__ = __or__


datetime_model = types.SimpleNamespace(
    datetime=_DT(), timedelta=timedelta,
    timezone=_dt.timezone, UTC=UTC)


def registry(root):
    from . import libs
    return libs.Registry(root, {'datetime': datetime_model})
