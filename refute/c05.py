"""Timestamp conversions on boundary and random values over their ranges."""

import datetime
import fractions
import math

from refute.common import timestamp

F = fractions.Fraction
UTC = datetime.timezone.utc
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=UTC)
MIN_S = -62135596800
MAX_S = 253402300799


def exact(t):
    return F(t.s) + F(t.us, 1000000)


def run(ctx):
    from hat.event import common
    rng = ctx.rng
    ctx.rule = 'boundary and random timestamps/floats/datetimes; distinct'
    prev = []

    def norm(t, what, **d):
        ctx.check(isinstance(t, common.Timestamp) and
                  isinstance(t.s, int) and isinstance(t.us, int) and
                  0 <= t.us < 1000000, f'{what}: normalised', got=t, **d)

    for r in ctx.rounds(4000):
        t = timestamp(rng, common)
        ctx.case(t)
        b = common.timestamp_to_bytes(t)
        ctx.eq(common.timestamp_from_bytes(b), t, 'bytes roundtrip', t=t)
        prev.append((t, bytes(b)))
        u, c = rng.choice(prev)
        if rng.random() < 0.3:
            u = t._replace(us=rng.choice([0, 255, 256, 65535, 65536, 999999]))
            c = bytes(common.timestamp_to_bytes(u))
        ctx.eq(bytes(b) < c, t < u, 'byte order', t=t, u=u)
        ctx.eq(bytes(b) == c, t == u, 'byte equality', t=t, u=u)
        if len(prev) > 50:
            prev.pop(rng.randrange(50))
        ctx.eq(common.timestamp_from_sbs(common.timestamp_to_sbs(t)), t,
               'sbs roundtrip', t=t)

        s = rng.choice([rng.randint(MIN_S, MAX_S), MIN_S, MAX_S,
                        rng.randint(-5, 5), rng.randint(-2 ** 32, 2 ** 33)])
        d = common.Timestamp(s, t.us)
        dt = common.timestamp_to_datetime(d)
        ctx.eq((dt - EPOCH), datetime.timedelta(seconds=s,
                                                microseconds=t.us),
               'datetime of the same instant', t=d, datetime=dt)
        back = common.timestamp_from_datetime(dt)
        norm(back, 'from datetime', datetime=dt)
        ctx.eq(back, d, 'datetime roundtrip', t=d)
        if MIN_S + 86400 < s < MAX_S - 86400:
            off = datetime.timezone(datetime.timedelta(
                minutes=rng.randint(-1439, 1439)))
            ctx.eq(common.timestamp_from_datetime(dt.astimezone(off)), d,
                   'datetime of other zone', datetime=dt.astimezone(off))
        ctx.eq(common.timestamp_from_datetime(dt.replace(tzinfo=None)), d,
               'naive datetime is utc', t=d)

        # floats: within the float's own resolution
        fs = rng.choice([rng.randint(-2 ** 33, 2 ** 33), rng.randint(-4, 4),
                         rng.randint(-2 ** 52, 2 ** 52)])
        ft = common.Timestamp(fs, t.us)
        x = common.timestamp_to_float(ft)
        res = F(max(math.ulp(x), math.ulp(float(fs)), 2.3e-16)) * 2
        ctx.check(abs(F(x) - exact(ft)) <= res, 'to_float accurate', t=ft,
                  got=x)
        bt = common.timestamp_from_float(x)
        norm(bt, 'from_float', x=x)
        ctx.check(abs(exact(bt) - F(x)) <= F(1, 1999999) + res,
                  'from_float accurate', x=x, got=bt)
        if abs(fs) < 2 ** 32:
            ctx.eq(bt, ft, 'float roundtrip', t=ft)
        for x in (rng.uniform(-4, 4), rng.uniform(-1e9, 1e10), float(fs),
                  rng.randint(-5, 5) + rng.choice([1e-7, 4e-7, 6e-7,
                                                   0.9999994, 0.9999996,
                                                   0.9999999, -1e-9]),
                  -1e-9, 0.0, -0.0, rng.randint(-9, 9) / 4,
                  fs + rng.choice([0.25, 0.5, 0.9999999])):
            bt = common.timestamp_from_float(x)
            norm(bt, 'from_float', x=x)
            ctx.check(abs(exact(bt) - F(x)) <= F(1, 1999999) +
                      F(math.ulp(x)) * 2,
                      'from_float accurate', x=x, got=bt)

        a = rng.choice([rng.uniform(-3, 3), rng.randint(-10, 10),
                        rng.uniform(-1e6, 1e6), 0.9999999, -0.9999999,
                        1e-7, -1e-7, 0.5, -0.5, rng.uniform(-1e9, 1e9)])
        base = common.Timestamp(rng.choice([fs, 0, -1, t.s // 4]), t.us)
        got = base.add(a)
        norm(got, 'add', base=base, seconds=a)
        ctx.check(abs(exact(got) - exact(base) - F(a)) <= F(1, 1999999) +
                  F(math.ulp(float(a))) * 2,
                  'add accurate', base=base, seconds=a, got=got)
