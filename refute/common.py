"""Concrete refuters: search for a failing input on the real code.

A refuter runs the untransformed code staged from /repo against an oracle
written from the property statement.  It gives the failing input when the
proof of a property fails, stands in (bounded) for functions out of the
verifier's reach and cross-checks the semantics the prover assumes of Python.
"""

import asyncio
import contextlib
import itertools
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback


class Violation(Exception):

    def __init__(self, what, **data):
        super().__init__(what)
        self.what = what
        self.data = data


class Ctx:

    def __init__(self, prop, seed, budget, tier):
        self.prop = prop
        self.seed = seed
        self.rng = random.Random(f'{prop}/{seed}')
        self.tier = tier
        self.t0 = time.monotonic()
        self.budget = budget
        self.evaluations = 0
        self._distinct = set()
        self.samples = []
        self.rule = ''
        self.notes = []
        self._dirs = []
        self.steps = 0

    def left(self):
        return self.budget - (time.monotonic() - self.t0)

    def more(self, share=1.0):
        """budget left (share: fraction of the total budget allowed)"""
        return time.monotonic() - self.t0 < self.budget * share

    def rounds(self, n, share=1.0):
        """at least n rounds, more while `share` of the budget lasts"""
        for i in itertools.count():
            if i >= n and not self.more(share):
                return
            if i >= 1 and time.monotonic() - self.t0 > self.budget * 4:
                return
            self.steps += 1
            yield i

    def case(self, key, sample=None):
        self.steps += 1
        self.evaluations += 1
        h = hash(key) if not isinstance(key, str) else key
        if h not in self._distinct:
            self._distinct.add(h)
            if len(self.samples) < 3:
                self.samples.append(sample if sample is not None
                                    else repr(key)[:400])

    def check(self, cond, what, **data):
        self.steps += 1
        if not cond:
            raise Violation(what, **data)

    def eq(self, got, want, what, /, **data):
        self.steps += 1
        if got != want:
            raise Violation(what, **{**data, 'observed': got,
                                     'expected': want})

    @contextlib.contextmanager
    def tmp(self):
        d = tempfile.mkdtemp(prefix='vfref')
        try:
            import pathlib
            yield pathlib.Path(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)


async def settle(n=20):
    for _ in range(n):
        await asyncio.sleep(0)


async def wait_until(pred, timeout=5, step=0.005):
    t = time.monotonic() + timeout
    while not pred():
        if time.monotonic() > t:
            return False
        await asyncio.sleep(step)
    return True


def free_port():
    import socket
    with contextlib.closing(socket.socket()) as s:
        s.bind(('127.0.0.1', 0))
        return s.getsockname()[1]


def run_async(coro, timeout=60):
    async def main():
        return await asyncio.wait_for(coro, timeout)
    return asyncio.run(main())


# ----------------------------------------------------- generators of values

SEGS = ['a', 'b', 'c']


def event_type(rng, maxlen=4, segs=SEGS):
    return tuple(rng.choice(segs) for _ in range(rng.randint(0, maxlen)))


def query_type(rng, maxlen=4, segs=SEGS):
    t = [rng.choice(segs + ['?']) for _ in range(rng.randint(0, maxlen))]
    if rng.random() < 0.35:
        t.append('*')
    return tuple(t)


def all_types(segs, maxlen):
    for n in range(maxlen + 1):
        yield from itertools.product(segs, repeat=n)


def matches(event_type, query_type):
    """oracle: documented query rules, independent of the code"""
    if not query_type:
        return not event_type
    if query_type[0] == '*' and len(query_type) == 1:
        return True
    if not event_type:
        return False
    return ((query_type[0] == '?' or query_type[0] == event_type[0]) and
            matches(event_type[1:], query_type[1:]))


def matches_any(event_type, query_types):
    return any(matches(event_type, q) for q in query_types)


def json_data(rng, depth=2):
    k = rng.randrange(8 if depth else 6)
    if k == 0:
        return None
    if k == 1:
        return rng.random() < 0.5
    if k == 2:
        return rng.choice([0, 1, -1, 2, 10 ** 12, rng.randint(-99, 99)])
    if k == 3:
        return rng.choice([0.5, -1.25, 1e10, 0.0])
    if k in (4, 5):
        return rng.choice(['', 'x', 'á€', 'a\n"b"', 'null'])
    if k == 6:
        return [json_data(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice('abcd'): json_data(rng, depth - 1)
            for _ in range(rng.randint(0, 3))}


def payload(rng, common):
    k = rng.randrange(4)
    if k == 0:
        return None
    if k == 1:
        return common.EventPayloadBinary(
            rng.choice(['', 't', 'type é']),
            bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5,
                                                                300]))))
    return common.EventPayloadJson(json_data(rng))


def timestamp(rng, common, wide=True):
    k = rng.randrange(6 if wide else 3)
    if k == 0:
        s = rng.choice([0, 1, -1, 10, -10])
    elif k in (1, 2):
        s = rng.randint(-2 ** 31, 2 ** 33)
    elif k == 3:
        s = rng.choice([-2 ** 63, 2 ** 63 - 1, -2 ** 63 + 1, 2 ** 62,
                        -2 ** 62])
    else:
        s = rng.randint(-2 ** 63, 2 ** 63 - 1)
    us = rng.choice([0, 1, 999999, 500000, rng.randrange(1000000)])
    return common.Timestamp(s, us)


def event_id(rng, common, big=True):
    k = rng.randrange(3 if big else 2)
    if k == 0:
        return common.EventId(rng.randint(0, 2), rng.randint(0, 2),
                              rng.randint(0, 2))
    if k == 1:
        return common.EventId(rng.randint(0, 300), rng.randint(0, 70000),
                              rng.randint(0, 300))
    m = 2 ** 64 - 1
    return common.EventId(*(rng.choice([0, 1, m, 2 ** 63, 2 ** 32,
                                        rng.randint(0, m)])
                            for _ in range(3)))


def event(rng, common, maxlen=3):
    return common.Event(
        id=event_id(rng, common),
        type=event_type(rng, maxlen, SEGS + ['', 'ž']),
        timestamp=timestamp(rng, common),
        source_timestamp=(timestamp(rng, common) if rng.random() < 0.6
                          else None),
        payload=payload(rng, common))


# ------------------------------------------------------------------ runner

def classify(e, staged):
    """violation | harness: whose fault is an exception nobody expected"""
    frames = traceback.extract_tb(e.__traceback__)
    last_harness = -1
    for i, f in enumerate(frames):
        if '/refute/' in f.filename:
            last_harness = i
    if any(f.filename.startswith(staged) for f in frames[last_harness + 1:]):
        return 'violation'
    if isinstance(e, (AttributeError, TypeError)) and 'NoneType' in str(e):
        # nothing where the code has to give something
        return 'violation'
    return 'harness'


HANG = 40


def watch(ctx, staged, report):
    """a call of the code that computes without end (HANG seconds of
    processor time without a step of the harness) is reported"""
    seen = [-1]

    def on_alarm(*args):
        if ctx.steps != seen[0]:
            seen[0] = ctx.steps
            return
        for frame in sys._current_frames().values():
            stack = traceback.extract_stack(frame)
            if any(f.filename.startswith(staged) for f in stack):
                report('call does not end', {
                    'stack': ''.join(traceback.format_list(stack))[-4000:]})

    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, HANG, HANG)


def main(argv):
    import importlib
    import json
    staged, prop, seed, budget, tier, out = argv
    sys.dont_write_bytecode = True
    sys.path.insert(0, staged)
    sys.path.insert(0, os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    ctx = Ctx(prop, int(seed), float(budget), tier)
    res = {'violation': None, 'error': None}

    def finish():
        res.update(evaluations=ctx.evaluations,
                   distinct=len(ctx._distinct), samples=ctx.samples,
                   rule=ctx.rule, notes=ctx.notes,
                   wall=time.monotonic() - ctx.t0)
        with open(out, 'w') as f:
            json.dump(res, f)
        sys.stdout.flush()
        os._exit(0)

    def hang(what, data):
        res['violation'] = {'what': what, 'data': data}
        finish()

    watch(ctx, staged, hang)
    try:
        import hat.event.common
        if not hat.event.common.__file__.startswith(staged):
            raise Exception('not the staged code: ' +
                            hat.event.common.__file__)
        mod = importlib.import_module(f'refute.{prop.lower()}')
        res['bounds'] = (mod.__doc__ or '').strip()
        mod.run(ctx)
    except Violation as e:
        res['violation'] = {'what': e.what,
                            'data': {k: repr(v)[:6000]
                                     for k, v in e.data.items()}}
    except BaseException as e:
        tb = traceback.format_exc()
        if classify(e, staged) == 'violation':
            res['violation'] = {'what': f'unexpected {type(e).__name__}: {e}',
                                'data': {'traceback': tb[-4000:]}}
        else:
            res['error'] = tb[-3000:]
    finish()


if __name__ == '__main__':
    # run as module object `refute.common`, so that refuters share it
    sys.path.insert(0, os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    import refute.common
    refute.common.main(sys.argv[1:])
