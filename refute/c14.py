"""Random LMDB histories (<= 12 steps): every answer before close equals the
answer after reopening, and a process killed at each executed line of a flush
leaves the state of a completed flush."""

import os
import pickle
import random
import sys
import threading

from refute.common import run_async
from refute import lmdbh


def model_snapshot(m):
    from hat.event import common
    r = {}
    for s in lmdbh.SERVERS:
        r['last', s] = m.get_last(s)
        r['server', s] = m.q_server(common.QueryServerParams(s))[0]
    r['latest'] = sorted(m.q_latest(None).values(), key=lambda e: e.type)
    for o in common.OrderBy:
        for t in (None, [('a', '*')], [('b', '*')], [('?',)]):
            r['ts', o, repr(t)] = m.q_timeseries(
                common.QueryTimeseriesParams(
                    t, order=common.Order.ASCENDING, order_by=o))[0]
    return r


def crash_child(ctx, path, seed, flush_no, line_no, journal, staged):
    """runs a seeded history; dies at line `line_no` of flush `flush_no`"""
    ctx.rng = random.Random(seed)
    armed = [False]
    count = [0]

    def local(frame, event, arg):
        if event == 'line' and armed[0]:
            count[0] += 1
            if count[0] == line_no:
                os._exit(77)
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(staged):
            return local
        return None

    threading.settrace(tracer)
    sys.settrace(tracer)

    async def go():
        h = lmdbh.History(ctx, path)
        rng = ctx.rng
        conf = lmdbh.rand_conf(rng, 0.2)
        await h.open(conf)
        ops = [('open', conf)]

        def note():
            tmp = str(journal) + '.tmp'
            with open(tmp, 'wb') as f:
                pickle.dump(ops, f)
            os.replace(tmp, journal)

        for i in range(1, flush_no + 1):
            for _ in range(rng.randint(1, 3)):
                batch = await h.register(None, 0.1)
                ops.append(('register', batch))
            ops.append(('flush', i))
            note()
            armed[0] = i == flush_no
            await h.flush()
            armed[0] = False
            ops.append(('done', i))
            note()
        os._exit(78)

    run_async(go())


def run(ctx):
    from hat.event.backends.lmdb import common
    import hat.event.common as ec
    rng = ctx.rng
    staged = ec.__file__.rsplit('/hat/event/', 1)[0]
    ctx.rule = 'one case per (history, crash line) or reopened history'

    async def crash_check(path, ops, d):
        m = lmdbh.Model(common)
        m.open(ops[0][1])
        states = [model_snapshot(m)]
        done = 0
        for op in ops[1:]:
            if op[0] == 'register':
                m.register(op[1])
            elif op[0] == 'flush':
                m.flush()
                m.open(ops[0][1])
                states.append(model_snapshot(m))
            else:
                done = op[1]
        h = lmdbh.History(ctx, path)
        await h.open(ops[0][1])
        try:
            got = await h.snapshot()
        finally:
            await h.backend.async_close()
        ok = [i for i, s in enumerate(states) if s == got]
        ctx.check(ok and max(ok) >= done,
                  'state after a crash is that of a completed flush',
                  completed=done, matches=ok, got=got,
                  before=states[done], after=states[-1], ops=ops, **d)

    def crashes():
        seed = rng.random()
        flush_no = rng.randint(1, 3)
        line = rng.randint(1, 8)
        while True:
            with ctx.tmp() as d:
                pid = os.fork()
                if not pid:
                    try:
                        crash_child(ctx, d / 'db', seed, flush_no, line,
                                    d / 'journal', staged)
                    finally:
                        os._exit(79)
                _, st = os.waitpid(pid, 0)
                code = os.waitstatus_to_exitcode(st)
                if code not in (77, 78):
                    raise RuntimeError(f'crash child ended with {code}')
                ops = pickle.loads((d / 'journal').read_bytes())
                ctx.case(repr((seed, flush_no, line)),
                         f'history {seed}, killed at line event {line} of '
                         f'flush {flush_no}')
                run_async(crash_check(d / 'db', ops,
                                      dict(line=line, flush=flush_no)))
            if code == 78 or not ctx.more(0.6):
                return
            line += rng.randint(1, 25)

    async def reopen():
        with ctx.tmp() as d:
            h = lmdbh.History(ctx, d / 'db')
            try:
                await h.open(lmdbh.rand_conf(rng, 0.3))
                for _ in range(rng.randint(1, 3)):
                    for _ in range(rng.randint(0, 4)):
                        k = rng.random()
                        if k < 0.3:
                            await h.flush()
                        else:
                            await h.register(None, 0.1)
                    flushed = rng.random() < 0.5
                    if flushed:
                        await h.flush()
                        before = await h.snapshot()
                    await h.close()
                    await h.open(h.model.conf)
                    after = await h.snapshot()
                    want = model_snapshot(h.model)
                    ctx.check(after == want, 'answers after reopening',
                              got=after, want=want, **h.d())
                    if flushed:
                        ctx.check(after == before,
                                  'same answers before and after reopening',
                                  got=after, want=before, **h.d())
                    ctx.case(repr(h.log))
            finally:
                if h.backend is not None:
                    await h.backend.async_close()

    while ctx.more(0.55) or ctx.evaluations < 10:
        crashes()
    for r in ctx.rounds(10):
        run_async(reopen())
