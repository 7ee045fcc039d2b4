"""Cleanup passes over random tables (<= 3 partitions, <= 30 entries, random
limits, clocks and pass budgets) on the timeseries and reference databases,
plus cleanup through the backend."""

from refute.common import event_type, matches_any, run_async, wait_until
from refute import lmdbh


def expected(entries, limit, now_us, budget):
    """entries: sorted list of (ts_us, id); returns number removed"""
    n = 0
    lo = limit.get('min_entries') or 0
    hi = limit.get('max_entries')
    if limit.get('size') == 0:
        hi = 0
    dur = limit.get('duration')
    while n < len(entries):
        if budget is not None and n >= budget:
            break
        rest = len(entries) - n
        if rest <= lo:
            break
        over = hi is not None and rest > hi
        old = (dur is not None and
               entries[n][0] < now_us - round(dur * 1000000))
        if not over and not old:
            break
        n += 1
    return n


def us(t):
    return t.s * 1000000 + t.us


def run(ctx):
    from hat.event.backends.lmdb import common
    from hat.event.backends.lmdb import environment
    from hat.event.backends.lmdb import refdb
    from hat.event.backends.lmdb import timeseriesdb
    from hat.event.backends.lmdb.conditions import Conditions
    rng = ctx.rng
    ctx.rule = 'one case per (table contents, limits, pass)'
    D = common.DbType

    def rand_limit():
        r = {}
        if rng.random() < 0.5:
            r['min_entries'] = rng.randint(0, 6)
        if rng.random() < 0.6:
            r['max_entries'] = rng.randint(0, 8)
        if rng.random() < 0.5:
            r['duration'] = rng.choice([0, 1, 2.5, 5, 10])
        if rng.random() < 0.2:
            r['size'] = rng.choice([0, 10 ** 12])
        return r

    async def passes():
        with ctx.tmp() as d:
            env = await environment.create(d / 'db')
            try:
                await passes_env(env)
            finally:
                await env.async_close()

    async def passes_env(env):
        specs = rng.sample(lmdbh.PARTS, rng.choice([1, 2, 2, 3]))
        specs = [(o, s, rand_limit() if rng.random() < 0.8 else None)
                 for o, s in specs]
        parts = [timeseriesdb.Partition(
            common.OrderBy[o], common.create_subscription(s),
            timeseriesdb.Limit(**lim) if lim is not None else None)
            for o, s, lim in specs]

        def ext_create():
            with env.ext_begin(write=True) as txn:
                return timeseriesdb.ext_create(env, txn, Conditions([]),
                                               parts, 4096, 1000)
        db = await env.execute(ext_create)
        ref = refdb.RefDb(env)
        others = {}
        seq = {}

        def table(t):
            with env.ext_begin() as txn:
                return dict(env.ext_read(txn, t))

        async def fill(n):
            for _ in range(n):
                s = rng.choice([1, 2])
                seq[s] = seq.get(s, 0) + 1
                ts = common.Timestamp(rng.randint(-3, 12),
                                      rng.choice([0, 0, 1, 500000]))
                st = rng.choice([None, common.Timestamp(
                    rng.randint(-3, 12), rng.choice([0, 500000]))])
                e = common.Event(common.EventId(s, 1, seq[s]),
                                 event_type(rng, 2, ['a', 'b']), ts, st,
                                 None)
                refs = list(db.add(e))
                if rng.random() < 0.3:
                    lr = common.LatestEventRef(rng.randint(1, 99))
                    refs.append(lr)
                    others[e.id] = lr
                if refs:
                    ref.add(e, refs)
            ch, rch = db.create_changes(), ref.create_changes()

            def ext_write():
                with env.ext_begin(write=True) as txn:
                    db.ext_write(txn, ch)
                    ref.ext_write(txn, rch)
            await env.execute(ext_write)

        def check_tables(what, **d):
            data = table(D.TIMESERIES_DATA)
            counts = table(D.TIMESERIES_COUNT)
            refs = table(D.REF)
            by = {}
            for p, t, i in data:
                by.setdefault(p, []).append((us(t), i))
            for p in set(by) | set(counts):
                ctx.eq(counts.get(p, 0), len(by.get(p, [])),
                       f'{what}: entry count of partition', partition=p, **d)
            want = {}
            for k in data:
                want.setdefault(k[2], set()).add(
                    common.TimeseriesEventRef(k))
            for i, lr in others.items():
                want.setdefault(i, set()).add(lr)
            ctx.check(refs == want, f'{what}: references', got=refs,
                      want=want, **d)
            return {p: sorted(v) for p, v in by.items()}

        await fill(rng.randint(0, 30))
        before = check_tables('before cleanup', specs=specs)
        pids = {}
        for p, data in table(D.TIMESERIES_PARTITION).items():
            pids[p] = (data['order'], frozenset(
                tuple(i) for i in data['subscriptions']))
        for _ in range(5):
            budget = rng.choice([None, None, 1, 2, 5, 1024])
            now = common.Timestamp(rng.randint(-2, 16),
                                   rng.choice([0, 1, 500000, 500001]))
            d = dict(specs=specs, before=before, budget=budget, now=now)
            ctx.case(repr(d))

            def ext_cleanup():
                with env.ext_begin(write=True) as txn:
                    r = list(db.ext_cleanup(txn, now, budget))
                    ref.ext_cleanup(txn, r)
                    return r
            removed = await env.execute(ext_cleanup)
            for i, r in removed:
                pass
            after = check_tables('after cleanup', **d)
            left = budget
            total = 0
            for spec, part in zip(specs, parts):
                p = next(p for p, k in pids.items()
                         if k == (part.order_by.value, frozenset(
                             part.subscription.get_query_types())))
                old = before.get(p, [])
                new = after.get(p, [])
                n = (0 if spec[2] is None else
                     expected(old, spec[2], us(now), left))
                ctx.check(new == old[n:],
                          'cleanup removes the oldest over the limits only',
                          partition=spec, got=new, want=old[n:], **d)
                total += n
                if left is not None:
                    left -= n
            for p in set(before) - set(pids):
                ctx.eq(after.get(p), before[p], 'unlimited partition')
            ctx.eq(len(removed), total, 'removed entries are reported', **d)
            gone = {(p, t, i) for p in before for t, i in before[p]} - {
                (p, t, i) for p in after for t, i in after[p]}
            ctx.check({(r.key[0], us(r.key[1]), r.key[2])
                       for _, r in removed} == gone and
                      all(i == r.key[2] for i, r in removed),
                      'reported references are the removed ones', **d)
            before = after
            if rng.random() < 0.5:
                await fill(rng.randint(0, 6))
                before = check_tables('after fill', specs=specs)

    async def backend():
        """cleanup loop of the backend: down to max_entries, then idle"""
        with ctx.tmp() as d:
            lo, hi = rng.choice([None, 3]), rng.randint(0, 4)
            lim = {'max_entries': hi}
            if lo is not None:
                lim['min_entries'] = lo
            conf = lmdbh.Conf([], rng.choice([[], [('a', '*')]]), [
                lmdbh.Part('TIMESTAMP', [('a', '*')], lim),
                lmdbh.Part('TIMESTAMP', [('*',)])])
            conf.cleanup_period = 0.01
            h = lmdbh.History(ctx, d / 'db')
            await h.open(conf)
            try:
                for _ in range(4):
                    await h.register(3, 0)
                await h.flush()
                p = conf.parts[0]
                evs = sorted(h.model.disk_parts.get(p.key, {}).values(),
                             key=lambda e: (e.timestamp, e.id))
                keep = max(hi, lo or 0)
                want = evs[max(0, len(evs) - keep):]
                q = common.QueryTimeseriesParams(
                    [('a', '*')], order=common.Order.ASCENDING)

                got = []

                async def poll():
                    got[:] = (await h.backend.query(q)).events
                    return got == want
                for _ in range(200):
                    if await poll():
                        break
                    await lmdbh.asyncio.sleep(0.01)
                await lmdbh.asyncio.sleep(0.03)
                await poll()
                ctx.check(got == want, 'backend cleanup', got=got, want=want,
                          limit=lim, events=evs)
                h.model.disk_parts[p.key] = {e.id: e for e in want}
                await h.check_servers(False)
                await h.check_timeseries(common.QueryTimeseriesParams(
                    [('b', '*')]))
                ctx.case(repr(evs))
            finally:
                await h.backend.async_close()

    for r in ctx.rounds(3, 0.3):
        run_async(backend())
    for r in ctx.rounds(20):
        run_async(passes())


__all__ = ['matches_any', 'wait_until']
