"""Random LMDB histories (<= 14 steps) walked page by page with page sizes
1..n+1 and with a configured maximum of results."""

from refute.common import run_async
from refute import lmdbh


def run(ctx):
    ctx.rule = 'one case per (recent history, query)'
    rng = ctx.rng
    from hat.event import common

    async def walk(h, q):
        full, _ = h.model.q_timeseries(q, limit=False)
        cap = h.model.conf.ts_max
        for n in {1, 2, 3, max(1, len(full) - 1), max(1, len(full)),
                  len(full) + 1, None}:
            got, last = [], None
            for i in range(len(full) + 2):
                p = q._replace(max_results=n, last_event_id=last)
                r = await h.backend.query(p)
                page = list(r.events)
                ctx.case(repr((h.log[-6:], p)))
                d = h.d(query=p, page=page, walked=got, full=full, cap=cap)
                m = n if cap is None else cap if n is None else min(n, cap)
                ctx.check(m is None or len(page) <= m, 'page too long', **d)
                got += page
                ctx.check(got == full[:len(got)],
                          'pages walk the unlimited result', **d)
                ctx.check(m is None or len(page) == m or
                          len(got) == len(full),
                          'page shorter than the limit', **d)
                ctx.check(bool(r.more_follows) == (len(got) < len(full)),
                          'more follows', **d)
                if not r.more_follows:
                    break
                last = page[-1].id
            ctx.check(got == full, 'pages concatenate to the result',
                      **h.d(query=q, got=got, full=full))
        p = q._replace(max_results=0)
        r = await h.backend.query(p)
        ctx.check(not r.events and bool(r.more_follows) == bool(full),
                  'limit of zero', **h.d(query=p, got=r, full=full))
        for e in full:
            await h.check_timeseries(q._replace(last_event_id=e.id),
                                     'continuation')

    async def check(h):
        if rng.random() < 0.5:
            return
        await walk(h, common.QueryTimeseriesParams(
            order=rng.choice(list(common.Order)),
            order_by=rng.choice(list(common.OrderBy))))
        await walk(h, h.rand_ts_query())

    async def one():
        await lmdbh.run_history(
            ctx, rng.randint(4, 14), check, invalid=0.05,
            flush=rng.choice([0.1, 0.3]),
            confs=lambda: lmdbh.rand_conf(
                rng, 0.2, ts_max=rng.choice([None, None, 2, 5])))
    for r in ctx.rounds(8):
        run_async(one())
