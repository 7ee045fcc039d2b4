"""Random LMDB histories (<= 20 steps, timestamp ties, out of order source
timestamps, flushed and unflushed mixed, restarts with changed configuration)
and random timeseries queries."""

from refute.common import run_async
from refute import lmdbh


def run(ctx):
    ctx.rule = 'one case per (recent history, query)'
    rng = ctx.rng
    from hat.event import common

    async def check(h):
        for o in common.OrderBy:
            for d in common.Order:
                await h.check_timeseries(common.QueryTimeseriesParams(
                    order=d, order_by=o))
        for _ in range(6):
            q = h.rand_ts_query()
            await h.check_timeseries(q)
            m, h.model.conf.ts_max = h.model.conf.ts_max, None
            h.model.conf.ts_max = m

    async def one():
        await lmdbh.run_history(
            ctx, rng.randint(4, 20), check, invalid=0.05,
            flush=rng.choice([0.05, 0.3]),
            confs=lambda: lmdbh.rand_conf(rng, 0.3))
    for r in ctx.rounds(10):
        run_async(one())
