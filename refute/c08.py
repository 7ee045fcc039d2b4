"""Random LMDB histories (<= 25 steps, 3 servers, invalid ids/timestamps,
random conditions, restarts) against the admission model."""

from refute.common import run_async
from refute import lmdbh


def run(ctx):
    ctx.rule = 'one case per (recent history, query)'
    rng = ctx.rng
    from hat.event import common

    async def check(h):
        await h.check_last()
        await h.check_latest(None)
        for o in common.OrderBy:
            await h.check_timeseries(common.QueryTimeseriesParams(
                order=common.Order.ASCENDING, order_by=o))
        if rng.random() < 0.3:
            await h.check_servers(False)

    async def one():
        parts = None
        if rng.random() < 0.5:
            parts = [lmdbh.Part('TIMESTAMP', [('*',)])]
        await lmdbh.run_history(
            ctx, rng.randint(5, 25), check, invalid=rng.choice([0.1, 0.5]),
            conf=lmdbh.rand_conf(rng, 0.5, parts))
    for r in ctx.rounds(10):
        run_async(one())
