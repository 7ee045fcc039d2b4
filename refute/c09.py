"""Random LMDB histories (<= 25 steps, ties of timestamps across servers,
restarts with changed subscriptions) and random latest queries."""

from refute.common import run_async, query_type
from refute import lmdbh


def run(ctx):
    ctx.rule = 'one case per (recent history, query)'
    rng = ctx.rng

    async def check(h):
        await h.check_latest(None)
        await h.check_latest([('*',)])
        for _ in range(4):
            await h.check_latest(h.rand_types(0))
        known = list(h.model.latest)
        if known:
            # exact types, more or fewer than stored, with repetitions
            k = [rng.choice(known) for _ in range(rng.randint(1, 3))]
            await h.check_latest(k)
            await h.check_latest(k + [('x', 'y')] * 2)
            await h.check_latest(known + [('x', str(i)) for i in range(
                rng.randint(0, 4))])
            await h.check_latest(tuple(known[:-1]))
            await h.check_latest(k + [query_type(rng, 2, ['a', 'b'])])

    async def one():
        await lmdbh.run_history(
            ctx, rng.randint(5, 25), check, invalid=0.1,
            confs=lambda: lmdbh.rand_conf(rng, 0.3))
    for r in ctx.rounds(10):
        run_async(one())
