"""Random LMDB histories (<= 25 steps, 3 servers, restarts with changed
configuration) and server queries over all limits and last ids."""

from refute.common import run_async
from refute import lmdbh


def run(ctx):
    ctx.rule = 'one case per (recent history, query)'
    rng = ctx.rng
    from hat.event import common

    async def check(h):
        await h.check_servers()
        for s, o in ((1, 2), (3, 1)):
            q = common.QueryServerParams(s, rng.random() < 0.5, None,
                                         common.EventId(o, 1, 1))
            try:
                r = await h.backend.query(q)
            except Exception:
                continue
            ctx.check(False, "another server's last id is rejected",
                      query=q, got=r)

    async def one():
        await lmdbh.run_history(
            ctx, rng.randint(5, 25), check, invalid=0.05,
            restart=rng.choice([0.05, 0.2]),
            confs=lambda: lmdbh.rand_conf(rng, 0.5))
    for r in ctx.rounds(8):
        run_async(one())
