"""Random engines (<= 3 modules with deterministic productions, <= 8
concurrent register calls, queue sizes 1..1024, rejecting, slow or failing
backend, closing at random moments) against a reference fixpoint; sequences
of engines over one memory backend."""

import asyncio

from refute import engineh
from refute.common import run_async


async def restarts(ctx):
    from hat import aio
    from hat.event import common
    from hat.event.backends import memory
    st = engineh.Stand(ctx, {'C18'})
    rng = ctx.rng
    b = await aio.call(memory.info.create, {}, None, None)
    try:
        st.plans = [engineh.Plan(rng, common, 0, 1)]
        confs = [st.make_module(st.plans[0])]
        for _ in range(rng.randint(2, 4)):
            e = await st.eng.create_engine(b, None, confs,
                                           rng.choice([1, 1, 2]),
                                           lambda: None, lambda: None)
            for _ in range(rng.randint(0, 3)):
                await asyncio.wait_for(e.register(
                    common.Source(common.SourceType.EVENTER, 1),
                    st.reg_events(2)), 5)
            await e.async_close()
        evs = list((await b.query(common.QueryTimeseriesParams(
            order=common.Order.ASCENDING))).events)
        for s in (1, 2):
            own = [e for e in b._events if e.id.server == s] if hasattr(
                b, '_events') else [e for e in evs if e.id.server == s]
            ids = [e.id for e in own]
            ctx.check(all(x < y for x, y in zip(ids, ids[1:])),
                      'ids increase over engine restarts', ids=ids)
        ctx.case(repr(evs))
    finally:
        st.cleanup()
        await b.async_close()


def run(ctx):
    for r in ctx.rounds(5, 0.2):
        run_async(restarts(ctx))
    engineh.run_prop(ctx, 'C18')
