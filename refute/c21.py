"""Random eventer servers with <= 5 clients on loopback, <= 12 notifications
and status changes, clients connecting and leaving in between."""

import asyncio

from refute.common import (event_type, free_port, matches_any, query_type,
                           run_async, payload, wait_until)


def run(ctx):
    from hat.event import eventer
    from hat.drivers import tcp
    c = eventer.common if hasattr(eventer, 'common') else eventer
    from hat.event import common as ec
    rng = ctx.rng
    ctx.rule = 'one case per (clients, notifications)'

    class Cl:
        pass

    async def one():
        addr = tcp.Address('127.0.0.1', free_port())
        status = rng.choice(list(ec.Status))
        srv = await eventer.listen(
            addr, status=status,
            query_cb=lambda i, p: ec.QueryResult([], False))
        clients = []
        log = []
        seq = 0

        async def connect():
            cl = Cl()
            cl.subs = [query_type(rng, 2, ['a', 'b'])
                       for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            if rng.random() < 0.3:
                cl.subs = [('*',)]
            cl.server_id = rng.choice([None, None, 1, 2, 0])
            cl.persisted = rng.random() < 0.5
            cl.got, cl.statuses = [], []
            cl.want, cl.wstat = [], []
            cl.cl = await eventer.connect(
                addr, f'c{len(clients)}', subscriptions=cl.subs,
                server_id=cl.server_id, persisted=cl.persisted,
                status_cb=lambda _, s: cl.statuses.append(s),
                events_cb=lambda _, e: cl.got.append(list(e)))
            ctx.eq(cl.cl.status, status, 'status at connection', log=log)
            clients.append(cl)
            log.append(('connect', cl.subs, cl.server_id, cl.persisted))

        async def barrier():
            for cl in clients:
                await asyncio.wait_for(cl.cl.query(ec.QueryLatestParams()),
                                       10)

        try:
            for _ in range(rng.randint(1, 4)):
                await connect()
            for _ in range(rng.randint(1, 12)):
                k = rng.random()
                if k < 0.1 and len(clients) < 5:
                    await connect()
                elif k < 0.2 and clients:
                    cl = clients.pop(rng.randrange(len(clients)))
                    await cl.cl.async_close()
                    n = len(clients)
                    await wait_until(
                        lambda: len(srv.get_conn_infos()) == n)
                    log.append('disconnect')
                elif k < 0.4:
                    new = rng.choice(list(ec.Status))
                    log.append(('status', new))
                    if new != status:
                        for cl in clients:
                            cl.wstat.append(new)
                    status = new
                    await srv.set_status(new)
                else:
                    events = []
                    for _ in range(rng.randint(0, 4)):
                        seq += 1
                        events.append(ec.Event(
                            ec.EventId(rng.choice([0, 1, 1, 2, 3]), 1, seq),
                            event_type(rng, 2, ['a', 'b']),
                            ec.Timestamp(seq, 0), None, payload(rng, ec)))
                    p = rng.random() < 0.5
                    ack = rng.random() < 0.3
                    log.append(('notify', events, p, ack))
                    for cl in clients:
                        w = [e for e in events if matches_any(
                            e.type, cl.subs) and (
                            cl.server_id is None or
                            cl.server_id == e.id.server)]
                        if cl.persisted == p and w:
                            cl.want.append(w)
                    await asyncio.wait_for(srv.notify_events(
                        rng.choice([list, tuple])(events), p, ack), 10)
                if rng.random() < 0.4:
                    await barrier()
            await barrier()
            for cl in clients:
                d = dict(subs=cl.subs, server_id=cl.server_id,
                         persisted=cl.persisted, log=log)
                ctx.check(cl.got == cl.want, 'notified events', got=cl.got,
                          want=cl.want, **d)
                ctx.eq(cl.statuses, cl.wstat, 'status notifications', **d)
                ctx.eq(cl.cl.status, status, 'client status', **d)
            ctx.case(repr(log))
        finally:
            for cl in clients:
                await cl.cl.async_close()
            await srv.async_close()

    async def many():
        for _ in range(8):
            await one()
    for r in ctx.rounds(3):
        run_async(many())


__all__ = ['run']
