"""Acknowledged notifications to <= 4 clients on loopback, with callbacks
released, raising or disconnected in random order, and concurrent
notifications."""

import asyncio

from refute.common import free_port, run_async, settle, wait_until


def run(ctx):
    from hat.event import eventer
    from hat.event import common as ec
    from hat.drivers import tcp
    rng = ctx.rng
    ctx.rule = 'one case per (clients, order of acknowledgements)'

    class Cl:
        pass

    async def one():
        addr = tcp.Address('127.0.0.1', free_port())
        srv = await eventer.listen(addr)
        clients = []
        log = []
        # order in which everything finished
        trace = []

        async def connect(i):
            cl = Cl()
            cl.i = i
            cl.subs = [('a',)] if rng.random() < 0.8 else [('b',)]
            cl.gates = []
            cl.open = True

            async def events_cb(_, events):
                g = asyncio.get_running_loop().create_future()
                cl.gates.append((events[0].id.instance, g))
                await g
                trace.append(('processed', i, events[0].id.instance))
            cl.cl = await eventer.connect(addr, f'c{i}',
                                          subscriptions=cl.subs,
                                          events_cb=events_cb)
            clients.append(cl)

        def ev(n, t=('a',)):
            return ec.Event(ec.EventId(1, 1, n), t, ec.Timestamp(n, 0),
                            None, None)
        try:
            for i in range(rng.randint(1, 4)):
                await connect(i)
            await wait_until(lambda: len(srv.get_conn_infos()) ==
                             len(clients))
            tasks = {}
            targets = {}
            for n in range(1, rng.choice([1, 1, 2, 3]) + 1):
                targets[n] = {cl.i for cl in clients
                              if cl.open and cl.subs == [('a',)]}

                async def notify(n=n):
                    await srv.notify_events([ev(n)], False, True)
                    trace.append(('returned', n))
                tasks[n] = asyncio.create_task(notify())
                await settle(3)
                log.append(('notify', n, sorted(targets[n])))
            waiting = {n: set(t) for n, t in targets.items()}

            async def quiet():
                """returned tasks are exactly those with nobody waiting"""
                for n, t in tasks.items():
                    if not waiting[n]:
                        ok = await wait_until(t.done, 5)
                        ctx.check(ok, 'acknowledged notification returns '
                                  'when all clients are done', log=log,
                                  notification=n, trace=trace)
                        ctx.check(not t.exception(), 'notification failed',
                                  log=log, error=t.exception())
                await asyncio.sleep(0.004 if rng.random() < 0.3 else 0)
                await settle(4)
                for n, t in tasks.items():
                    if waiting[n]:
                        ctx.check(not t.done(), 'notification returned '
                                  'while a client is still processing',
                                  log=log, notification=n,
                                  waiting=waiting[n], trace=trace)
            await quiet()
            while any(waiting.values()):
                cl = rng.choice([i for i in clients if i.open])
                if not any(cl.i in w for w in waiting.values()):
                    if rng.random() < 0.2:
                        log.append(('close idle', cl.i))
                        await cl.cl.async_close()
                        cl.open = False
                        await asyncio.sleep(0.002)
                        await quiet()
                    elif rng.random() < 0.5:
                        await quiet()
                    continue
                if rng.random() < 0.3:
                    log.append(('disconnect', cl.i))
                    cl.open = False
                    await cl.cl.async_close()
                    for w in waiting.values():
                        w.discard(cl.i)
                else:
                    ok = await wait_until(lambda: cl.gates, 5)
                    ctx.check(ok, 'client notified', log=log, client=cl.i)
                    n, g = cl.gates.pop(0)
                    log.append(('ack', cl.i, n))
                    g.set_result(None)
                    waiting[n].discard(cl.i)
                await quiet()
            for n in tasks:
                r = trace.index(('returned', n))
                ctx.check(all(k < r for k, t in enumerate(trace)
                              if t[0] == 'processed' and t[2] == n),
                          'returned before the callback finished',
                          trace=trace)
            ctx.case(repr(log))
        finally:
            for cl in clients:
                for _, g in cl.gates:
                    if not g.done():
                        g.set_result(None)
                await cl.cl.async_close()
            await srv.async_close()

    async def server_close():
        """closing the server does not leave the notification hanging"""
        addr = tcp.Address('127.0.0.1', free_port())
        srv = await eventer.listen(addr)
        never = asyncio.get_running_loop().create_future()

        async def cb(_, e):
            await never
        cl = await eventer.connect(addr, 'c', subscriptions=[('*',)],
                                   events_cb=cb)
        t = asyncio.create_task(srv.notify_events([ev0], False, True))
        await asyncio.sleep(0.01)
        ctx.check(not t.done(), 'returned before processing')
        await srv.async_close()
        done, pending = await asyncio.wait([t], timeout=3)
        ctx.check(done, 'notification hangs after closing')
        await cl.async_close()
    ev0 = ec.Event(ec.EventId(1, 1, 1), ('a',), ec.Timestamp(1, 0), None,
                   None)

    async def many():
        for _ in range(6):
            await one()
    run_async(server_close())
    for r in ctx.rounds(3):
        run_async(many())
