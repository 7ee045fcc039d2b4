"""Eventer client against a scripted server on loopback: <= 8 concurrent
register/query calls answered in random order, mixed with notifications,
unknown responses and closing at random moments."""

import asyncio

from refute.common import (free_port, run_async, settle, wait_until,
                           event as gevent,
                           payload, event_type)


def run(ctx):
    from hat.event import eventer
    from hat.event import common as ec
    from hat.event.eventer import common as evc
    from hat.drivers import tcp, chatter
    rng = ctx.rng

    def event(rng, c):
        return gevent(rng, c)._replace(
            id=c.EventId(rng.randint(0, 9), rng.randint(0, 9), 7))
    ctx.rule = 'one case per (requests, order of responses)'

    async def one():
        addr = tcp.Address('127.0.0.1', free_port())
        inbox = []
        conns = []
        log = []

        async def on_conn(conn):
            try:
                msg, t, d = await evc.receive_msg(conn)
                await evc.send_msg(conn, 'HatEventer.MsgInitRes', (
                    'success', ec.status_to_sbs(ec.Status.OPERATIONAL)),
                    conv=msg.conv)
                conns.append(conn)
                while True:
                    inbox.append(await evc.receive_msg(conn))
            except ConnectionError:
                pass
        srv = await chatter.listen(on_conn, addr)
        notified = []
        cl = await eventer.connect(addr, 'c',
                                   events_cb=lambda _, e: notified.append(
                                       list(e)))
        try:
            await wait_until(lambda: conns)
            conn = conns[0]
            calls = []
            for i in range(rng.randint(1, 8)):
                k = rng.choice(['register', 'register', 'query', 'noresp'])
                regs = [ec.RegisterEvent(event_type(rng, 2), None,
                                         payload(rng, ec))
                        for _ in range(rng.randint(0, 3))]
                params = ec.QueryServerParams(i + 1)
                n0 = len(inbox)
                if k == 'query':
                    t = asyncio.create_task(cl.query(params))
                else:
                    t = asyncio.create_task(cl.register(
                        regs, k == 'register'))
                ok = await wait_until(lambda: len(inbox) > n0, 5)
                ctx.check(ok, 'request sent', kind=k)
                msg, mt, md = inbox[-1]
                if k == 'query':
                    ctx.check(mt == 'HatEventer.MsgQueryReq' and
                              ec.query_params_from_sbs(md) == params,
                              'query request', got=(mt, md))
                else:
                    ctx.check(mt == 'HatEventer.MsgRegisterReq' and
                              [ec.register_event_from_sbs(i) for i in md] ==
                              regs and msg.last == (k == 'noresp'),
                              'register request', got=(mt, md))
                if k == 'noresp':
                    ok = await wait_until(t.done, 5)
                    ctx.check(ok and t.result() is None,
                              'request without response does not wait')
                    continue
                calls.append((k, t, msg, i))
            log.append([k for k, *_ in calls])
            order = list(calls)
            rng.shuffle(order)
            close_at = (rng.randint(0, len(order))
                        if rng.random() < 0.4 else None)
            cancel_at = (rng.randint(0, len(order))
                         if rng.random() < 0.3 else None)
            expect = {}
            cancelled = set()
            for pos, (k, t, msg, i) in enumerate(order):
                if pos == close_at:
                    break
                if pos == cancel_at:
                    victim = rng.choice(order)
                    if not victim[1].done():
                        victim[1].cancel()
                        cancelled.add(victim[1])
                        await settle(3)
                if rng.random() < 0.3:
                    e = event(rng, ec)
                    await evc.send_msg(conn, 'HatEventer.MsgEventsNotify',
                                       [ec.event_to_sbs(e)])
                if rng.random() < 0.2:
                    # response nobody waits for
                    await evc.send_msg(
                        conn, 'HatEventer.MsgRegisterRes',
                        ('failure', None), conv=chatter.Conversation(
                            owner=False, first_id=10 ** 6 + pos))
                if k == 'query':
                    res = ec.QueryResult([event(rng, ec)
                                          for _ in range(rng.randint(0, 2))],
                                         rng.random() < 0.5)
                    await evc.send_msg(conn, 'HatEventer.MsgQueryRes',
                                       ec.query_result_to_sbs(res),
                                       conv=msg.conv)
                elif rng.random() < 0.3:
                    res = None
                    await evc.send_msg(conn, 'HatEventer.MsgRegisterRes',
                                       ('failure', None), conv=msg.conv)
                else:
                    res = [event(rng, ec) for _ in range(rng.randint(0, 2))]
                    await evc.send_msg(
                        conn, 'HatEventer.MsgRegisterRes',
                        ('events', [ec.event_to_sbs(e) for e in res]),
                        conv=msg.conv)
                expect[t] = res
                if t in cancelled:
                    continue
                if rng.random() < 0.6:
                    await wait_until(t.done, 5)
                    await settle(2)
                for k2, t2, _, __ in order:
                    ctx.check(not t2.done() or t2 in expect or
                              t2 in cancelled,
                              'answered without its own response', log=log)
            live = [(k, t, i) for k, t, _, i in order
                    if t not in cancelled]
            answered = [x for x in live if x[1] in expect]
            if answered:
                done, pending = await asyncio.wait(
                    [t for _, t, __ in answered], timeout=5)
                ctx.check(not pending, 'response lost', log=log)
            for k, t, i in answered:
                r = t.result()
                want = expect[t]
                if k == 'query':
                    ctx.check(list(r.events) == want.events and
                              bool(r.more_follows) == want.more_follows,
                              'query response', got=r, want=want)
                else:
                    ctx.check((r is None) == (want is None) and
                              (r is None or list(r) == want),
                              'register response', got=r, want=want)
            rest = [t for k, t, i in live if t not in expect]
            if rng.random() < 0.5:
                cl.close()
            else:
                conn.close()
            if rest:
                done, pending = await asyncio.wait(rest, timeout=5)
                ctx.check(not pending, 'call hangs after closing', log=log)
                for t in rest:
                    ctx.check(isinstance(t.exception(), ConnectionError),
                              'connection error on close',
                              got=repr(t.exception()))
            await asyncio.wait_for(cl.wait_closed(), 5)
            for call in (lambda: cl.register([], True),
                         lambda: cl.query(ec.QueryLatestParams())):
                try:
                    r = await asyncio.wait_for(call(), 3)
                except ConnectionError:
                    continue
                except Exception as e:
                    r = e
                ctx.check(False, 'call on a closed connection',
                          got=repr(r))
            ctx.case(repr((log, len(expect), close_at, cancel_at)))
        finally:
            await cl.async_close()
            await srv.async_close()

    async def many():
        for _ in range(8):
            await one()
    for r in ctx.rounds(3):
        run_async(many())
