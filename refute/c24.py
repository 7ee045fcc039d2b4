"""Event server with stand-in backend and engines, <= 6 clients on loopback
with random tokens, random requests and engine changes."""

import asyncio

from refute.common import (free_port, run_async, wait_until, event_type,
                           payload)


def run(ctx):
    from hat import aio
    from hat.drivers import tcp
    from hat.event import common as ec
    from hat.event import eventer
    from hat.event.server import eventer_server as es
    rng = ctx.rng
    ctx.rule = 'one case per (tokens, requests, engine changes)'

    class Engine(aio.Resource):
        def __init__(self, log, n):
            self._g = aio.Group()
            self.log = log
            self.n = n
            self.answer = None

        @property
        def async_group(self):
            return self._g

        async def register(self, source, events):
            self.log.append((self.n, source, list(events)))
            if rng.random() < 0.3:
                await asyncio.sleep(0)
            if not self.is_open:
                raise Exception('engine closed')
            if self.answer == 'none':
                return None
            return [ec.Event(ec.EventId(1, 1, i + 1), e.type,
                             ec.Timestamp(1, 2), e.source_timestamp,
                             e.payload) for i, e in enumerate(events)]

    class Backend(aio.Resource):
        def __init__(self):
            self._g = aio.Group()
            self.queries = []
            self.answer = None

        @property
        def async_group(self):
            return self._g

        async def query(self, params):
            self.queries.append(params)
            return self.answer

    async def one():
        addr = tcp.Address('127.0.0.1', free_port())
        token = rng.choice([None, 'tok', 'tok', ''])
        server_id = rng.choice([0, 1, 7])
        backend = Backend()
        calls = []
        srv = await es.create_eventer_server(addr, backend, server_id,
                                             server_token=token)
        engines = 0
        engine = None
        clients = []
        log = [('token', token)]

        def eventer_event(name, status):
            return ec.RegisterEvent(
                ('event', str(server_id), 'eventer', name), None,
                ec.EventPayloadJson(status))

        def take():
            r = list(calls)
            calls.clear()
            return r

        async def set_engine(on):
            nonlocal engine, engines
            if engine is not None:
                await srv.set_status(rng.choice([
                    ec.Status.STOPPING, ec.Status.STANDBY]), None)
                await engine.async_close()
                engine = None
            if on:
                engines += 1
                engine = Engine(calls, engines)
                await srv.set_status(ec.Status.OPERATIONAL, engine)
            log.append(('engine', on))
        sources = {}
        try:
            for step in range(rng.randint(4, 16)):
                k = rng.random()
                if k < 0.2:
                    await set_engine(rng.random() < 0.7)
                elif k < 0.45:
                    t = rng.choice([None, 'tok', 'tok', 'bad', '', 'TOK'])
                    name = f'n{step}'
                    ok = t is None or t == token
                    got = []
                    log.append(('connect', t))
                    try:
                        cl = await eventer.connect(
                            addr, name, client_token=t,
                            subscriptions=[('*',)],
                            events_cb=lambda _, e, got=got: got.append(e))
                    except eventer.EventerInitError:
                        ctx.check(not ok, 'client rejected', token=token,
                                  client_token=t, log=log)
                        await asyncio.sleep(0)
                        ctx.eq(take(), [], 'rejected client is not '
                               'registered', log=log)
                        names = [n for _, n in srv.get_client_names()]
                        ctx.check(name not in names,
                                  'rejected client listed', log=log)
                        continue
                    ctx.check(ok, 'client accepted', token=token,
                              client_token=t, log=log)
                    want = eventer_event(name, 'CONNECTED')
                    c = take()
                    names = {n: s for s, n in srv.get_client_names()}
                    ctx.check(name in names, 'client listed', log=log)
                    src = names[name]
                    ctx.check(src.type == ec.SourceType.EVENTER and
                              src not in sources.values(),
                              'distinct client sources', log=log,
                              source=src)
                    sources[name] = src
                    ctx.eq(c, [(engine.n, src, [want])] if engine else [],
                           'connected event', log=log)
                    clients.append((name, cl, got))
                elif k < 0.55 and clients:
                    name, cl, got = clients.pop(rng.randrange(len(clients)))
                    log.append(('disconnect', name))
                    await cl.async_close()
                    await wait_until(lambda: name not in [
                        n for _, n in srv.get_client_names()], 5)
                    want = [(engine.n, sources[name], [eventer_event(
                        name, 'DISCONNECTED')])] if engine else []
                    await wait_until(lambda: calls == want, 1)
                    ctx.eq(take(), want, 'disconnected event', log=log)
                elif k < 0.8 and clients:
                    name, cl, got = rng.choice(clients)
                    regs = [ec.RegisterEvent(event_type(rng, 2), None,
                                             payload(rng, ec))
                            for _ in range(rng.randint(0, 3))]
                    if engine:
                        engine.answer = rng.choice([None, None, 'none'])
                    resp = rng.random() < 0.7
                    log.append(('register', name, resp))
                    r = await asyncio.wait_for(cl.register(regs, resp), 5)
                    # barrier: requests of a connection are sequential
                    backend.answer = ec.QueryResult([], False)
                    await asyncio.wait_for(cl.query(
                        ec.QueryLatestParams()), 5)
                    backend.queries.clear()
                    ctx.eq(take(), [(engine.n, sources[name], regs)]
                           if engine else [], 'register request', log=log)
                    if not resp:
                        ctx.eq(r, None, 'no response')
                    elif engine is None or engine.answer:
                        ctx.eq(r, None, 'failure response', log=log)
                    else:
                        ctx.check(r is not None and [
                            (e.type, e.payload) for e in r] == [
                            (e.type, e.payload) for e in regs],
                            'register response', got=r, log=log)
                elif clients:
                    name, cl, got = rng.choice(clients)
                    q = rng.choice([
                        ec.QueryLatestParams([('a',)]),
                        ec.QueryServerParams(3, True, 5),
                        ec.QueryTimeseriesParams(max_results=3)])
                    backend.answer = ec.QueryResult([ec.Event(
                        ec.EventId(1, 2, step), ('q',), ec.Timestamp(0, 0),
                        None, None)], rng.random() < 0.5)
                    log.append(('query', name))
                    r = await asyncio.wait_for(cl.query(q), 5)
                    ctx.check(list(r.events) == backend.answer.events and
                              bool(r.more_follows) ==
                              backend.answer.more_follows,
                              'query answered by the backend', got=r)
                    ctx.check(len(backend.queries) == 1 and
                              type(backend.queries[0]) is type(q),
                              'query reaches the backend',
                              got=backend.queries)
                    backend.queries.clear()
                    ctx.eq(take(), [], 'query registers nothing')
                if rng.random() < 0.2 and clients:
                    e = ec.Event(ec.EventId(1, 1, step + 1), ('x',),
                                 ec.Timestamp(0, 0), None, None)
                    for _, __, got in clients:
                        got.clear()
                    await srv.notify_events([e], False, True)
                    for name, _, got in clients:
                        ctx.eq([list(i) for i in got], [[e]],
                               'accepted client is notified', log=log)
            for st in ec.Status:
                bad = (None if st == ec.Status.OPERATIONAL
                       else Engine(calls, 99))
                try:
                    await srv.set_status(st, bad)
                except ValueError:
                    continue
                ctx.check(False, 'engine only while operational', status=st)
            ctx.case(repr(log))
        finally:
            for _, cl, __ in clients:
                await cl.async_close()
            await srv.async_close()

    async def many():
        for _ in range(6):
            await one()
    for r in ctx.rounds(3):
        run_async(many())
