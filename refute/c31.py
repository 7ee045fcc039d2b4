"""Random histories of one component (<= 8 steps: changes of the active
server, lost connections, failing connects, slow, failing and closing
runners), with stand-ins for the monitor client and the eventer client."""

import asyncio
import functools

from refute.common import run_async, settle


def run(ctx):
    from hat import aio
    from hat.drivers import tcp
    import hat.event.component
    import hat.event.eventer.client
    import hat.monitor.common as mc
    import hat.monitor.component
    rng = ctx.rng
    ctx.rule = 'random histories of one component'

    ids = {}

    class Monitor(hat.monitor.component.Component):

        def __init__(self, state):
            self._group, self._st = aio.Group(), state

        @property
        def async_group(self):
            return self._group

        @property
        def state(self):
            return self._st

        @property
        def ready(self):
            return True

        async def set_ready(self, ready):
            pass

    def state(port):
        cs = []
        if port is not None:
            cs = [mc.ComponentInfo(
                cid=1, mid=1, name='n', group='sg',
                data={'server_id': ids[port],
                      'eventer_server': {'host': 'h', 'port': port},
                      'server_token': None}, rank=1,
                blessing_req=mc.BlessingReq(1, None),
                blessing_res=mc.BlessingRes(1, True))]
        return hat.monitor.component.State(None, cs)

    async def case():
        ids.update({1: rng.choice([0, 1]), 2: rng.choice([1, 2])})
        kwargs, args = {}, []
        if rng.random() < 0.4:
            kwargs['server_id'] = rng.choice([None, 0, 3])
        if rng.random() < 0.3:
            kwargs['subscriptions'] = [('*',)]
        log = []
        clients, runners = [], []
        conf = {'fail': False, 'cb': 0, 'err': False}
        got = {}
        # callbacks which are not required
        optional = {n: rng.random() < 0.5 for n in ('status', 'events')}
        called = []
        cbs = {n + '_cb': functools.partial(
            lambda n, *a: called.append((n, *a)), n)
            for n, given in optional.items() if given}

        class Runner(aio.Resource):
            def __init__(self, client):
                self._group = aio.Group(log_exceptions=False)
                self.client = client
                # known to the component a moment after it is created
                self.known = False
                loop = asyncio.get_running_loop()
                loop.call_soon(loop.call_soon, loop.call_soon,
                               lambda: setattr(self, 'known', True))

            @property
            def async_group(self):
                return self._group

            async def async_close(self):
                # clean up takes a while
                for _ in range(rng.randrange(3)):
                    await asyncio.sleep(0)
                await super().async_close()

        class Client(aio.Resource):
            def __init__(self, port):
                self._group = aio.Group(log_exceptions=False)
                self.port, self.lost, self.calls = port, False, 0

            @property
            def async_group(self):
                return self._group

            def close(self):
                if not self.lost and self.is_open:
                    open_ = [r for r in runners
                             if r.client is self and r.known and
                             not r.is_closed]
                    ctx.check(not open_, 'runner is closed before its client',
                              log=log)
                super().close()

            async def async_close(self):
                self.close()
                await super().async_close()

        async def connect(addr, client_name, **kw):
            log.append(('connect', addr.port))
            want = {'server_id': ids[addr.port], **kwargs}
            args.append(((client_name, {n: kw.get(n) for n in want}),
                         ('cn', want)))
            ctx.check(not [c for c in clients if not c.is_closed],
                      'one client at a time', log=log)
            await asyncio.sleep(0)
            if conf['fail']:
                raise Exception('connect failure')
            c = Client(addr.port)
            c.cbs = {n: kw.get(n + '_cb') for n in optional}
            clients.append(c)
            return c

        async def mconnect(addr, name, group, runner_cb, **kw):
            got.update(kw, runner_cb=runner_cb)
            got['m'] = Monitor(state(None))
            return got['m']

        async def cb(c, data, client):
            log.append(('runner', data.addr.port))
            ctx.check(c is comp and client is clients[-1] and
                      data.addr.port == client.port and
                      data.server_id == ids[client.port],
                      'runner for component, server and client', log=log)
            client.calls += 1
            ctx.eq(client.calls, 1, 'one runner for a connection', log=log)
            how = conf['cb']
            if how in (1, 3):
                for _ in range(rng.randint(1, 4)):
                    await asyncio.sleep(0)
            elif how == 2:
                await asyncio.sleep(0.004)
            if conf['err']:
                conf['dead'] = client.is_open
                raise Exception('runner failure')
            if how == 3:
                # other active server as the runner is created
                await change(rng.choice([None, 1, 2]))
            r = Runner(client)
            runners.append(r)
            return r
        current = [None]

        async def change(port):
            current[0] = port
            log.append(('active', port))
            got['m']._st = state(port)
            await got['state_cb'](got['m'], got['m']._st)

        saved = hat.monitor.component.connect, hat.event.eventer.client.connect
        hat.monitor.component.connect = mconnect
        hat.event.eventer.client.connect = connect
        closing = False
        try:
            comp = await hat.event.component.connect(
                tcp.Address('127.0.0.1', 1), 'n', 'g', 'sg', 'cn', cb,
                reconnect_delay=0.001, eventer_kwargs=dict(kwargs), **cbs)
            runner = await aio.call(got['runner_cb'], got['m'])
            for _ in range(rng.randint(1, 8)):
                k = rng.randrange(9)
                if k < 3:
                    await change(rng.choice([None, 1, 2, 2]))
                elif k == 8 and clients:
                    n, x = rng.choice(list(optional)), object()
                    called.clear()
                    await aio.call(clients[-1].cbs[n], clients[-1], x)
                    ctx.check(called == ([(n, comp, clients[-1], x)]
                                         if optional[n] else []),
                              'callbacks of the component', called=called,
                              given=optional)
                elif k == 3:
                    live = [c for c in clients if c.is_open]
                    if live:
                        log.append('lost')
                        live[0].lost = True
                        live[0].close()
                elif k == 4:
                    conf['cb'] = rng.randrange(4)
                elif k == 5:
                    conf['fail'] = rng.random() < 0.5
                elif k == 6 and rng.random() < 0.3:
                    conf['err'] = True
                elif k == 7 and rng.random() < 0.3:
                    await asyncio.sleep(0.005)
                    live = [r for r in runners if r.is_open and
                            r.client.is_open]
                    if live:
                        log.append('runner closes')
                        live[0].close()
                        closing = True
                n = rng.randrange(4)
                if n == 3:
                    await asyncio.sleep(0.003)
                else:
                    for _ in range(n):
                        await asyncio.sleep(0)
                if closing or conf.get('dead'):
                    break
            for a, b in args:
                ctx.eq(a, b, 'arguments of the connection', log=log)
            conf['fail'] = False
            conf['cb'] = 0
            if not closing and not conf['err']:
                for _ in range(100):
                    await asyncio.sleep(0.003)
                    live = [c for c in clients if not c.is_closed]
                    rs = [r for r in runners if not r.is_closed]
                    ok = ([(c.port) for c in live] == [current[0]] and
                          [r.client for r in rs] == live) \
                        if current[0] is not None else not live and not rs
                    if ok:
                        break
                ctx.check(comp.is_open, 'component stays open', log=log)
                ctx.check(ok, 'connected exactly to the active server with '
                              'one runner', log=log,
                          active=current[0],
                          clients=[c.port for c in live],
                          runners=[r.client.port for r in rs])
            elif closing:
                await asyncio.sleep(0.01)
                ctx.check(comp.is_closing,
                          'closed runner closes the component', log=log)
            await runner.async_close()
            await comp.async_close()
            ctx.check(all(r.is_closed for r in runners),
                      'no runner is left', log=log)
            ctx.check(all(c.is_closed for c in clients),
                      'no client is left', log=log)
            ctx.case(repr(log))
        finally:
            hat.monitor.component.connect, hat.event.eventer.client.connect \
                = saved

    async def many(n):
        for _ in range(n):
            await case()
    for r in ctx.rounds(10):
        run_async(many(20))
