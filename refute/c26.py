"""Engine runner with recording eventer server and backend stand-ins, real
engine and real eventer client runner; <= 3 remote servers (real eventer
servers on loopback) with random status changes, connection losses, restarts
and engine or runner closings."""

import asyncio

from refute.common import free_port, run_async, settle, wait_until


def run(ctx):
    from hat import aio
    from hat.drivers import tcp
    from hat.event import common as ec
    from hat.event import eventer
    from hat.event.server import engine_runner as er
    from hat.event.server import eventer_client_runner as ecr
    import hat.monitor.component
    import hat.monitor.common
    rng = ctx.rng
    ctx.rule = 'one case per sequence of remote/engine changes'
    S = ec.Status

    class Backend(ec.Backend):
        def __init__(self, log):
            self._g = aio.Group()
            self.log = log
            self.n = 0
            self.closed = list

        @property
        def async_group(self):
            return self._g

        async def get_last_event_id(self, server_id):
            return ec.EventId(server_id, self.n, 1)

        async def register(self, events):
            self.n += 1
            await asyncio.sleep(0)
            self.log.append(('register', [
                e.payload.data for e in events
                if e.type == ('event', '1', 'engine')]))
            return events

        async def query(self, params):
            return ec.QueryResult([], False)

        async def flush(self):
            self.log.append(('flush', self.closed()))
            if rng.random() < 0.5:
                await asyncio.sleep(0.001)
            self.log.append(('flushed',))

    class Server(aio.Resource):
        def __init__(self, log):
            self._g = aio.Group()
            self.log = log
            self.status = S.STANDBY
            self.engine = None
            self.engines = []

        @property
        def async_group(self):
            return self._g

        async def set_status(self, status, engine):
            if engine is not None and engine not in self.engines:
                self.engines.append(engine)
            self.log.append(('status', status, engine,
                             engine.is_open if engine else None,
                             [e.is_closed for e in self.engines]))
            self.status = status
            self.engine = engine
            if rng.random() < 0.5:
                await asyncio.sleep(0)

        async def notify_events(self, events, persisted, with_ack=False):
            pass

        def get_client_names(self):
            return []

    class Remote:
        """stand-in of the client runner"""

        def __init__(self, log):
            from hat import util
            self.log = log
            self.remote_active = False
            self.cbs = util.CallbackRegistry()

        def register_remote_active_cb(self, cb):
            return self.cbs.register(cb)

        def set(self, v):
            if v == self.remote_active:
                return
            self.remote_active = v
            self.log.append(('remote', v))
            self.cbs.notify(v)

    def check_log(log):
        """order of announcements around each engine"""
        remote = False
        state = 'standby'
        engine = None
        closing = False
        for e in log:
            if e[0] == 'remote':
                remote = e[1]
            elif e[0] == 'status':
                st, eng, opened, closed = e[1:]
                ctx.check((eng is not None) == (st == S.OPERATIONAL),
                          'engine handed over only while operational',
                          log=log)
                if st == S.STARTING:
                    ctx.check(state == 'standby', 'STARTING after STANDBY',
                              log=log)
                    ctx.check(not remote, 'started while remote is active',
                              log=log)
                    state = 'starting'
                elif st == S.OPERATIONAL:
                    ctx.check(state == 'starting',
                              'OPERATIONAL after STARTING', log=log)
                    ctx.check(eng is not engine, 'new engine', log=log)
                    engine = eng
                    state = 'operational'
                elif st == S.STOPPING:
                    ctx.check(state == 'operational' or
                              closing,
                              'STOPPING after OPERATIONAL', log=log,
                              state=state)
                    state = 'stopping'
                elif st == S.STANDBY:
                    ctx.check(state == 'flushed', 'STANDBY after flush',
                              log=log, state=state)
                    ctx.check(all(closed), 'STANDBY after engine closed',
                              log=log)
                    state = 'standby'
            elif e[0] == 'register':
                if 'STARTED' in e[1]:
                    ctx.check(state != 'standby', 'engine started '
                              'after STARTING', log=log, state=state)
            elif e[0] == 'flush':
                ctx.check(state == 'stopping', 'flush while stopping',
                          log=log, state=state)
                ctx.check(all(e[1]), 'flush after the engine closed',
                          log=log)
                state = 'flushing'
            elif e[0] == 'flushed':
                ctx.check(state == 'flushing', 'flush', log=log)
                state = 'flushed'
            elif e[0] == 'runner close':
                closing = True
        return state

    async def engine_case():
        log = []
        backend = Backend(log)
        server = Server(log)
        backend.closed = lambda: [e.is_closed for e in server.engines]
        remote = Remote(log) if rng.random() < 0.8 else None
        if remote and rng.random() < 0.5:
            remote.set(True)
        conf = {'server_id': 1, 'modules': []}
        runner = er.EngineRunner(conf, backend, server, remote,
                                 lambda: None)
        try:
            for _ in range(rng.randint(2, 8)):
                k = rng.random()
                if k < 0.4 and remote:
                    remote.set(not remote.remote_active)
                    if rng.random() < 0.4:
                        await settle(rng.randint(0, 3))
                        remote.set(not remote.remote_active)
                elif k < 0.65 and server.engine:
                    log.append(('restart',))
                    server.engine.restart()
                    if rng.random() < 0.3:
                        server.engine and server.engine.restart()
                elif k < 0.8 and server.engine:
                    src = ec.Source(ec.SourceType.EVENTER, 1)
                    try:
                        await server.engine.register(src, [
                            ec.RegisterEvent(('a',), None, None)])
                    except Exception:
                        pass
                if rng.random() < 0.7:
                    await settle(rng.randint(0, 30))
                else:
                    await asyncio.sleep(0.004)
                if rng.random() < 0.3:
                    # quiescent: running exactly when nothing is in the way
                    busy = remote and remote.remote_active
                    if not busy and runner.is_open:
                        ok = await wait_until(
                            lambda: server.status == S.OPERATIONAL, 3)
                        ctx.check(ok, 'engine runs when no remote server '
                                  'is active', log=log)
                        ctx.check(server.engine is not None and
                                  server.engine.is_open,
                                  'engine is open while operational',
                                  log=log)
                check_log(log)
            end = rng.random()
            if end < 0.4 and server.engine:
                log.append(('engine close',))
                server.engine.close()
                ok = await wait_until(lambda: runner.is_closed, 5)
                ctx.check(ok, 'runner closes after its engine', log=log)
            else:
                log.append(('runner close',))
                await asyncio.wait_for(runner.async_close(), 10)
            st = check_log(log)
            ctx.check(st == 'standby', 'ends in STANDBY', log=log, state=st)
            ctx.check(all(e.is_closed for e in server.engines) and
                      server.engine is None, 'engines closed', log=log)
            ctx.case(repr([e[:2] for e in log]))
        finally:
            await runner.async_close()

    async def client_case():
        n = rng.randint(1, 3)
        addrs = [tcp.Address('127.0.0.1', free_port()) for _ in range(n)]
        servers = [None] * n
        announced = []
        log = []
        conf = {'name': 'me', 'server_id': 1, 'server_token': None,
                'monitor_component': {'group': 'g'}}
        backend = Backend([])
        synced = []
        runner = ecr.EventerClientRunner(
            conf, backend,
            lambda sid, state, count: synced.append((sid, state, count)),
            reconnect_delay=0.01)
        runner.register_remote_active_cb(announced.append)
        Info = hat.monitor.common.ComponentInfo
        me = Info(cid=0, mid=0, name='me', group='g', data=None, rank=1,
                  blessing_req=hat.monitor.common.BlessingReq(None, None),
                  blessing_res=hat.monitor.common.BlessingRes(None, True))

        def monitor(visible):
            runner.set_monitor_state(hat.monitor.component.State(
                info=me, components=[me] + [
                    me._replace(cid=i + 1, mid=i + 1, name=f'r{i}', data={
                        'server_id': 10 + i, 'server_token': None,
                        'eventer_server': {'host': a.host, 'port': a.port}})
                    for i, a in enumerate(addrs) if i in visible]))
        visible = set(range(n))

        def want():
            return any(s is not None and i in seen and
                       s[1] != S.STANDBY
                       for i, s in enumerate(servers))
        seen = set()

        async def stable():
            t = want()
            ok = await wait_until(lambda: runner.remote_active == t, 3)
            ctx.check(ok, 'remote server active while connection reports '
                      'a status other than standby', log=log,
                      want=t)
            await asyncio.sleep(0.03)
            ctx.check(runner.remote_active == t, 'remote activity stays',
                      log=log, want=t)
            ctx.check(all(a != b for a, b in zip(
                [False] + announced, announced)) and
                (announced[-1] if announced else False) == t,
                'remote activity announced on each change',
                announced=announced, log=log)

        async def start(i):
            st = rng.choice(list(S))
            srv = await eventer.listen(
                addrs[i], status=st,
                query_cb=lambda info, p: ec.QueryResult([], False))
            servers[i] = [srv, st]
            log.append(('start', i, st.name))
            if i in seen:
                await wait_until(lambda: srv.get_conn_infos(), 3)
                await settle(10)
        try:
            for i in range(n):
                if rng.random() < 0.6:
                    await start(i)
            monitor(visible)
            seen = set(visible)
            await asyncio.sleep(0.05)
            await stable()
            for _ in range(rng.randint(2, 6)):
                i = rng.randrange(n)
                if servers[i] is None:
                    await start(i)
                elif rng.random() < 0.3:
                    log.append(('stop', i))
                    srv = servers[i][0]
                    servers[i] = None
                    await srv.async_close()
                else:
                    st = rng.choice(list(S))
                    servers[i][1] = st
                    log.append(('status', i, st.name))
                    await servers[i][0].set_status(st)
                if rng.random() < 0.6:
                    await stable()
            await stable()
            log.append(('close',))
            await asyncio.wait_for(runner.async_close(), 10)
            ctx.check(runner.remote_active is False and
                      (not announced or announced[-1] is False),
                      'closed runner has no connection', log=log,
                      announced=announced)
            ctx.case(repr(log))
        finally:
            await runner.async_close()
            for s in servers:
                if s:
                    await s[0].async_close()

    async def many():
        for i in range(10):
            await engine_case()
        for i in range(2):
            await client_case()
    for r in ctx.rounds(2):
        run_async(many())
