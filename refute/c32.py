"""Random servers (with and without monitor, administration, token and log
configuration; parts failing to start or closing, cancellation, flush
failing) with recording stand-ins for the parts; the real entry point with
valid and invalid configurations."""

import asyncio
import contextlib
import sys
import types

from refute.common import run_async, settle


@contextlib.contextmanager
def patched(*pairs):
    saved = []
    try:
        for obj, name, v in pairs:
            if hasattr(obj, name):
                saved.append((obj, name, getattr(obj, name)))
                setattr(obj, name, v)
        yield
    finally:
        for obj, name, v in reversed(saved):
            setattr(obj, name, v)


def run(ctx):
    from hat import aio, json
    from hat.event import common as c
    import hat.event.server.adminer_server as ads
    import hat.event.server.engine_runner as er
    import hat.event.server.eventer_client_runner as ecr
    import hat.event.server.eventer_server as evs
    import hat.event.server.main as main
    import hat.event.server.main_runner as mr
    import hat.monitor.common as mc
    import hat.monitor.component as hmc
    rng = ctx.rng
    ctx.rule = 'one case per (configuration, failures, history)'

    class Part(aio.Resource):
        def __init__(self, w, name, kw):
            self._group = aio.Group(log_exceptions=False)
            self.w, self.name, self.kw = w, name, kw
            self.got = []
            w.parts[name] = self
            w.log.append(('start', name))

        @property
        def async_group(self):
            return self._group

        async def async_close(self):
            if not self.is_closed:
                self.w.log.append(('closing', self.name))
            for _ in range(rng.randrange(3)):
                await asyncio.sleep(0)
            await super().async_close()
            if ('close', self.name) not in self.w.log:
                self.w.log.append(('close', self.name))

        async def flush(self):
            self.w.log.append(('flush', ))
            for _ in range(rng.randrange(3)):
                await asyncio.sleep(0)
            if self.w.flush_fails:
                raise Exception('flush failed')

        async def notify_events(self, events, persisted, with_ack=False):
            self.got.append(('notify', events, persisted, with_ack))

        def set_monitor_state(self, state):
            self.got.append(('state', state))

        async def set_synced(self, *a):
            self.got.append(('synced', *a))

        async def set_ready(self, ready):
            self.w.ready.append(ready)

        @property
        def state(self):
            return self.w.state

        @property
        def ready(self):
            return self.w.ready[-1] if self.w.ready else False

    def make_state(token):
        i = mc.ComponentInfo(
            cid=1, mid=1, name='n', group='g', data=None, rank=1,
            blessing_req=mc.BlessingReq(token, None),
            blessing_res=mc.BlessingRes(token, True))
        return hmc.State(i if token is not None or rng.random() < 0.5
                         else None, [])

    async def case():
        w = types.SimpleNamespace(parts={}, log=[], ready=[], flush_fails=(
            rng.random() < 0.2), state=make_state(None))
        monitor = rng.random() < 0.5
        conf = {'name': 'n1', 'server_id': rng.randint(1, 5),
                'backend': {'module': 'vf_backend', 'x': rng.random()},
                'modules': [], 'eventer_server': {'host': 'h1', 'port': 1}}
        if rng.random() < 0.5:
            conf['server_token'] = 'token'
        if rng.random() < 0.5:
            conf['log'] = {'version': 1}
        if rng.random() < 0.5:
            conf['adminer_server'] = {'host': 'h2', 'port': 2}
        if monitor:
            conf['monitor_component'] = {'host': 'h3', 'port': 3,
                                         'group': 'gr'}
        names = (['backend', 'eventer_server'] +
                 (['adminer_server'] if 'adminer_server' in conf else []) +
                 (['eventer_client_runner', 'monitor_component',
                   'engine_runner'] if monitor else ['engine_runner']))
        fails = rng.choice(names) if rng.random() < 0.3 else None
        d = dict(conf=conf, fails=fails, flush_fails=w.flush_fails,
                 log=w.log)

        def made(name, **kw):
            if name == fails:
                raise Exception('part failed')
            ctx.check(name not in w.parts, 'part is created once',
                      part=name, **d)
            return Part(w, name, kw)

        def addr(a, n):
            ctx.check((a.host, a.port) == (conf[n]['host'],
                                           conf[n]['port']),
                      'address of ' + n, got=a, **d)

        def create_backend(bconf, registered, flushed):
            ctx.eq(bconf, conf['backend'], 'backend configuration')
            return made('backend', cbs=(registered, flushed))

        async def create_server(addr_=None, backend=None, server_id=None,
                                *, server_token=None, **kw):
            addr(kw.get('addr', addr_), 'eventer_server')
            ctx.check(backend is w.parts['backend'] and
                      server_id == conf['server_id'] and
                      server_token == conf.get('server_token'),
                      'arguments of the eventer server', **d)
            await asyncio.sleep(0)
            # events before there is a server to notify them
            await aio.call(w.parts['backend'].kw['cbs'][rng.randrange(2)],
                           [object()])
            return made('eventer_server')

        async def create_adminer(addr_=None, log_conf=None, **kw):
            addr(kw.get('addr', addr_), 'adminer_server')
            ctx.eq(log_conf, conf.get('log'), 'log configuration')
            return made('adminer_server')

        def client_runner(conf, backend, synced_cb, **kw):
            ctx.check(conf == d['conf'] and backend is w.parts['backend'],
                      'arguments of the eventer client runner', **d)
            return made('eventer_client_runner', synced=synced_cb)

        def engine_runner(conf, backend, eventer_server,
                          eventer_client_runner, reset_monitor_ready_cb,
                          **kw):
            ctx.check(conf == d['conf'] and backend is w.parts['backend'] and
                      eventer_server is w.parts['eventer_server'] and
                      eventer_client_runner is
                      w.parts.get('eventer_client_runner'),
                      'arguments of the engine runner', **d)
            return made('engine_runner', reset=reset_monitor_ready_cb)

        async def mconnect(addr_=None, name=None, group=None, runner_cb=None,
                           data=None, state_cb=None, close_req_cb=None,
                           **kw):
            addr(kw.get('addr', addr_), 'monitor_component')
            ctx.check(name == 'n1' and group == 'gr' and data == {
                'server_id': conf['server_id'],
                'eventer_server': conf['eventer_server'],
                'server_token': conf.get('server_token')},
                'arguments of the monitor component', got=data, **d)
            await asyncio.sleep(0)
            p = made('monitor_component', state=state_cb, close=close_req_cb)

            async def close():
                # the component closes its runner
                r = w.parts.get('engine_runner')
                if r:
                    await r.async_close()
                await Part.async_close(p)
            p.async_close = close

            async def runner():
                try:
                    r = await aio.call(runner_cb, p)
                    await r.wait_closing()
                except Exception:
                    pass
                p.close()
            if rng.random() < 0.8:
                p.async_group.spawn(runner)
            return p
        mlib = types.SimpleNamespace(monitor=types.SimpleNamespace(
            component=types.SimpleNamespace(connect=mconnect)))
        import_info = lambda name: types.SimpleNamespace(     # noqa
            create=create_backend, json_schema_id=None,
            json_schema_repo=None)
        ctx.case(repr(d))
        with patched((mr, 'create_eventer_server', create_server),
                     (evs, 'create_eventer_server', create_server),
                     (mr, 'create_adminer_server', create_adminer),
                     (ads, 'create_adminer_server', create_adminer),
                     (mr, 'EventerClientRunner', client_runner),
                     (ecr, 'EventerClientRunner', client_runner),
                     (mr, 'EngineRunner', engine_runner),
                     (er, 'EngineRunner', engine_runner),
                     (hmc, 'connect', mconnect),
                     (c, 'import_backend_info', import_info)):
            timeout = w.timeout = rng.choice([0.02, 60])
            s = mr.MainRunner(conf, reset_monitor_ready_timeout=timeout)
            try:
                await history(w, s, conf, monitor, names, fails, d)
            finally:
                s.close()
                done = asyncio.create_task(s.async_close())
                await asyncio.wait([done], timeout=5)
                ctx.check(done.done(), 'server closes', **d)
            closed(w, d)

    async def history(w, s, conf, monitor, names, fails, d):
        if rng.random() < 0.2:
            await settle(rng.randint(0, 6))
            return
        await settle(25)
        if fails:
            if fails != 'engine_runner' or not monitor:
                ctx.check(not s.is_open, 'server closes with its parts',
                          **d)
            await settle(5)
            return
        missing = set(names) - set(w.parts) - (
            {'engine_runner'} if monitor else set())
        ctx.check(not missing, 'every configured part is started',
                  missing=missing, **d)
        ctx.check(s.is_open, 'server stays open', **d)
        p = w.parts
        if monitor:
            ctx.eq(w.ready, [True], 'ready is announced', **d)
            ctx.check(('state', w.state) in p['eventer_client_runner'].got,
                      'initial monitor state', **d)
        for _ in range(rng.randint(1, 5)):
            k = rng.randrange(5)
            if k == 0:
                i, ev = rng.randrange(2), [object()]
                es = p['eventer_server']
                es.got.clear()
                await aio.call(p['backend'].kw['cbs'][i], ev)
                ctx.check(len(es.got) == 1 and es.got[0][1] is ev and
                          es.got[0][2] is bool(i) and not es.got[0][3],
                          'backend events are notified with their persisted '
                          'flag', got=es.got, **d)
            elif k == 1 and monitor:
                w.state = st = make_state(rng.choice([None, 7]))
                cr = p['eventer_client_runner']
                cr.got.clear()
                await aio.call(p['monitor_component'].kw['state'],
                               p['monitor_component'], st)
                ctx.check(cr.got == [('state', st)],
                          'monitor state reaches the eventer client runner',
                          got=cr.got, **d)
            elif k == 2 and monitor and 'engine_runner' in p:
                a = (rng.randint(1, 3), object(), rng.choice([None, 3]))
                p['engine_runner'].got.clear()
                await aio.call(p['eventer_client_runner'].kw['synced'], *a)
                ctx.check(p['engine_runner'].got == [('synced', *a)],
                          'synchronisation reaches the engine runner', **d)
            elif k == 3 and monitor and 'engine_runner' in p:
                w.state = make_state(rng.choice([None, 7]))
                token = (w.state.info and w.state.info.blessing_res.token)
                w.ready.clear()
                w.ready.append(True)
                p['engine_runner'].kw['reset']()
                await settle(6)
                if token is not None and w.timeout > 1:
                    if rng.random() < 0.5:
                        w.state = make_state(9)
                        await aio.call(p['monitor_component'].kw['state'],
                                       p['monitor_component'], w.state)
                        await settle(20)
                    ctx.eq(w.ready, [True, False], 'not ready after a reset '
                           'until the token is withdrawn', **d)
                    w.state = make_state(None)
                    await aio.call(p['monitor_component'].kw['state'],
                                   p['monitor_component'], w.state)
                for _ in range(200):
                    if len(w.ready) > 2:
                        break
                    await asyncio.sleep(0.005)
                ctx.eq(w.ready, [True, False, True], 'ready again', **d)
            elif k == 4 and monitor and 'engine_runner' not in p:
                # requests before there is an engine runner
                await aio.call(p['monitor_component'].kw['close'],
                               p['monitor_component'])
                await aio.call(p['eventer_client_runner'].kw['synced'],
                               1, object(), None)
                ctx.check(s.is_open, 'server stays open', **d)
            await settle(rng.randrange(3))
        if rng.random() < 0.6:
            name = rng.choice(list(p))
            w.log.append(('lost', name))
            p[name].close()
            await settle(4 if name != 'engine_runner' else 12)
            ctx.check(not s.is_open, 'server closes with its parts',
                      part=name, **d)
        elif monitor and 'engine_runner' in p and rng.random() < 0.3:
            await aio.call(p['monitor_component'].kw['close'],
                           p['monitor_component'])
            ctx.check(p['engine_runner'].is_closed,
                      'close request closes the engine runner', **d)

    def closed(w, d):
        for n, p in w.parts.items():
            ctx.check(p.is_closed, 'every started part is closed', part=n,
                      **d)
        log = [i for i in w.log if i[0] in ('close', 'closing', 'flush')]

        def at(x):
            return log.index(x) if x in log else None
        users = [at(('close', n)) for n in (
            'engine_runner', 'eventer_client_runner') if n in w.parts]
        lost = {i[1] for i in w.log if i[0] == 'lost'}
        srv, back = at(('closing', 'eventer_server')), at(
            ('closing', 'backend'))
        if 'eventer_server' in w.parts:
            fl = at(('flush', ))
            ctx.check(fl is not None, 'backend is flushed', **d)
            if 'eventer_server' not in lost:
                ctx.check(srv is None or fl < srv, 'backend is flushed '
                          'before the eventer server closes', **d)
            ctx.check(not any(u is not None and u > fl for u in users),
                      'users of the backend close before the flush', **d)
        if 'backend' in w.parts and 'backend' not in lost:
            ctx.check(back is not None and not any(
                u is not None and u > back for u in users +
                [at(('close', 'eventer_server'))]),
                'backend closes last', **d)

    # ---- entry point

    def entry():
        conf = {'type': 'event', 'name': 'n', 'server_id': 1,
                'backend': {'module': 'vf_mock_b', 'v': 1},
                'modules': [{'module': rng.choice(['vf_mock_m',
                                                   'vf_mock_n']), 'v': 1}
                            for _ in range(rng.randint(0, 3))],
                'eventer_server': {'host': 'h', 'port': 1}}
        schema = {'$schema': 'https://json-schema.org/draft/2020-12/schema',
                  '$id': 'hat-vf://conf.yaml', 'type': 'object',
                  'properties': {'v': {'type': 'integer'}}}
        repo = json.create_schema_repository(schema)
        mods = {}
        for n, info in (('vf_mock_b', c.BackendInfo),
                        ('vf_mock_m', c.ModuleInfo),
                        ('vf_mock_n', c.ModuleInfo)):
            mods[n] = types.ModuleType(n)
            mods[n].info = info(lambda *a: None, 'hat-vf://conf.yaml',
                                repo) if n != 'vf_mock_n' else info(
                lambda *a: None)
        bad = rng.choice([None, None, 'server', 'backend', 'module'])
        ok = True
        if bad == 'server':
            conf[rng.choice(['server_id', 'name'])] = None
            ok = False
        elif bad == 'backend':
            conf['backend']['v'] = 'x'
            ok = False
        elif bad == 'module' and conf['modules']:
            m = rng.choice(conf['modules'])
            m['v'] = 'x'
            ok = m['module'] == 'vf_mock_n'
        ran = []
        cancel = rng.random() < 0.3

        class Runner:
            def __init__(self, cf, *a, **k):
                ran.append(cf)

            async def wait_closing(self):
                ran.append('closing')
                if cancel:
                    raise asyncio.CancelledError()

            async def async_close(self):
                ran.append('close')
        ctx.case(repr((conf, cancel)))
        sys.modules.update(mods)

        async def sleep(t, *a):
            pass
        try:
            with patched((main, 'MainRunner', Runner), (mr, 'MainRunner',
                                                        Runner),
                         (main.aio, 'init_asyncio', lambda *a, **k: None),
                         (main.aio, 'run_asyncio', asyncio.run),
                         (asyncio, 'sleep', sleep)):
                try:
                    main.sync_main(conf)
                    failed = None
                except Exception as e:
                    failed = e
        finally:
            for n in mods:
                sys.modules.pop(n, None)
        if ok:
            ctx.check(failed is None, 'valid configuration starts',
                      conf=conf, got=repr(failed))
            ctx.check(ran[:2] == [conf, 'closing'] and ran[-1] == 'close' and
                      sum(r == conf for r in ran) == 1,
                      'server runs until it closes', conf=conf, got=ran)
        else:
            ctx.check(failed is not None and not ran,
                      'invalid configuration does not start', conf=conf,
                      got=ran)

    async def many():
        for _ in range(20):
            await case()
    for r in ctx.rounds(5):
        run_async(many())
        for _ in range(10):
            entry()
