"""Random monitor states (<= 6 components, valid and malformed data) given to
the client runner and to the component; connection attempts are recorded by a
stand-in for the network layer."""

import asyncio
import contextlib
import itertools

from refute.common import run_async, settle


@contextlib.contextmanager
def recorded_connections(log):
    from hat.drivers import net
    import hat.drivers.chatter

    async def connect(addr, *a, **k):
        log.append((addr.host, addr.port))
        await asyncio.get_running_loop().create_future()
    saved = net.connect
    net.connect = connect
    try:
        yield
    finally:
        net.connect = saved


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def addr_of(data):
    """(host, port, token) of valid published data, else None"""
    if not isinstance(data, dict):
        return None
    es = data.get('eventer_server')
    if not isinstance(es, dict):
        return None
    if not is_int(data.get('server_id')) or not isinstance(
            es.get('host'), str) or not is_int(es.get('port')):
        return None
    t = data.get('server_token')
    if t is not None and not isinstance(t, str):
        return None
    return es['host'], es['port'], t


def run(ctx):
    from hat.drivers import tcp
    from hat.event import common
    import hat.event.component
    import hat.event.server.eventer_client_runner as ecr
    import hat.monitor.common as mc
    import hat.monitor.component
    rng = ctx.rng
    ctx.rule = 'random monitor states; distinct (configuration, states)'
    ports = itertools.count(20000)

    def data(i):
        k = rng.random()
        if k < 0.1:
            return rng.choice([None, {}, [], 'x', 5, {'server_id': 1},
                               {'eventer_server': None}])
        d = {'server_id': rng.randint(0, 5),
             'eventer_server': {'host': '127.0.0.1', 'port': i},
             'server_token': rng.choice([None, 't1', 't1', 't2'])}
        if rng.random() < 0.1:
            del d['server_token']
        if rng.random() < 0.3:
            j = rng.randrange(8)
            if j == 0:
                d['server_id'] = rng.choice([None, '1', 1.5, []])
            elif j == 1:
                d['eventer_server']['host'] = rng.choice([None, 5, []])
            elif j == 2:
                d['eventer_server']['port'] = rng.choice([None, '5', 1.5])
            elif j == 3:
                d['server_token'] = rng.choice([5, [], {}, True, ''])
            elif j == 4:
                del d['server_id']
            elif j == 5:
                del d['eventer_server'][rng.choice(['host', 'port'])]
            elif j == 6:
                d['eventer_server'] = rng.choice([None, [], 'x'])
            else:
                d['extra'] = 1
        return d

    cids = itertools.count(1)

    def info(groups):
        i = next(cids)
        tok = rng.choice([None, 1, 2])
        return mc.ComponentInfo(
            cid=i, mid=rng.choice([0, 1]), name=rng.choice(['n', 'm', None]),
            group=rng.choice(groups), data=data(10000 + i % 50000), rank=1,
            blessing_req=mc.BlessingReq(token=tok, timestamp=None),
            blessing_res=mc.BlessingRes(
                token=rng.choice([tok, tok, None, 1]),
                ready=rng.random() < 0.5))

    class Backend(common.Backend):
        def __init__(self):
            from hat import aio
            self._g = aio.Group()

        @property
        def async_group(self):
            return self._g

        async def get_last_event_id(self, server_id):
            return common.EventId(server_id, 0, 0)

        async def register(self, events):
            return events

        async def query(self, params):
            return common.QueryResult([], False)

        async def flush(self):
            pass

    async def server_case():
        conf = {'server_id': 1, 'name': 'es',
                'monitor_component': {'group': 'g1'}}
        if rng.random() < 0.6:
            conf['server_token'] = rng.choice([None, 't1', 't2', ''])
        log = []
        backend = Backend()
        with recorded_connections(log):
            runner = ecr.EventerClientRunner(
                conf=conf, backend=backend, synced_cb=lambda *a: None,
                reconnect_delay=1000)
            try:
                want = set()
                states = []
                comps = []
                for _ in range(rng.randint(1, 3)):
                    comps = [c for c in comps if rng.random() < 0.7]
                    comps += [info(['g1', 'g1', 'g2', None])
                              for _ in range(rng.randint(0, 4))]
                    own = rng.choice([None, *comps]) if comps else None
                    if own is None and rng.random() < 0.3:
                        own = info(['g1'])
                    state = hat.monitor.component.State(
                        info=own, components=list(comps))
                    states.append(state)
                    for c in comps:
                        if own is not None and c == own:
                            continue
                        if c.group != 'g1':
                            continue
                        a = addr_of(c.data)
                        if a is None:
                            continue
                        t = conf.get('server_token')
                        if t is not None and a[2] != t:
                            continue
                        want.add(a[:2])
                    runner.set_monitor_state(state)
                    await settle()
                    ctx.eq(sorted(log), sorted(want),
                           'connections of the server', conf=conf,
                           states=states)
                ctx.check(runner.is_open, 'runner stays open', states=states)
                ctx.case(repr((conf, states)))
            finally:
                await runner.async_close()
                await backend.async_close()

    class Monitor(hat.monitor.component.Component):

        def __init__(self, group, state):
            self._group, self._st = group, state

        @property
        def async_group(self):
            return self._group

        @property
        def state(self):
            return self._st

        @property
        def ready(self):
            return True

        async def set_ready(self, ready):
            pass

    async def component_case():
        from hat import aio
        kwargs = {}
        if rng.random() < 0.6:
            kwargs['client_token'] = rng.choice(['t1', 't2', ''])
        log = []
        got = {}

        async def connect(addr, name, group, runner_cb, **kw):
            got.update(kw, runner_cb=runner_cb)
            got['m'] = Monitor(aio.Group(), states[0])
            return got['m']

        def want(state):
            for c in state.components:
                if (c.group == 'sg' and c.blessing_req.token is not None and
                        c.blessing_req.token == c.blessing_res.token):
                    a = addr_of(c.data)
                    if a is None:
                        return None
                    t = kwargs.get('client_token')
                    if t is not None and t != a[2]:
                        return None
                    return c.data['server_id'], a
            return None

        comps = []
        states = []
        for _ in range(rng.randint(1, 4)):
            comps = [c for c in comps if rng.random() < 0.6]
            comps += [info(['sg', 'sg', 'x']) for _ in range(
                rng.randint(0, 3))]
            # at most one blessed component of the group
            seen = False
            out = []
            for c in comps:
                if (c.group == 'sg' and c.blessing_req.token is not None and
                        c.blessing_req.token == c.blessing_res.token):
                    if seen:
                        c = c._replace(blessing_res=mc.BlessingRes(
                            None, False))
                    seen = True
                out.append(c)
            comps = out
            rng.shuffle(comps)
            states.append(hat.monitor.component.State(None, list(comps)))
        saved = hat.monitor.component.connect
        hat.monitor.component.connect = connect
        try:
            with recorded_connections(log):
                comp = await hat.event.component.connect(
                    tcp.Address('127.0.0.1', 1), 'n', 'g', 'sg', 'cn',
                    lambda *a: aio.Group(), eventer_kwargs=kwargs)
                runner = await aio.call(got['runner_cb'], got['m'])
                try:
                    exp = []
                    prev = None
                    for i, s in enumerate(states):
                        got['m']._st = s
                        if i:
                            await aio.call(got['state_cb'], got['m'], s)
                        w = want(s)
                        if w is not None and w != prev:
                            exp.append(w[1][:2])
                        prev = w
                        await settle()
                        ctx.eq(log, exp, 'connections of the component',
                               kwargs=kwargs, states=states[:i + 1])
                    ctx.case(repr((kwargs, states)))
                finally:
                    await runner.async_close()
                    await comp.async_close()
        finally:
            hat.monitor.component.connect = saved

    async def many(n):
        for _ in range(n):
            await server_case()
            await component_case()
    for r in ctx.rounds(10):
        run_async(many(20))
