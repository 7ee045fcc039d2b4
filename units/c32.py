"""C32: assembly, wiring and shutdown of the server.

_start      creates the parts with the configuration meant for them, in an
            order in which each gets parts that exist, and binds the closing
            of each to the closing of the server;
_run        starts, announces readiness, resets it on request, and however
            it ends closes the server and stops the parts;
_stop       closes the parts users first, flushing the backend before the
            eventer server closes, the backend last;
callbacks   reach the part they are meant for;
main        nothing runs before the configuration is valid."""

import types

import z3

from vf import libs, aiom
from vf.unit import unit, cover
from units.lib import *     # noqa

MR = 'hat.event.server.main_runner'
Q = 'server.main_runner:MainRunner.'
Cancelled = libs._asyncio.CancelledError
A = ['contracts of hat.aio (call_on_done, call_on_cancel, uncancellable, '
     'wait_for), hat.util.CallbackRegistry and hat.monitor.component']
PARTS = ['backend', 'eventer_server', 'adminer_server',
         'eventer_client_runner', 'monitor_component', 'engine_runner']


class Event:
    def __init__(self, waited=None):
        self.is_ = False
        self.waited = waited

    def set(self):
        self.is_ = True

    def clear(self):
        self.is_ = False

    def is_set(self):
        return self.is_

    def wait(self):
        return aiom.Now(lambda: self.waited(self))


class Part:
    """one part of the server"""

    def __init__(self, name, w=None):
        self.name = name
        self.w = w
        self.closed = False
        self.calls = []

    def wait_closing(self):
        return ('closing', self)

    def async_close(self):
        def run():
            w = self.w
            X.prove(not self.closed, 'closed once')
            self.closed = True
            w.log.append(self.name)
        return aiom.Now(run)

    def record(self, name, res=None):
        def f(*a, **k):
            self.calls.append((name, a, k))
            return res if res is not None else aiom.Now()
        setattr(self, name, f)
        return self


def fresh_runner(m):
    r = m.load(MR)
    o = object.__new__(r.MainRunner)
    for n in PARTS:
        setattr(o, '_' + n, None)
    o._monitor_state_cbs = r.util.CallbackRegistry()
    o._reset_monitor_ready = Event()
    o._reset_monitor_ready_timeout = object()
    return r, o


@unit('C32', [Q + '__init__', Q + 'async_group'], assumes=A, bounds=())
def init(m):
    r = m.load(MR)
    spawned = []

    class Group:
        def spawn(self, f, *a):
            spawned.append((self, f, a))
    with Patch(r, aio=Over(r.aio, Group=Group), asyncio=types.SimpleNamespace(
            get_running_loop=lambda: 'loop', Event=Event)), \
            Patch(r.MainRunner, _run=lambda self: ('run', self)):
        conf = object()
        o = r.MainRunner(conf)
        X.prove(o._conf is conf and not o._reset_monitor_ready.is_set(),
                'configuration')
        for n in PARTS:
            X.prove(getattr(o, '_' + n) is None, 'not started')
        X.prove(len(spawned) == 1 and spawned[0][0] is o.async_group and
                spawned[0][1]() == ('run', o) and spawned[0][2] == (),
                'runs once')


@unit('C32', [Q + '_start', Q + '_create_monitor_runner',
              Q + '_on_monitor_state', Q + '_on_monitor_close_req',
              Q + '_on_backend_events', Q + '_on_eventer_client_synced',
              'server.main_runner:_bind_resource'], assumes=A, bounds=())
def start(m):
    r, o = fresh_runner(m)
    reset = o._reset_monitor_ready

    def addr(*extra):
        return MDict([('host', Val()), ('port', Val()), *extra])
    conf = {'name': Val(), 'server_id': Val(),
            'backend': MDict([('module', object())]),
            'eventer_server': addr()}
    for n, v in (('server_token', Val()), ('log', object()),
                 ('adminer_server', addr()),
                 ('monitor_component', addr(('group', Val())))):
        if X.choose(2, n):
            conf[n] = v
    o._conf = MDict(list(conf.items()))
    token = conf.get('server_token')
    monitor = 'monitor_component' in conf
    w = types.SimpleNamespace(made={}, done=[], cancel=[], fail=None)

    class Group:
        closed = 0

        def spawn(self, f, *a):
            f(*a)

        def close(self):
            self.closed += 1
    o._async_group = Group()

    def call_on_done(f, fn, *a):
        w.done.append((f, fn, a))

    def call_on_cancel(fn, *a):
        w.cancel.append((fn, a))

    def made(name, **own):
        """creation of a part, that can fail"""
        X.prove(name not in w.made, 'created once')
        check_bound()
        if X.choose(2, 'fails'):
            w.fail = Exception('failure')
            raise w.fail
        p = w.made[name] = Part(name)
        p.async_group = Group()
        for n, v in own.items():
            p.record(n, v)
        return p

    def check_bound():
        """closing of every part closes the server"""
        for name, p in w.made.items():
            X.prove(getattr(o, '_' + name) is p, 'created ' + name)
            n = o._async_group.closed
            for f, fn, a in w.done:
                if type(f) is tuple and f[1] is p:
                    fn(*a)
            X.prove(o._async_group.closed > n,
                    'server closes with ' + name)

    def address(a, n):
        c = conf[n]
        X.prove(a.host is c['host'] and a.port is c['port'],
                'address of ' + n)

    def create_backend(c, registered, flushed):
        def run():
            X.prove(c is conf['backend'], 'backend configuration')
            w.cbs = registered, flushed
            return made('backend')
        return aiom.Now(run)

    def import_info(name):
        X.prove(name is conf['backend']['module'], 'backend module')
        return types.SimpleNamespace(create=create_backend)

    def create_server(addr, backend, server_id, *, server_token=None):
        def run():
            address(addr, 'eventer_server')
            X.prove(backend is w.made.get('backend'), 'backend')
            X.prove(server_id is conf['server_id'], 'server id')
            X.prove(server_token is token, 'server token')
            return made('eventer_server', notify_events=None)
        return aiom.Now(run)

    def create_adminer(addr, log_conf):
        def run():
            address(addr, 'adminer_server')
            X.prove(log_conf is conf.get('log'), 'logging configuration')
            return made('adminer_server')
        return aiom.Now(run)

    def client_runner(conf, backend, synced_cb):
        X.prove(conf is o._conf and backend is w.made.get('backend'),
                'arguments')
        w.synced = synced_cb
        return made('eventer_client_runner', set_monitor_state=True)

    def engine_runner(conf, backend, eventer_server,
                      eventer_client_runner, reset_monitor_ready_cb):
        X.prove(conf is o._conf and backend is w.made.get('backend') and
                eventer_server is w.made.get('eventer_server'), 'arguments')
        X.prove(eventer_client_runner is
                w.made.get('eventer_client_runner'), 'eventer client runner')
        reset.clear()
        reset_monitor_ready_cb()
        X.prove(reset.is_set(), 'reset is requested')
        return made('engine_runner', set_synced=None)
    state0, state1 = object(), object()

    def mconnect(*, addr, name, group, runner_cb, data, state_cb,
                 close_req_cb):
        def run():
            address(addr, 'monitor_component')
            X.prove(name is conf['name'] and
                    group is conf['monitor_component']['group'],
                    'name and group')
            X.prove(data['server_id'] is conf['server_id'] and
                    data['eventer_server'] is conf['eventer_server'] and
                    data['server_token'] is token and
                    eq(libs.vc_len(data), 3), 'published data')
            # state changes already while connecting
            check_state(state_cb, None, state1)
            p = made('monitor_component')
            p.state = state0
            w.monitor = runner_cb, state_cb, close_req_cb
            return p
        return aiom.Now(run)

    def check_state(cb, mc, state):
        p = w.made['eventer_client_runner']
        p.calls.clear()
        libs.await_(aiom.call(cb, mc, state))
        X.prove(len(p.calls) == 1 and p.calls[0][0] == 'set_monitor_state' and
                len(p.calls[0][1]) == 1 and p.calls[0][1][0] is state,
                'monitor state reaches the eventer client runner')
        p.calls.clear()
    common = Over(r.common, import_backend_info=import_info)
    with Patch(r, aio=Over(r.aio, call=aiom.call, call_on_done=call_on_done,
                           call_on_cancel=call_on_cancel), common=common,
               create_eventer_server=create_server,
               create_adminer_server=create_adminer,
               EventerClientRunner=client_runner, EngineRunner=engine_runner,
               hat=types.SimpleNamespace(monitor=types.SimpleNamespace(
                   component=types.SimpleNamespace(connect=mconnect)))):
        try:
            libs.await_(o._start())
        except Exception as e:
            limit()
            cover('failed')
            X.prove(e is w.fail, 'fails only with its parts')
            for name in PARTS:
                if name not in w.made:
                    X.prove(getattr(o, '_' + name) is None, 'not created')
            for name, p in w.made.items():
                X.prove(getattr(o, '_' + name) is p, 'created ' + name)
            return
        cover('started')
        want = {'backend', 'eventer_server'}
        if 'adminer_server' in conf:
            want |= {'adminer_server'}
        want |= {'eventer_client_runner', 'monitor_component'} if monitor \
            else {'engine_runner'}
        X.prove(set(w.made) == want, 'configured parts')
        check_bound()
        es = w.made['eventer_server']
        for i, cb in enumerate(w.cbs):
            ev = object()
            es.calls.clear()
            libs.await_(aiom.call(cb, ev))
            X.prove(len(es.calls) == 1, 'events are notified once')
            _, a, k = es.calls[0]
            got = dict(zip(('events', 'persisted', 'with_ack'), a), **k)
            X.prove(got['events'] is ev and got['persisted'] is bool(i) and
                    not got.get('with_ack', False),
                    'registered and persisted events are notified')
        # not connected yet
        o._eventer_server = None
        es.calls.clear()
        libs.await_(aiom.call(w.cbs[0], object()))
        X.prove(not es.calls, 'no server')
        o._eventer_server = es
        if not monitor:
            return
        p = w.made['eventer_client_runner']
        X.prove(len(p.calls) == 1 and p.calls[0][1][0] is state0,
                'initial monitor state')
        runner_cb, state_cb, close_req_cb = w.monitor
        mc = w.made['monitor_component']
        check_state(state_cb, mc, state1)
        # no engine runner yet
        libs.await_(aiom.call(w.synced, 1, 2, 3))
        libs.await_(aiom.call(close_req_cb, mc))
        try:
            er = runner_cb(mc)
        except Exception as e:
            limit()
            X.prove(e is w.fail, 'fails only with its parts')
            return
        X.prove(er is w.made.get('engine_runner') and
                o._engine_runner is er, 'engine runner')
        a = [object(), object(), object()]
        er.calls.clear()
        libs.await_(aiom.call(w.synced, *a))
        X.prove(len(er.calls) == 1 and er.calls[0][0] == 'set_synced' and
                all(x is y for x, y in zip(er.calls[0][1], a)) and
                len(er.calls[0][1]) == 3,
                'synchronisation reaches the engine runner')
        er.w = w
        w.log = []
        libs.await_(aiom.call(close_req_cb, mc))
        X.prove(w.log == ['engine_runner'], 'close request closes the engine')
        # states do not reach a closed eventer client runner
        for fn, a in w.cancel:
            fn(*a)
        p.calls.clear()
        libs.await_(aiom.call(state_cb, mc, state1))
        X.prove(not p.calls, 'no states after closing')


@unit('C32', [Q + '_stop'], assumes=A, bounds=())
def stop(m):
    r, o = fresh_runner(m)
    w = types.SimpleNamespace(log=[], flushed=False)
    # parts created before the start failed, or all of them
    n = X.choose(6, 'started')
    order = ['backend', 'eventer_server']
    if n > 2 and X.choose(2, 'adminer'):
        order.append('adminer_server')
    monitor = X.choose(2, 'monitor')
    if n > 3:
        if monitor:
            order.append('eventer_client_runner')
            if n > 4:
                order.append('monitor_component')
                if X.choose(2, 'engine'):
                    order.append('engine_runner')
        else:
            order.append('engine_runner')
    order = order[:n] if n < 2 else order
    parts = {p: Part(p, w) for p in order}
    for p, v in parts.items():
        setattr(o, '_' + p, v)

    def flush():
        def run():
            X.prove('eventer_server' not in w.log and
                    'backend' not in w.log, 'flushed before closing')
            X.prove('engine_runner' not in parts or parts[
                'engine_runner'].closed, 'flushed after the engine')
            X.prove('eventer_client_runner' not in parts or parts[
                'eventer_client_runner'].closed,
                'flushed after the eventer client runner')
            w.flushed = True
            if X.choose(2, 'flush'):
                raise Exception('failure')
        return aiom.Now(run)
    if 'backend' in parts:
        parts['backend'].flush = flush
    if 'monitor_component' in parts and 'engine_runner' in parts:
        # the monitor component closes its runner
        close = parts['monitor_component'].async_close

        def mclose():
            def run():
                if not parts['engine_runner'].closed:
                    libs.await_(parts['engine_runner'].async_close())
                libs.await_(close())
            return aiom.Now(run)
        parts['monitor_component'].async_close = mclose
        er = parts['engine_runner'].async_close

        def again():
            return aiom.Now() if parts['engine_runner'].closed else er()
        parts['engine_runner'].async_close = again
    libs.await_(o._stop())
    log = w.log
    X.prove(sorted(log) == sorted(order), 'every part is closed')
    cover('all' if n == 5 else 'some')
    if 'eventer_server' in parts:
        X.prove(w.flushed, 'backend is flushed')
        X.prove(log[-2:] == ['eventer_server', 'backend'],
                'users of the backend close first')
    elif 'backend' in parts:
        X.prove(log[-1] == 'backend', 'backend closes last')


@unit('C32', [Q + '_run'], assumes=A, bounds=())
def run(m):
    r, o = fresh_runner(m)
    w = types.SimpleNamespace(ready=None, closed=0, stopped=0, fail=None,
                              started=False, requested=False, waiting=False)

    def event(what, *causes):
        k = X.choose(len(causes) + 1, what)
        if k:
            w.fail = causes[k - 1]
            raise w.fail

    def set_ready(v):
        def run():
            X.prove(w.started, 'started')
            if v:
                X.prove(w.ready is None or w.waited, 'after the reset')
                w.requested = False
            else:
                X.prove(w.requested, 'only if requested')
            w.ready = v
            w.waited = False
            event('set', Exception('failure'), Cancelled())
        return aiom.Now(run)
    mc = types.SimpleNamespace(set_ready=set_ready)
    has = X.choose(2, 'monitor')

    def start():
        def run():
            X.prove(not w.started, 'started once')
            event('start', Exception('failure'), Cancelled())
            w.started = True
            if has:
                o._monitor_component = mc
        return aiom.Now(run)
    o._start = start

    def stop():
        def run():
            # closing cancels what is not protected
            X.prove(w.protected, 'stopping is not cancelled')
            X.prove(w.closed > 0, 'server is closing')
            w.stopped += 1
        return aiom.Now(run)
    o._stop = stop
    w.protected = False

    def uncancellable(f, raise_cancel=True):
        def run():
            w.protected = True
            try:
                return libs.await_(f)
            finally:
                w.protected = False
        return aiom.Now(run)

    def waited(ev):
        X.prove(w.ready is True, 'waits while ready')
        if not ev.is_set():
            event('wait', Cancelled())
            ev.set()
        w.requested = True
    o._reset_monitor_ready = Event(waited)

    def blessing():
        return 'blessing'
    o._wait_while_monitor_blessing_res_token = blessing

    def wait_for(obj, timeout):
        def run():
            X.prove(obj == 'blessing' and
                    timeout is o._reset_monitor_ready_timeout,
                    'waits for the token, at most the timeout')
            X.prove(w.ready is False, 'not ready')
            w.waited = True
            k = X.choose(3, 'token')
            if k:
                e = [TimeoutError(), Cancelled()][k - 1]
                if k == 2:
                    w.fail = e
                raise e
        return aiom.Now(run)

    def future():
        def run():
            w.waiting = True
            raise w.fail
        w.fail = Cancelled()
        return aiom.Now(run)
    o._loop = types.SimpleNamespace(create_future=future)

    def close(self):
        w.closed += 1

    def before(ls):
        w.ready = True
        w.waited = w.requested = False
        o._reset_monitor_ready.is_ = bool(X.choose(2, 'earlier'))

    def after(a, b):
        cover('round')
        X.prove(w.ready is True, 'ready again')

    def init(ls):
        X.prove(w.ready is True, 'ready')
    X.while_rule = WhileRule(lambda n, v: None, init, before, after,
                             lambda ls: None, plain=True)
    with Patch(r, aio=Over(r.aio, uncancellable=uncancellable,
                           wait_for=wait_for)), \
            Patch(r.MainRunner, close=close):
        try:
            libs.await_(o._run())
            if w.started and not has:
                X.prove(False, 'stays open')
        except (Exception, Cancelled) as e:
            limit()
            X.prove(e is w.fail, 'fails only with its parts')
    cover('end')
    X.prove(w.closed > 0, 'server closes')
    X.prove(w.stopped == 1, 'parts are stopped')
    X.prove(w.fail is not None, 'ends only with its parts')


@unit('C32', [Q + '_wait_while_monitor_blessing_res_token'], assumes=A,
      bounds=())
def blessing(m):
    r, o = fresh_runner(m)
    w = types.SimpleNamespace(token=None, cbs=[], waits=0)

    class Handle:
        def __init__(self, cb):
            self.cb = cb

        def cancel(self):
            w.cbs.remove(self.cb)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.cancel()

    class Registry:
        def register(self, cb):
            w.cbs.append(cb)
            return Handle(cb)
    o._monitor_state_cbs = Registry()

    def change():
        # state at any moment
        k = X.choose(3, 'state')
        w.token = k == 2
        info = None
        if k:
            info = types.SimpleNamespace(
                blessing_res=types.SimpleNamespace(
                    token=object() if k == 2 else None))
        mc.state = types.SimpleNamespace(info=info)
    mc = types.SimpleNamespace()
    change()
    has = X.choose(2, 'monitor')
    o._monitor_component = mc if has else None

    def waited(ev):
        X.prove(w.token, 'waits only while there is a token')
        X.prove(len(w.cbs) == 1 and not ev.is_set(), 'change can be noticed')
        change()
        w.cbs[0](mc.state)
        X.prove(ev.is_set(), 'change ends the wait')
        w.waits += 1
        if X.choose(2, 'cancel'):
            raise Cancelled()

    def after(a, b):
        cover('round')
        X.prove(w.waits == 1 and not w.cbs, 'waits for a change')
    X.while_rule = WhileRule(lambda n, v: None, lambda ls: None,
                             lambda ls: change(), after, lambda ls: None,
                             plain=True)
    with Patch(r, asyncio=types.SimpleNamespace(Event=lambda: Event(waited))):
        try:
            libs.await_(o._wait_while_monitor_blessing_res_token())
        except Cancelled:
            cover('cancelled')
            X.prove(not w.cbs, 'callback is cancelled')
            return
    X.prove(not w.cbs, 'callback is cancelled')
    if has:
        cover('withdrawn')
        X.prove(not w.token, 'token is withdrawn')


MAIN = 'hat.event.server.main'


@unit('C32', ['server.main:sync_main', 'server.main:main'], assumes=A,
      bounds=())
def sync_main(m):
    r = m.load(MAIN)
    w = types.SimpleNamespace(valid=[], invalid=None, ran=0, log=0)
    backend_conf = MDict([('module', object())])
    confs = items('conf', {'[]': lambda k, n: Item(k, 'name', {})}, 'confs')
    conf = {'backend': backend_conf, 'modules': confs}
    if X.choose(2, 'log'):
        conf['log'] = {'version': 1}
    conf = MDict(list(conf.items()))

    class Validator:
        def __init__(self, repo):
            self.repo = repo

        def validate(self, schema_id, data):
            w.valid.append((self.repo, schema_id, data))
            if X.choose(2, 'invalid'):
                w.invalid = Exception('invalid')
                raise w.invalid

    def info(what):
        def f(name):
            X.prove(len(w.valid) > 0 and w.valid[0][2] is conf and
                    w.valid[0][1] == 'hat-event://server.yaml' and
                    w.valid[0][0] is r.common.json_schema_repo,
                    'configuration is valid before it is used')
            k = X.choose(4, 'schema')
            i = types.SimpleNamespace(
                json_schema_repo=object() if k & 1 else None,
                json_schema_id=object() if k & 2 else None, name=name,
                what=what)
            w.infos.append(i)
            return i
        return f
    w.infos = []

    def checked(i, c):
        X.prove(i.name is c['module'] or
                eq(i.name, c['module']) is True or
                getattr(i.name, 't', 0) is getattr(c['module'], 't', 1) or
                X.decide(eq(i.name, c['module'])), 'module of configuration')
        if i.json_schema_repo and i.json_schema_id:
            cover('schema ' + i.what)
            X.prove(any(v[0] is i.json_schema_repo and
                        v[1] is i.json_schema_id and same_conf(v[2], c)
                        for v in w.valid), 'valid against its schema')

    def same_conf(a, b):
        return a is b or (isinstance(a, Item) and isinstance(b, Item) and
                          z3.eq(a.t, b.t))
    n0 = {}

    def before(start, v, j):
        n0['i'], n0['v'] = len(w.infos), len(w.valid)
        n0['c'] = v

    def after(start, end, v, j):
        cover('module')
        new = w.infos[n0['i']:]
        X.prove(len(new) == 1 and new[0].what == 'module', 'module info')
        checked(new[0], v)

    def init():
        X.prove(w.ran == 0, 'not running')
    X.for_rule = ForRule(lambda src: True, init, before, after,
                         lambda start: None, ghosts=[w])

    def async_main(c):
        X.prove(c is conf, 'configuration of the server')
        w.main = True
        return 'async_main'

    def run(x):
        X.prove(x == 'async_main', 'async_main')
        X.prove(w.invalid is None, 'configuration is valid')
        infos = [i for i in w.infos if i.what == 'backend']
        X.prove(len(infos) == 1, 'backend info')
        checked(infos[0], backend_conf)
        X.prove(w.valid[0][2] is conf, 'configuration is validated')
        w.ran += 1
        if X.choose(2, 'cancelled'):
            raise Cancelled()
    logging = types.SimpleNamespace(config=types.SimpleNamespace(
        dictConfig=lambda c: X.prove(w.invalid is None, 'valid')))
    aio = Over(r.aio, init_asyncio=lambda *a, **k: None, run_asyncio=run)
    common = Over(r.common, import_backend_info=info('backend'),
                  import_module_info=info('module'))
    args = types.SimpleNamespace(conf=object())

    def read(path, default):
        X.prove(path is args.conf, 'given configuration path')
        return conf
    with Patch(r, aio=aio, common=common, logging=logging,
               json=Over(r.json, DefaultSchemaValidator=Validator,
                         read_conf=read),
               create_argument_parser=lambda: types.SimpleNamespace(
                   parse_args=lambda: args),
               async_main=async_main):
        try:
            r.main()
        except Exception as e:
            limit()
            cover('invalid')
            X.prove(e is w.invalid and w.ran == 0,
                    'invalid configuration: does not start')
            return
    cover('ran')
    X.prove(w.ran == 1, 'server runs')


@unit('C32', ['server.main:async_main'], assumes=A, bounds=())
def async_main(m):
    r = m.load(MAIN)
    w = types.SimpleNamespace(made=0, closing=0, closed=0)
    c = object()
    fail = [None, Cancelled()]

    class Runner:
        def __init__(self, conf):
            X.prove(conf is c, 'configuration')
            w.made += 1

        def wait_closing(self):
            def run():
                w.e = fail[X.choose(2, 'stop')]
                if w.e:
                    raise w.e
                w.closing += 1
            return aiom.Now(run)

        def async_close(self):
            def run():
                w.closed += 1
            return aiom.Now(run)
    with Patch(r, MainRunner=Runner, aio=Over(
            r.aio, uncancellable=aiom.uncancellable),
            asyncio=types.SimpleNamespace(sleep=lambda t: aiom.Now(),
                                          CancelledError=Cancelled)):
        try:
            libs.await_(r.async_main(c))
            X.prove(w.closing == 1, 'runs until the server closes')
        except Cancelled as e:
            X.prove(e is w.e, 'cancelled')
    cover('end')
    X.prove(w.made == 1, 'one server')
    X.prove(w.closed >= 1, 'waits until the server is closed')


import units.conns    # noqa
