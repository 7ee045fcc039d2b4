"""C26: the local engine runs only while no remote server is active.

_set_client_status  the connection counts as active exactly when the status is
                    neither missing nor STANDBY; remote_active is "some
                    connection is active" and every change is announced once;
_client_loop        the status of the connection is that of the connected
                    client while it is connected and missing otherwise;
_wait_while_remote_active   returns only when no remote server is active at
                    that moment; waits with a callback that ends the wait;
_run                waits, STARTING, creates the engine, OPERATIONAL with the
                    engine, and then only after the engine closed or restart
                    was requested _close and the next round; however it
                    ends, the last thing done is _close;
_close              STOPPING, engine closed, flush, STANDBY, in that order,
                    without engine at the server.

runners_init, engine_requests   (units/conns.py) the runner is created with what it is
                                given; restart and reset requests reach it."""

import types

import z3

from vf import libs, seqs, aiom
from vf.unit import unit, cover
from units.lib import *     # noqa
from units.c25 import state_event
from vf.syms import sym_int, sym_bool, sym_str

ER = 'hat.event.server.engine_runner'
CR = 'hat.event.server.eventer_client_runner'
A = ['contract of create_engine (C20), create_eventer_client (C25): callbacks '
     'are called only for an open client',
     'contract of hat.util.CallbackRegistry, asyncio.Event and asyncio.wait']
Cancelled = libs._asyncio.CancelledError


class ASet:
    """set of any size of which one element x matters"""

    def __init__(self, x):
        self.x = x
        self.has = sym_bool('contained')
        self.others = sym_bool('others')

    def _check(self, v):
        if v is not self.x:
            raise Unsupported('other element')

    def add(self, v):
        self._check(v)
        self.has = True

    def discard(self, v):
        self._check(v)
        self.has = False

    def remove(self, v):
        self._check(v)
        X.prove(self.has, 'removed element is contained')
        self.has = False

    def __contains__(self, v):
        self._check(v)
        return X.decide(bool_term(self.has))
    _contains_ = __contains__

    def some(self):
        return or_(self.has, self.others)

    def __bool__(self):
        return X.decide(bool_term(self.some()))

    def _len_(self):
        n = X.fresh('len', I)
        X.assume(z3.And(n >= 0, (n > 0) == bool_term(self.some())))
        return mkint(n)


class Nobool:
    """callbacks of remote activity"""

    def __init__(self):
        self.log = []

    def notify(self, v):
        self.log.append(v)


@unit('C26', ['server.eventer_client_runner:EventerClientRunner.'
              '_set_client_status'], assumes=A, bounds=())
def client_status(m):
    r, c = m.load(CR), m.load('hat.event.common')
    o = object.__new__(r.EventerClientRunner)
    data = object()
    s = o._remote_active_server_data = ASet(data)
    others, before = s.others, s.some()
    o._remote_active = before
    o._remote_active_cbs = Nobool()
    cbs = o._remote_active_cbs
    notify = cbs.notify

    def check(v):
        X.prove(iff(o.remote_active, v), 'announced when it is in effect')
        notify(v)
    cbs.notify = check
    sts = [None, *c.Status]
    st = sts[X.choose(len(sts), 'status')]
    o._set_client_status(data, st)
    active = st is not None and st is not c.Status.STANDBY
    X.prove(iff(s.has, active), 'active exactly with another status')
    X.prove(s.others is others, 'other connections are kept')
    after = or_(active, others)
    X.prove(iff(o.remote_active, after), 'some connection is active')
    X.prove(eq(len(cbs.log) > 0, not_(iff(before, after))),
            'announced exactly when changed')
    if cbs.log:
        cover('announced')
        X.prove(len(cbs.log) == 1, 'announced once')
        X.prove(iff(cbs.log[0], after), 'announced value')
    else:
        cover('unchanged')


def client_loop(m):
    r, c = m.load(CR), m.load('hat.event.common')
    o = object.__new__(r.EventerClientRunner)
    data = r.EventerServerData(server_id=Val(), addr=object())
    conf = {'name': 'name', 'server_id': Val()}
    token = [None, Val()][X.choose(2, 'token')]
    if token is not None:
        conf['server_token'] = token
    o._conf = MDict(list(conf.items()))
    o._backend = object()
    o._reconnect_delay = Val()
    valid, connecting = ASet(data), ASet(data)
    connecting.has = True
    o._valid_server_data, o._connecting_server_data = valid, connecting
    st = types.SimpleNamespace(status=None, client=None, closed=0, own=0)
    synced = []
    o._synced_cb = lambda *a: synced.append(a)

    def set_status(d, s):
        X.prove(d is data, 'status of the connection')
        st.status = s
    o._set_client_status = set_status

    def idle(what):
        X.prove(st.client is None, 'client is closed')
        X.prove(st.status is None, 'not active without connection')
        valid.has = sym_bool('valid')
        if X.choose(2, what):
            raise Cancelled()

    class Client:
        def __init__(self):
            self.status = object()

        def wait_closing(self):
            def run():
                X.prove(st.client is self, 'connected')
                X.prove(st.status is self.status,
                        'status of the connected client')
                valid.has = sym_bool('valid')
                # status changes while connected
                st.status = self.status = object()
                k = X.choose(3, 'closing')
                if k:
                    raise [Cancelled(), Exception('failure')][k - 1]
            return aiom.Now(run)

        def async_close(self):
            def run():
                X.prove(st.client is self, 'closed once')
                st.client = None
            return aiom.Now(run)

    def create(**kw):
        def run():
            X.prove(valid.has, 'connects to valid servers')
            X.prove(kw['addr'] is data.addr and
                    kw['remote_server_id'] is data.server_id,
                    'server of the loop')
            X.prove(kw['local_server_id'] is conf['server_id'] and
                    kw['client_name'] == 'event/name' and
                    kw['client_token'] is token and
                    kw['backend'] is o._backend, 'arguments')
            s = object()
            old = st.status
            kw['status_cb'](s)
            X.prove(st.status is s, 'status callback')
            st.status = old
            a, b = object(), object()
            kw['synced_cb'](a, b)
            X.prove(len(synced) == 1 and synced[0][0] is data.server_id and
                    synced[0][1] is a and synced[0][2] is b,
                    'synced callback')
            synced.clear()
            idle('create')
            if X.choose(2, 'failure'):
                raise Exception('failure')
            st.client = Client()
            return st.client
        return aiom.Now(run)

    def sleep(d):
        def run():
            X.prove(d is o._reconnect_delay, 'delay')
            idle('sleep')
        return aiom.Now(run)

    def close(self):
        st.closed += 1

    def before(ls):
        # any earlier round
        st.status = object()
        valid.has = sym_bool('valid')

    def after(a, b):
        cover('round')
        X.prove(st.client is None, 'client is closed')
    X.while_rule = WhileRule(
        lambda n, v: object if n == 'eventer_client' else None,
        lambda ls: None, before, after, lambda ls: None, plain=True)
    failed = None
    with Patch(r, create_eventer_client=create,
               aio=Over(r.aio, uncancellable=aiom.uncancellable),
               asyncio=types.SimpleNamespace(sleep=sleep)), \
            Patch(r.EventerClientRunner, close=close):
        try:
            libs.await_(o._client_loop(data))
        except Cancelled:
            failed = 1
            cover('cancelled')
    X.prove(st.client is None, 'client is closed')
    X.prove(st.status is None, 'not active without connection')
    X.prove(not_(connecting.has), 'can be connected again')
    if not failed and not st.closed:
        X.prove(not_(valid.has), 'connects while the server is valid')


for p in ('C26', 'C27'):
    unit(p, ['server.eventer_client_runner:EventerClientRunner.'
             '_client_loop'], assumes=A, bounds=())(
        types.FunctionType(client_loop.__code__, globals(), 'runner_loop'))


class Event:
    def __init__(self):
        self.is_ = False
        self.waited = None

    def set(self):
        self.is_ = True

    def wait(self):
        return aiom.Now(lambda: self.waited(self))


@unit('C26', ['server.engine_runner:EngineRunner._wait_while_remote_active'],
      assumes=A, bounds=())
def wait_inactive(m):
    r = m.load(ER)
    o = object.__new__(r.EngineRunner)
    st = types.SimpleNamespace(active=None, cbs=[], waits=0)

    def waited(ev):
        X.prove(st.active is True, 'waits only while active')
        X.prove(len(st.cbs) == 1, 'change can be noticed')
        X.prove(not ev.is_, 'waits for a change')
        st.cbs[0]([True, False][X.choose(2, 'value')])
        X.prove(ev.is_, 'change ends the wait')
        st.waits += 1
        st.active = None
        if X.choose(2, 'cancel'):
            raise Cancelled()

    def event():
        e = Event()
        e.waited = waited
        return e

    class Handle:
        def __init__(self, cb):
            self.cb = cb

        def cancel(self):
            st.cbs.remove(self.cb)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.cancel()

    class Runner:
        @property
        def remote_active(self):
            if st.active is None:
                st.active = X.choose(2, 'active') == 1
            return st.active

        def register_remote_active_cb(self, cb):
            st.cbs.append(cb)
            return Handle(cb)
    has = X.choose(2, 'runner')
    o._eventer_client_runner = Runner() if has else None

    def before(ls):
        st.active = None

    def after(a, b):
        cover('round')
        X.prove(st.waits == 1, 'waits for a change')
        X.prove(not st.cbs, 'callback is cancelled')
    X.while_rule = WhileRule(lambda n, v: None, lambda ls: None, before,
                             after, lambda ls: None, plain=True)
    with Patch(r, asyncio=types.SimpleNamespace(Event=event)):
        try:
            libs.await_(o._wait_while_remote_active())
        except Cancelled:
            cover('cancelled')
            X.prove(not st.cbs, 'callback is cancelled')
            return
    X.prove(not st.cbs, 'callback is cancelled')
    if has:
        cover('inactive')
        X.prove(st.active is False, 'no remote server is active')
    else:
        X.prove(st.waits == 0, 'no remote servers')


class Runner:
    """world of EngineRunner: ghost `phase` is the announced status"""

    def __init__(self, m):
        w = self
        w.r, w.c = m.load(ER), m.load('hat.event.common')
        S = w.S = w.c.Status
        o = w.o = object.__new__(w.r.EngineRunner)
        w.phase = S.STANDBY
        w.closed = w.flushed = w.closing = False
        w.log = []
        w.fail = None
        w.conf = {'modules': object(), 'server_id': sym_int('server', 0)}
        o._conf = MDict(list(w.conf.items()))
        o._backend = w.backend = types.SimpleNamespace(flush=w.flush)
        o._eventer_server = types.SimpleNamespace(set_status=w.set_status)
        o._reset_monitor_ready_cb = object()
        w.engine = None

    def event(self, what, *causes):
        """suspension"""
        k = X.choose(len(causes) + 1, what)
        if k:
            self.fail = causes[k - 1]
            raise self.fail

    def flush(self):
        def run():
            X.prove(self.phase is self.S.STOPPING, 'flushed while STOPPING')
            X.prove(self.engine is None or self.engine.done,
                    'flushed after the engine closed')
            self.event('flush', Exception('failure'))
            self.flushed = True
        return aiom.Now(run)

    def set_status(self, st, engine):
        def run():
            self.check_status(st, engine)
            self.phase = st
            self.log.append(st)
            self.event('status', Exception('failure'), *self.cancel)
        return aiom.Now(run)
    cancel = ()

    def check_status(self, st, engine):
        S = self.S
        X.prove(st is S.OPERATIONAL or engine is None,
                'engine only while operational')
        if st is S.STOPPING:
            self.flushed = False
        elif st is S.STANDBY:
            X.prove(self.phase is S.STOPPING, 'STANDBY after STOPPING')
            X.prove(self.flushed, 'STANDBY after flush')
            X.prove(self.engine is None or self.engine.done,
                    'STANDBY after the engine closed')


class Engine:
    def __init__(self, w):
        self.w = w
        self.closing = self.done = False

    @property
    def is_open(self):
        if not self.closing:
            self.closing = X.choose(2, 'engine') == 1
        return not self.closing

    def close(self):
        self.closing = True

    def async_close(self):
        def run():
            self.closing = True
            X.prove(self.w.phase is self.w.S.STOPPING,
                    'engine is closed while STOPPING')
            self.w.event('close', Exception('failure'))
            self.done = True
        return aiom.Now(run)

    def wait_closing(self):
        raise Unsupported('wait')


@unit('C26', ['server.engine_runner:EngineRunner._close'], assumes=A,
      bounds=())
def close(m):
    w = Runner(m)
    o, S = w.o, w.S
    # closed at any phase
    w.phase = list(S)[X.choose(len(list(S)), 'phase')]
    w.engine = o._engine = Engine(w) if X.choose(2, 'engine') else None
    try:
        libs.await_(o._close())
    except Exception as e:
        limit()
        X.prove(e is w.fail, 'fails only with what it awaits')
        X.prove(w.log[:1] == [S.STOPPING], 'STOPPING first')
        X.prove(w.log[1:] == [] or w.flushed, 'STANDBY after flush')
        return
    X.prove(w.log == [S.STOPPING, S.STANDBY], 'STOPPING, STANDBY')
    X.prove(w.flushed, 'flushed')
    X.prove(w.engine is None or w.engine.done, 'engine is closed')


@unit('C26', ['server.engine_runner:EngineRunner._run'], assumes=A,
      bounds=())
def run(m):
    w = Runner(m)
    r, o, S = w.r, w.o, w.S
    w.cancel = (Cancelled(),)
    w.waited = w.restarted = False
    w.last = None
    w.creating = False
    o._engine = None
    st = types.SimpleNamespace(closed=0, closes=0, waits=[])

    class Restart:
        def clear(self):
            w.restarted = False

        def set(self):
            w.restarted = True

        def wait(self):
            return 'restart'
    o._restart = Restart()

    def wait_inactive():
        def run():
            X.prove(w.phase is S.STANDBY, 'waits in STANDBY')
            X.prove(w.engine is None or w.engine.done,
                    'one engine at a time')
            w.event('wait', Cancelled(), Exception('failure'))
            w.waited = True
        return aiom.Now(run)
    o._wait_while_remote_active = wait_inactive

    def create_engine(**kw):
        def run():
            X.prove(w.waited, 'engine after no remote server is active')
            X.prove(w.phase is S.STARTING, 'engine while STARTING')
            X.prove(w.engine is None or w.engine.done,
                    'one engine at a time')
            w.waited = False
            X.prove(kw['backend'] is o._backend and
                    kw['eventer_server'] is o._eventer_server and
                    kw['module_confs'] is w.conf['modules'] and
                    kw['reset_monitor_ready_cb'] is
                    o._reset_monitor_ready_cb, 'arguments')
            X.prove(eq(kw['server_id'], w.conf['server_id']), 'server id')
            X.prove(not w.restarted, 'restart is not pending')
            kw['restart_cb']()
            X.prove(w.restarted, 'restart callback')
            w.restarted = bool(X.choose(2, 'restarted'))
            w.event('create', Cancelled(), Exception('failure'))
            w.engine = Engine(w)
            w.engine.wait_closing = lambda: 'closing'
            return w.engine
        return aiom.Now(run)
    check = w.check_status

    def check_status(s, engine):
        check(s, engine)
        if s is S.STARTING:
            X.prove(w.phase is S.STANDBY and w.waited,
                    'STARTING after STANDBY, no remote server is active')
        elif s is S.OPERATIONAL:
            X.prove(w.phase is S.STARTING, 'OPERATIONAL after STARTING')
            X.prove(engine is not None and engine is w.engine and
                    not engine.done, 'created engine')
        else:
            X.prove(False, 'other announcements while closing')
    w.check_status = check_status

    class Group:
        def create_subgroup(self):
            return self

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def spawn(self, f, *a):
            return f(*a)
    o._async_group = Group()

    def wait(tasks, *, timeout=None, return_when=None):
        def run():
            t = list(libs.native(libs.vc_list(tasks)))
            X.prove(w.phase is S.OPERATIONAL, 'runs while OPERATIONAL')
            X.prove(timeout is None and return_when == 'FIRST' and
                    sorted(t) == ['closing', 'restart'],
                    'runs until closed or restart')
            w.event('run', Cancelled(), Exception('failure'))
            if not w.restarted:
                k = X.choose(3, 'end')
                if k < 2:
                    w.restarted = True
                if k > 0:
                    w.engine.closing = True
        return aiom.Now(run)

    def close_(raising=True):
        def run():
            X.prove(o._engine is w.engine, 'engine is closed')
            st.closes += 1
            w.waited = False
            w.phase = S.STOPPING
            if X.choose(2, 'close'):
                w.fail = Exception('failure')
                w.phase = S.STOPPING
                raise w.fail
            if w.engine:
                w.engine.done = w.engine.closing = True
            w.phase = S.STANDBY
        return aiom.Now(run)
    o._close = close_

    def close(self):
        st.closed += 1

    def before(ls):
        w.restarted = bool(X.choose(2, 'pending'))
        if X.choose(2, 'earlier engine'):
            e = w.engine = o._engine = Engine(w)
            e.closing = e.done = True

    def after(a, b):
        cover('round')
        X.prove(w.phase is S.STANDBY, 'STANDBY after the engine')
        X.prove(w.engine is not None and w.engine.done and
                o._engine is w.engine, 'engine is closed')
        X.prove(w.restarted, 'closed on restart')
    X.while_rule = WhileRule(lambda n, v: None, lambda ls: None, before,
                             after, lambda ls: None, ghosts=[(o, '_engine')],
                             plain=True)
    asyncio = types.SimpleNamespace(wait=wait, FIRST_COMPLETED='FIRST')
    with Patch(r, create_engine=create_engine, asyncio=asyncio,
               aio=Over(r.aio, uncancellable=aiom.uncancellable)), \
            Patch(type(o), close=close):
        try:
            libs.await_(o._run())
        except (Exception, Cancelled) as e:
            limit()
            X.prove(e is w.fail, 'fails only with what it awaits')
    cover('end')
    X.prove(st.closed == 1, 'runner is closed')
    X.prove(st.closes >= 1, 'engine is closed at the end')
    X.prove(w.phase in (S.STANDBY, S.STOPPING), 'ends with _close')
    if w.phase is S.STANDBY:
        X.prove(w.engine is None or w.engine.done, 'engine is closed')


import units.conns    # noqa
