"""Component: connections to the active server and their runners (C27, C31).

_on_state, _create_monitor_runner   data of the active server is announced to
                    the loop exactly when it changes;
_server_data_loop   at most one client loop, for the data announced last,
                    closed before the next one;
_client_loop        one client at a time, connected to the address of the
                    data; one runner per connection, created for the open
                    client, closed before it, none left behind."""

import types

import z3

from vf import libs, seqs, aiom
from vf.core import Cut
from vf.unit import unit, cover
from units.lib import *     # noqa
from vf.syms import sym_int, sym_bool, sym_str

M = 'component:Component.'
CO = 'hat.event.component'
Cancelled = libs._asyncio.CancelledError
A = ['contract of hat.aio.Group, hat.aio.Queue, asyncio.wait: cancelled tasks '
     'get CancelledError at the awaits they are suspended at']


def both(f, q, name=None):
    for p in ('C27', 'C31'):
        g = types.FunctionType(f.__code__, f.__globals__, f.__name__,
                               f.__defaults__, f.__closure__)
        unit(p, q, assumes=A, bounds=())(g)


def new(m):
    c = m.load(CO)
    return c, object.__new__(c.Component)


class Closed(Exception):
    """QueueClosedError"""


def on_state(m):
    c, o = new(m)
    r = m.load(CO)
    state, mc = object(), object()

    def server_data(n):
        if X.choose(2, n):
            return None
        addr = r.tcp.Address(sym_str(n + ' host'), sym_int(n + ' port', 0))
        return c.ServerData(sym_int(n, 0), addr,
                            None if X.choose(2, 'token') else
                            sym_str(n + ' token'))
    old, data = server_data('old'), server_data('data')
    o._server_data = old
    puts, calls = [], []
    closed = X.choose(2, 'closed')

    class Queue:
        def put(self, v):
            def run():
                if closed:
                    raise Closed()
                puts.append(v)
            return aiom.Now(run)

        def put_nowait(self, v):
            if closed:
                raise Closed()
            puts.append(v)
    q = o._server_data_queue = Queue() if X.choose(2, 'queue') else None

    def get(s):
        X.prove(s is state, 'announced state')
        return data
    o._get_active_server_data = get

    def cb(*a):
        calls.append(a)
    o._state_cb = cb if X.choose(2, 'cb') else None
    with Patch(r, aio=Over(r.aio, call=aiom.call, QueueClosedError=Closed)):
        libs.await_(o._on_state(mc, state))
    X.prove(o._server_data_queue is q, 'queue is kept')
    if q is None:
        X.prove(not puts, 'no runner')
    else:
        same = bool(old == data)
        X.prove(bool(o._server_data == data), 'last known data')
        if closed:
            return
        X.prove((len(puts) == 0) == same, 'announced exactly when changed')
        X.prove(len(puts) <= 1, 'announced once')
        if puts:
            cover('announced')
            X.prove(bool(puts[0] == data), 'announced data')
    if o._state_cb is None:
        X.prove(not calls, 'no callback')
    else:
        X.prove(len(calls) == 1 and calls[0][0] is o and
                calls[0][1] is state, 'state callback')


both(on_state, [M + '_on_state'])


def monitor_runner(m):
    c, o = new(m)
    state, data = object(), None
    if X.choose(2, 'data'):
        data = object()
    mc = types.SimpleNamespace(state=state)
    o._server_data = old = object()
    o._server_data_queue = object()
    o._server_data_queue_size = size = Val()
    puts, spawned, groups = [], [], []

    class Queue:
        def __init__(self, maxsize):
            X.prove(maxsize is size, 'queue size')

        def put_nowait(self, v):
            puts.append(v)

    class Group:
        def __init__(self):
            groups.append(self)

        def spawn(self, f, *a):
            spawned.append((self, f, a))

    def get(s):
        X.prove(s is state, 'current state')
        return data
    o._get_active_server_data = get

    def loop(*a):
        raise Unsupported('called')
    o._server_data_loop = loop
    with Patch(c, aio=Over(c.aio, Queue=Queue, Group=Group)):
        res = o._create_monitor_runner(mc)
    X.prove(o._server_data is data, 'last known data')
    X.prove(type(o._server_data_queue) is Queue, 'new queue')
    X.prove([id(p) for p in puts] == ([id(data)] if data else []),
            'data of the active server')
    X.prove(len(groups) == 1 and res is groups[0], 'runner')
    X.prove(len(spawned) == 1 and spawned[0][0] is res and
            spawned[0][1] is loop and len(spawned[0][2]) == 2 and
            spawned[0][2][0] is res and
            spawned[0][2][1] is o._server_data_queue, 'loop of the runner')


both(monitor_runner, [M + '_create_monitor_runner'])


def server_data_loop(m):
    c, o = new(m)
    w = types.SimpleNamespace(taken=None, empty=True, open=None, fail=None,
                              closed=0, gclosed=0, qclosed=0)

    def value():
        return object() if X.choose(2, 'active') else None

    def suspended():
        w.empty = bool(X.choose(2, 'empty'))

    class Queue:
        def empty(self):
            return w.empty

        def get_until_empty(self):
            def run():
                if w.open is not None:
                    X.prove(w.open.state == 1, 'client loop runs')
                else:
                    X.prove(w.taken is None or not w.empty,
                            'data of an active server is used')
                k = X.choose(3, 'queue')
                if k:
                    w.fail = [Cancelled(), Closed()][k - 1]
                    raise w.fail
                w.taken = value()
                w.empty = True
                return w.taken
            return aiom.Now(run)

        def close(self):
            w.qclosed += 1
    q = Queue()

    class Sub:
        state = 0

        def spawn(self, f, *a):
            X.prove(f is loop and len(a) == 2 and a[0] is self, 'client loop')
            X.prove(w.open is self and self.state == 0, 'one client loop')
            X.prove(w.taken is not None and a[1] is w.taken,
                    'server announced last')
            X.prove(w.empty, 'nothing announced since')
            self.state = 1

        def __enter__(self):
            X.prove(w.open is None, 'one client loop')
            w.open = self
            return self

        def __exit__(self, *a):
            w.open = None
            suspended()
            self.done = True

        def async_close(self):
            return aiom.Now(self.__exit__)

    class Group:
        def create_subgroup(self):
            return Sub()

        def close(self):
            w.gclosed += 1
    g = Group()

    def loop(*a):
        raise Unsupported('called')
    o._client_loop = loop

    def close(self):
        w.closed += 1

    def start():
        # as taken last, or nothing yet
        w.taken = value()
        suspended()
        return w.taken

    def init(ls):
        X.prove(ls['server_data'] is w.taken, 'data taken last')

    def after(a, b):
        cover('round')
        X.prove(b['server_data'] is w.taken, 'data taken last')
        X.prove(w.open is None, 'client loop is closed')

    def hv(n, v):
        return start if n == 'server_data' else None

    def rule():
        return WhileRule(hv, init, lambda ls: None, after,
                         lambda ls: None)
    X.while_rule = Rules(rule(), rule())
    with Patch(c, aio=Over(c.aio, QueueClosedError=Closed)), \
            Patch(type(o), close=close):
        try:
            libs.await_(o._server_data_loop(g, q))
        except Cancelled as e:
            cover('cancelled')
            X.prove(e is w.fail, 'cancelled')
        else:
            X.prove(w.closed > 0, 'component is closed when the loop fails')
    X.prove(w.open is None, 'client loop is closed')
    X.prove(w.gclosed > 0 and w.qclosed > 0, 'runner is closed')


both(server_data_loop, [M + '_server_data_loop'])


class Obj:
    """client or runner"""

    def __init__(self, w):
        self.w = w
        self.closing = self.closed = False

    @property
    def is_open(self):
        return not self.closing

    @property
    def is_closing(self):
        return self.closing

    @property
    def is_closed(self):
        return self.closed

    def wait_closing(self):
        return aiom.Now(lambda: self.w.wait([Task(self.w, self)]))

    def async_close(self):
        def run():
            self.close()
            self.finish()
            self.closed = True
        return aiom.Now(run)


class RunnerObj(Obj):
    def close(self):
        self.closing = True

    def finish(self):
        pass


class ClientObj(Obj):
    create = None

    @property
    def async_group(self):
        return self

    def close(self):
        X.prove(not self.w.running(), 'runner is closed before the client')
        self.closing = True

    def finish(self):
        # tasks of the client are done
        t = self.create
        if t is not None and t.pending:
            t.run(True)

    def spawn(self, f, *a, **k):
        if f == self.wait_closing:
            return Task(self.w, self)
        X.prove(self.is_open, 'runner for the open client')
        X.prove(self.create is None, 'one runner for a connection')
        self.create = t = Task(self.w, None)
        t.call = lambda: f(*a, **k)
        return t


class Task:
    """shielded task of a group: waits for closing of obj or creates runner"""

    def __init__(self, w, obj):
        self.w, self.obj = w, obj
        self.pending = obj is None
        self.value = self.error = None
        self.was = False

    def run(self, closed):
        """completes, or is cancelled with closing of the client"""
        self.pending = False
        k = X.choose(3 if closed else 2, 'runner')
        if k == 2:
            self.was = True
            return
        try:
            self.value = libs.await_(self.call())
        except Exception as e:
            limit()
            self.error = e
            X.prove(e is self.w.failure, 'failure of the callback')
            return
        if k == 1:
            self.value.close()
            if not closed:
                self.w.reason = True

    def done(self):
        return self.obj.closing if self.obj is not None else not self.pending

    def cancelled(self):
        return self.was

    def exception(self):
        X.prove(not self.pending, 'task is done')
        if self.pending:
            raise Exception('not done')
        if self.was:
            raise Cancelled()
        return self.error

    def result(self):
        X.prove(not self.pending, 'task is done')
        if self.pending:
            raise Exception('not done')
        if self.was:
            raise Cancelled()
        if self.error:
            raise self.error
        return self.value

    def cancel(self):
        raise Unsupported('cancel')

    def _await_(self):
        self.w.wait([self])
        return self.result()


class Comp:
    """world of Component._client_loop"""

    def __init__(self, m):
        w = self
        w.c, w.o = new(m)
        o = w.o
        w.client = None
        w.runners = []
        w.cancelled = w.reason = w.lost = False
        w.failure = None
        w.closed = w.gclosed = 0
        o._client_name, o._reconnect_delay = Val(), Val()
        w.data = w.c.ServerData(server_id=Val(), addr=object(),
                                server_token=Val())
        w.kwargs = {'client_token': Val(), 'subscriptions': object()}
        k = X.choose(3, 'server_id')
        if k:
            w.kwargs['server_id'] = [Val(), None][k - 1]
        o._server_data = object()       # of any other server
        o._eventer_kwargs = MDict(list(w.kwargs.items()))
        o._runner_cb = w.runner_cb
        w.events = []
        w.cbs = bool(X.choose(2, 'callbacks'))
        o._status_cb = o._events_cb = None
        if w.cbs:
            o._status_cb = lambda *a: w.events.append(('status', *a))
            o._events_cb = lambda *a: w.events.append(('events', *a))

    def running(self):
        return any(not r.closed for r in self.runners)

    def idle(self):
        X.prove(self.client is None or self.client.closed,
                'client is closed')
        X.prove(not self.running(), 'runner is closed')

    def runner_cb(self, comp, data, client):
        w = self
        X.prove(comp is w.o and data is w.data and client is w.client,
                'component, server and client of the connection')
        X.prove(not w.running(), 'one runner')
        if X.choose(2, 'failure'):
            w.failure = Exception('failure')
            if client.is_open:
                w.reason = True
            raise w.failure
        r = RunnerObj(w)
        w.runners.append(r)
        return r

    def wait(self, tasks):
        """suspended until one of tasks is done"""
        w = self
        create = w.client.create if w.client else None
        running = [r for r in w.runners if r.is_open]
        if w.cancelled:
            # while cleaning up: all done
            for t in tasks:
                if t.pending:
                    t.run(t.w.client.closing)
            return
        done = any(t.done() for t in tasks)
        k = X.choose(3, 'end')
        if create is not None and create.pending:
            closed = bool(X.choose(2, 'lost'))
            if closed:
                w.lost = w.client.closing = True
            if k != 2 or X.choose(2, 'created'):
                create.run(closed)
        elif k == 1 and running:
            running[0].closing = True
            w.reason = True
        elif k == 0 or not done and k == 1:
            w.lost = w.client.closing = True
        if k == 2:
            w.cancelled = True
            raise Cancelled()

    def connect(self, *, addr, client_name, **kw):
        w = self

        def run():
            w.idle()
            X.prove(addr is w.data.addr, 'address of the server')
            X.prove(client_name is w.o._client_name, 'client name')
            want = {'server_id': w.data.server_id, **w.kwargs}
            X.prove(sorted(kw) == sorted([*want, 'status_cb', 'events_cb']),
                    'arguments')
            for n, v in want.items():
                X.prove(kw[n] is v, 'argument ' + n)
            for n in ('status', 'events'):
                a, b = object(), object()
                w.events.clear()
                try:
                    libs.await_(aiom.call(kw[n + '_cb'], a, b))
                except (AttributeError, TypeError):
                    X.prove(w.cbs, 'callbacks are optional')
                    if w.cbs:
                        raise
                    raise Cut
                if not w.cbs:
                    X.prove(not w.events, 'callbacks are optional')
                    continue
                X.prove(len(w.events) == 1 and w.events[0][0] == n and
                        w.events[0][1] is w.o and w.events[0][2] is a and
                        w.events[0][3] is b, n + ' callback')
            k = X.choose(3, 'connect')
            if k == 2:
                w.cancelled = True
                raise Cancelled()
            if k:
                raise Exception('failure')
            w.client = ClientObj(w)
            return w.client
        return aiom.Now(run)

    def uncancellable(self, f, raise_cancel=True):
        def run():
            r = libs.await_(f)
            if not self.cancelled and X.choose(2, 'cancel'):
                self.cancelled = True
                if raise_cancel:
                    raise Cancelled()
            return r
        return aiom.Now(run)

    def sleep(self, d):
        def run():
            w = self
            X.prove(d is w.o._reconnect_delay, 'delay')
            w.idle()
            if X.choose(2, 'sleep'):
                w.cancelled = True
                raise Cancelled()
        return aiom.Now(run)


def client_loop(m):
    w = Comp(m)
    c, o = w.c, w.o

    def wait(tasks, *, timeout=None, return_when='ALL'):
        def run():
            t = list(libs.native(libs.vc_list(tasks)))
            X.prove(timeout is None, 'no timeout')
            if len(t) > 1 and return_when != 'FIRST':
                raise Unsupported('wait')
            w.wait(t)
        return aiom.Now(run)

    class Sub:
        def spawn(self, f, *a):
            for x in [w.client, *w.runners]:
                if f == x.wait_closing and not a:
                    return Task(w, x)
            raise Unsupported('spawn')

        def __enter__(self):
            return self

        def __exit__(self, *a):
            if not w.cancelled and X.choose(2, 'close'):
                w.cancelled = True
                raise Cancelled()

    class Group:
        def create_subgroup(self):
            return Sub()

        def close(self):
            w.gclosed += 1

    def close(self):
        X.prove(w.reason, 'component closes only with its runner')
        w.closed += 1

    def after(a, b):
        cover('round')
        w.idle()
        X.prove(w.closed == 0 and (w.lost or not w.reason),
                'component closes with its runner')
    X.while_rule = WhileRule(
        lambda n, v: None, lambda ls: None, lambda ls: None, after,
        lambda ls: None, plain=True)
    with Patch(c, aio=Over(c.aio, call=aiom.call,
                           uncancellable=w.uncancellable),
               hat=types.SimpleNamespace(event=types.SimpleNamespace(
                   eventer=types.SimpleNamespace(
                       client=types.SimpleNamespace(connect=w.connect)))),
               asyncio=types.SimpleNamespace(
                   wait=wait, FIRST_COMPLETED='FIRST', sleep=w.sleep,
                   CancelledError=Cancelled)), \
            Patch(type(o), close=close):
        try:
            libs.await_(o._client_loop(Group(), w.data))
        except Cancelled:
            cover('cancelled')
    w.idle()
    X.prove(w.cancelled or w.closed > 0,
            'ends only if cancelled or the component closes')
    X.prove(w.gclosed > 0, 'group is closed')


both(client_loop, [M + '_client_loop', 'component:_close_runner',
                   M + '_on_status', M + '_on_events'])
