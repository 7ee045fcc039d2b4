"""C31: component runs one runner per connection to the active server.

connect         arguments, callbacks and loops of the component;
close_req, state, ready
                reach the given callbacks and the monitor;
_on_state, _create_monitor_runner, _server_data_loop, _client_loop
                (units/comp.py) data of the active server is announced to
                the loop exactly when it changes; at most one client loop,
                for the data announced last, closed before the next one; one
                client at a time, connected to the address of the data; one
                runner per connection, created for the open client, closed
                before it, none left behind."""

import types

from vf import libs, aiom
from vf.unit import unit
from units.lib import *     # noqa
from units.comp import new, M, CO


@unit('C31', ['component:connect', M + 'set_ready', M + 'async_group',
              M + 'state', M + 'ready'],
      assumes=['contract of hat.monitor.component.connect: runner_cb, state_cb '
               'and close_req_cb are called as documented'], bounds=())
def connect(m):
    c = m.load(CO)
    names = ['addr', 'name', 'group', 'server_group', 'client_name']
    args = {n: Val() for n in names}
    seen = []
    own = {'extra': Val(), 'state_cb': object()}
    opt = X.choose(2, 'options')
    kw = {n: Val() for n in ('server_data_queue_size', 'reconnect_delay')}
    kw['observer_kwargs'] = MDict(list(own.items()))
    kw['eventer_kwargs'] = MDict([])
    cbs = {n: object() for n in ('runner_cb', 'state_cb', 'close_req_cb',
                                 'status_cb', 'events_cb')}
    calls = []

    class Mc:
        state, ready, async_group = object(), object(), object()

        def set_ready(self, v):
            return aiom.Now(lambda: calls.append(v))
    mc = Mc()

    def mconnect(**k):
        def run():
            seen.append(k)
            return mc
        return aiom.Now(run)

    def forward(name):
        def f(self, *a):
            calls.append((name, self, a))
            return name
        return f
    back = {'runner_cb': '_create_monitor_runner', 'state_cb': '_on_state',
            'close_req_cb': '_on_close_req'}
    with Patch(c, hat=types.SimpleNamespace(monitor=types.SimpleNamespace(
            component=types.SimpleNamespace(connect=mconnect)))), \
            Patch(c.Component, **{f: forward(f) for f in back.values()}):
        r = libs.await_(c.connect(
            **args, runner_cb=cbs['runner_cb'],
            **({**{n: v for n, v in cbs.items() if n != 'runner_cb'}, **kw}
               if opt else {})))
        X.prove(len(seen) == 1, 'connects to the monitor server')
        k = seen[0]
        for n in ('addr', 'name', 'group'):
            X.prove(k[n] is args[n], n)
        X.prove(sorted(k) == sorted(['addr', 'name', 'group', *back] +
                                    (['extra'] if opt else [])),
                'arguments')
        if opt:
            X.prove(k['extra'] is own['extra'], 'observer arguments')
        for n, f in back.items():
            a = object()
            calls.clear()
            X.prove(k[n](a) == f and len(calls) == 1 and
                    calls[0][:2] == (f, r) and calls[0][2] == (a,),
                    n + ' of the component')
    X.prove(type(r) is c.Component, 'component')
    X.prove(r._server_group is args['server_group'] and
            r._client_name is args['client_name'], 'server group, name')
    for n, v in cbs.items():
        X.prove(getattr(r, '_' + n) is (
            v if opt or n == 'runner_cb' else None), n)
    X.prove(r._server_data is None and r._server_data_queue is None,
            'no known server')
    if opt:
        X.prove(r._reconnect_delay is kw['reconnect_delay'] and
                r._server_data_queue_size is kw['server_data_queue_size'] and
                r._eventer_kwargs is kw['eventer_kwargs'], 'options')
    X.prove(r.async_group is mc.async_group and r.state is mc.state and
            r.ready is mc.ready, 'monitor component')
    calls.clear()
    v = Val()
    libs.await_(r.set_ready(v))
    X.prove(len(calls) == 1 and calls[0] is v, 'readiness')


@unit('C31', [M + '_on_close_req'], bounds=())
def close_req(m):
    c, o = new(m)
    calls = []

    def cb(*a):
        calls.append(a)
    o._close_req_cb = cb if X.choose(2, 'cb') else None
    with Patch(c, aio=Over(c.aio, call=aiom.call)):
        libs.await_(o._on_close_req(object()))
    X.prove(len(calls) == (o._close_req_cb is not None), 'called once')
    if calls:
        X.prove(len(calls[0]) == 1 and calls[0][0] is o, 'close request')
