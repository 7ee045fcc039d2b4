"""Connections and creation of small parts (C23, C24, C26, C29)."""

import types

import z3

from vf import libs, seqs, aiom
from vf.unit import unit, cover
from units.lib import *     # noqa
from vf.syms import sym_bool

Cancelled = libs._asyncio.CancelledError
A = ['contract of hat.drivers.chatter (connect, listen, send, receive), '
     'hat.sbs and hat.aio.Group.spawn']


class Fail(Exception):
    pass


def messages(pkg):
    def f(m):
        r = m.load(f'hat.event.{pkg}.common')
        mt, md, enc, dec = (object() for _ in range(4))
        w = types.SimpleNamespace(sent=[], conv=object())

        def encode(t, d):
            X.prove(t is mt and d is md, 'encoded as its type')
            return enc

        def decode(t, d):
            X.prove(t is mt and d is enc, 'decoded as its type')
            return dec

        def send(d, **k):
            def run():
                w.sent.append((d, k))
                if X.choose(2, 'fails'):
                    w.fail = ConnectionError()
                    raise w.fail
                return w.conv
            return aiom.Now(run)
        msg = types.SimpleNamespace(data=types.SimpleNamespace(type=mt,
                                                               data=enc))

        def receive():
            def run():
                if X.choose(2, 'fails'):
                    w.fail = ConnectionError()
                    raise w.fail
                return msg
            return aiom.Now(run)
        conn = types.SimpleNamespace(send=send, receive=receive)
        w.fail = None
        kw = {} if X.choose(2, 'plain') else {'conv': Val(), 'last': Val()}
        with Patch(r, sbs_repo=types.SimpleNamespace(encode=encode,
                                                     decode=decode)):
            if X.choose(2, 'receive'):
                try:
                    res = libs.await_(r.receive_msg(conn))
                except ConnectionError as e:
                    X.prove(e is w.fail, 'connection error')
                    return
                cover('received')
                X.prove(len(res) == 3 and res[0] is msg and res[1] is mt and
                        res[2] is dec, 'message')
                return
            try:
                res = libs.await_(r.send_msg(conn, mt, md, **kw))
            except ConnectionError as e:
                X.prove(e is w.fail, 'connection error')
                return
            cover('sent')
            X.prove(res is w.conv, 'conversation')
            X.prove(len(w.sent) == 1, 'sent once')
            d, k = w.sent[0]
            X.prove(d.type is mt and d.data is enc, 'encoded message')
            X.prove(set(k) == set(kw) and all(k[i] is kw[i] for i in k),
                    'conversation of the message')
    return f


for p, pkg in (('C23', 'eventer'), ('C24', 'eventer'), ('C29', 'adminer')):
    unit(p, [pkg + '.common:send_msg', pkg + '.common:receive_msg'],
         assumes=A, bounds=(), name='messages')(messages(pkg))


@unit('C29', ['adminer.client:connect', 'adminer.client:Client.async_group'],
      assumes=A, bounds=())
def adminer_connect(m):
    r = m.load('hat.event.adminer.client')
    w = types.SimpleNamespace(fail=None, spawned=[], closed=0, conn=None)
    addr, kw = object(), {'a': Val(), 'b': Val()}

    class Group:
        def spawn(self, f, *a):
            if X.choose(2, 'closed'):
                w.fail = Fail()
                raise w.fail
            w.spawned.append((f, a))

    def connect(a, /, **k):
        def run():
            X.prove(a is addr and set(k) == set(kw) and
                    all(k[i] is kw[i] for i in k), 'address and arguments')
            X.prove(w.conn is None, 'one connection')
            if X.choose(2, 'fails'):
                w.fail = [Fail, Cancelled][X.choose(2, 'how')]()
                raise w.fail
            w.conn = types.SimpleNamespace(async_group=Group())
            return w.conn
        return aiom.Now(run)

    def async_close(self):
        def run():
            w.closed += 1
        return aiom.Now(run)
    with Patch(r, chatter=Over(r.chatter, connect=connect),
               aio=Over(r.aio, uncancellable=aiom.uncancellable),
               asyncio=Over(r.asyncio, get_running_loop=object)), \
            Patch(r.Client, async_close=async_close):
        try:
            c = libs.await_(r.connect(addr, **kw))
        except (Fail, Cancelled) as e:
            cover('failed')
            X.prove(e is w.fail, 'error of the connection')
            X.prove(w.conn is None or w.closed == 1, 'closed when failed')
            return
        cover('connected')
        X.prove(w.fail is None and w.closed == 0, 'connected')
        X.prove(c._conn is w.conn and c.async_group is w.conn.async_group,
                'connection')
        X.prove(eq(libs.vc_len(c._conv_msg_type_futures), 0),
                'no call is waiting')
        X.prove(w.spawned == [(c._receive_loop, ())], 'receives responses')


@unit('C29', ['adminer.server:listen', 'adminer.server:Server.async_group',
              'server.adminer_server:create_adminer_server',
              'server.adminer_server:AdminerServer.async_group'],
      assumes=A, bounds=())
def adminer_listen(m):
    r = m.load('hat.event.adminer.server')
    s = m.load('hat.event.server.adminer_server')
    addr, srv, conf, kw = object(), types.SimpleNamespace(), Val(), \
        {'a': Val()}
    srv.async_group = object()
    w = types.SimpleNamespace(calls=[])
    get, set_ = object(), object()

    def listen(cb, a, /, **k):
        def run():
            X.prove(a is addr and set(k) == set(kw) and
                    all(k[i] is kw[i] for i in k), 'address and arguments')
            w.calls.append(cb)
            return srv
        return aiom.Now(run)
    with Patch(r, chatter=Over(r.chatter, listen=listen)):
        x = libs.await_(r.listen(addr, get_log_conf_cb=get,
                                 set_log_conf_cb=set_, **kw))
    cover('listening')
    X.prove(w.calls == [x._connection_loop], 'one server')
    X.prove(x._get_log_conf_cb is get and x._set_log_conf_cb is set_ and
            x.async_group is srv.async_group, 'callbacks')

    def adminer(a, /, *, get_log_conf_cb=None, set_log_conf_cb=None, **k):
        def run():
            X.prove(a is addr and set(k) == set(kw) and
                    all(k[i] is kw[i] for i in k), 'address and arguments')
            w.cbs = get_log_conf_cb, set_log_conf_cb
            return srv
        return aiom.Now(run)
    with Patch(s, adminer=types.SimpleNamespace(listen=adminer)):
        y = libs.await_(s.create_adminer_server(addr, conf, **kw))
    X.prove(w.cbs == (y._on_get_log_conf, y._on_set_log_conf), 'callbacks')
    X.prove(y._on_get_log_conf() is conf, 'initial configuration')
    X.prove(y.async_group is srv.async_group, 'closes with the server')


@unit('C26', ['server.engine_runner:EngineRunner.__init__',
              'server.engine_runner:EngineRunner.async_group',
              'server.eventer_client_runner:EventerClientRunner.__init__',
              'server.eventer_client_runner:EventerClientRunner.async_group',
              'server.eventer_client_runner:EventerClientRunner.'
              'remote_active',
              'server.eventer_client_runner:EventerClientRunner.'
              'register_remote_active_cb'], assumes=A, bounds=())
def runners_init(m):
    e = m.load('hat.event.server.engine_runner')
    r = m.load('hat.event.server.eventer_client_runner')
    spawned, cbs = [], []

    class Group:
        def spawn(self, f, *a):
            spawned.append((self, f, a))

    class Event:
        is_ = False

        def is_set(self):
            return self.is_

    class Registry:
        def register(self, cb):
            cbs.append(cb)
            return handle
    handle = object()
    a = [Val() for _ in range(5)]
    with Patch(e, aio=Over(e.aio, Group=Group),
               asyncio=Over(e.asyncio, Event=Event)):
        o = e.EngineRunner(*a)
    X.prove(o._conf is a[0] and o._backend is a[1] and
            o._eventer_server is a[2] and o._eventer_client_runner is a[3] and
            o._reset_monitor_ready_cb is a[4], 'arguments')
    X.prove(o._engine is None and not o._restart.is_set(), 'no engine')
    X.prove(len(spawned) == 1 and spawned[0] == (o.async_group, o._run, ()),
            'runs once')
    with Patch(r, aio=Over(r.aio, Group=Group),
               util=types.SimpleNamespace(CallbackRegistry=Registry)):
        o = r.EventerClientRunner(*a[:4])
    X.prove(o._conf is a[0] and o._backend is a[1] and
            o._synced_cb is a[2] and o._reconnect_delay is a[3], 'arguments')
    X.prove(o.remote_active is False, 'no server is active')
    for s in (o._valid_server_data, o._connecting_server_data,
              o._remote_active_server_data):
        X.prove(eq(libs.vc_len(s), 0), 'no servers')
    X.prove(o._valid_server_data is not o._connecting_server_data and
            o._connecting_server_data is not o._remote_active_server_data,
            'own sets')
    cb = object()
    X.prove(o.register_remote_active_cb(cb) is handle and cbs == [cb],
            'callback of changes')
    cover('created')


def engine_requests(m):
    """requests of modules reach the callbacks given for them"""
    from units import c18
    w = c18.Modules(m)
    calls = []
    server = types.SimpleNamespace(get_client_names=lambda: names)
    names = object()
    with Patch(w.r, aio=w.aio, asyncio=w.asyncio):
        e = libs.await_(w.r.create_engine(
            w.backend, server, MList([]), w.sid,
            lambda: calls.append('restart'), lambda: calls.append('reset')))
        X.prove(not calls, 'nothing is requested')
        X.prove(eq(e.server_id, w.sid), 'server identifier')
        e.restart()
        X.prove(calls == ['restart'], 'restart is requested')
        e.reset_monitor_ready()
        X.prove(calls == ['restart', 'reset'], 'reset is requested')
    cover('requested')


for p in ('C26', 'C32'):
    unit(p, ['server.engine:Engine.restart', 'server.engine:create_engine',
             'server.engine:Engine.reset_monitor_ready',
             'server.engine:Engine.server_id'], assumes=A,
         bounds=())(engine_requests)
