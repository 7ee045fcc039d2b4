"""C24: event server.

_on_connected      raises iff a token is given that differs from the server's
                   token; registers CONNECTED with the engine iff it runs;
                   engine failures do not reject;
_on_disconnected   registers DISCONNECTED iff the engine runs;
_on_register       result of the engine's register with the identity of the
                   connection; without engine: failure, nothing registered;
_on_query          result of the backend, always;
set_status         the engine is set exactly for OPERATIONAL;
create, listen     the callbacks are these functions;
connection_loop    the callback decides; the connection is known exactly
                   after acceptance and until it closes; init response states
                   the decision; however the loop ends the connection is
                   closed and removed, its waiting acknowledgments fail and
                   disconnected is called for an accepted connection;
client connect     one init request with the given arguments; an error
                   response gives EventerInitError and a closed connection."""

import types

import z3

from vf import libs, seqs, aiom
from vf.unit import unit, cover
from units.lib import *     # noqa
from units import c06
from vf.syms import sym_int, sym_bool, StrC, OpC, sym_str, sym_list

ES = 'hat.event.server.eventer_server'
SRV = 'hat.event.eventer.server'
CLI = 'hat.event.eventer.client'
A = ['contract of Engine.register (C20), Backend.query',
     'chatter: receive raises ConnectionError when closed; every connection '
     'is passed to the connection loop once',
     'C06: contract of message encoding']
Cancelled = libs._asyncio.CancelledError


class World:
    def __init__(self, m):
        w = self
        w.r, w.c = m.load(ES), m.load('hat.event.common')
        s = w.s = w.r.EventerServer()
        w.token = fresh(OptC(StrC), 'token')
        w.client_token = fresh(OptC(StrC), 'client token')
        w.id = sym_int('id', 1)
        w.name = sym_str('name')
        w.info = types.SimpleNamespace(
            id=w.id, client_name=w.name, client_token=w.client_token,
            subscription=object(), server_id=Val(), persisted=False)
        w.sid = sym_int('server', 0)
        s._server_id = w.sid
        s._server_token = w.token
        s._backend = object()
        w.reg = []
        w.result = Val()
        w.has = X.choose(2, 'engine')
        w.open = sym_bool('open') if w.has else False
        w.engine = None
        if w.has:
            w.engine = types.SimpleNamespace(is_open=w.open,
                                             register=w.register)
        s._engine = w.engine

    def register(self, source, events):
        def run():
            self.reg.append((source, events))
            k = X.choose(3, 'registration')
            if k == 0:
                return self.result
            raise [Exception('closed'), Cancelled()][k - 1]
        return aiom.Now(run)

    def registered(self, status):
        """exactly one registration of the eventer event iff running"""
        if not self.has:
            X.prove(not self.reg, 'nothing without engine')
            return
        if not X.decide(bool_term(self.open)):
            X.prove(not self.reg, 'nothing while the engine does not run')
            return
        X.prove(len(self.reg) == 1, 'registered once')
        src, evs = self.reg[0]
        self.identity(src)
        X.prove(isinstance(evs, (list, MList)) and
                eq(libs.vc_len(evs), 1), 'one event')
        e = evs[0]
        t = e.type
        X.prove(len(t) == 4, 'event type')
        X.prove(and_(eq(t[0], 'event'), eq(t[2], 'eventer')), 'event type')
        X.prove(eq(t[1], libs.vc_str(self.sid)), 'local server id')
        X.prove(eq(t[3], self.name), 'client name')
        X.prove(e.source_timestamp is None, 'no source timestamp')
        X.prove(isinstance(e.payload, self.c.EventPayloadJson) and
                e.payload.data == status, 'payload')

    def identity(self, src):
        X.prove(eq(src.id, self.id), 'identity of the connection')
        X.prove(src.type is self.c.SourceType.EVENTER, 'eventer source')


@unit('C24', ['server.eventer_server:EventerServer._on_connected',
              'server.eventer_server:EventerServer._create_eventer_event',
              'server.eventer_server:_get_source'], assumes=A, bounds=())
def on_connected(m):
    w = World(m)
    wrong = and_(not_(eq(w.client_token, None)),
                 not_(eq(w.client_token, w.token)))
    try:
        libs.await_(w.s._on_connected(w.info))
    except Cancelled:
        X.prove(bool(w.reg), 'cancelled while registering')
    except Exception:
        limit()
        cover('rejected')
        X.prove(wrong, 'rejected only with a different token')
        X.prove(not w.reg, 'rejected client is not registered')
        return
    cover('accepted')
    X.prove(not_(wrong), 'accepted only without or with equal token')
    w.registered('CONNECTED')


@unit('C24', ['server.eventer_server:EventerServer._on_disconnected',
              'server.eventer_server:EventerServer._create_eventer_event',
              'server.eventer_server:_get_source'], assumes=A, bounds=())
def on_disconnected(m):
    w = World(m)
    try:
        libs.await_(w.s._on_disconnected(w.info))
    except (Exception, Cancelled):
        limit()
        X.prove(bool(w.reg), 'fails only while registering')
    w.registered('DISCONNECTED')


@unit('C24', ['server.eventer_server:EventerServer._on_register'], assumes=A,
      bounds=())
def on_register(m):
    w = World(m)
    evs = object()
    try:
        r = libs.await_(w.s._on_register(w.info, evs))
    except (Exception, Cancelled):
        limit()
        X.prove(bool(w.reg), 'fails only while registering')
    else:
        X.prove(r is (w.result if w.has else None),
                'result of the engine, failure without')
    X.prove(len(w.reg) == w.has, 'registered once with the engine')
    if w.has:
        src, e = w.reg[0]
        w.identity(src)
        X.prove(e is evs, 'given register events')


@unit('C24', ['server.eventer_server:EventerServer._on_query'], assumes=A,
      bounds=())
def on_query(m):
    w = World(m)
    params, res = object(), object()
    log = []

    def query(p):
        def run():
            log.append(p)
            if X.choose(2, 'failure'):
                raise Exception('failure')
            return res
        return aiom.Now(run)
    w.s._backend = types.SimpleNamespace(query=query)
    try:
        r = libs.await_(w.s._on_query(w.info, params))
        X.prove(r is res, 'result of the backend')
    except Exception:
        limit()
        cover('failure')
    X.prove(len(log) == 1 and log[0] is params, 'queries go to the backend')
    X.prove(not w.reg, 'nothing is registered')


@unit('C24', ['server.eventer_server:EventerServer.set_status'], assumes=A,
      bounds=())
def set_status(m):
    w = World(m)
    sts = list(w.c.Status)
    st = sts[X.choose(len(sts), 'status')]
    old = w.s._engine
    new = object() if X.choose(2, 'new engine') else None
    log = []

    def set_(x):
        def run():
            X.prove(w.s._engine is new, 'engine is set before the status')
            log.append(x)
        return aiom.Now(run)
    w.s._srv = types.SimpleNamespace(set_status=set_)
    ok = (new is not None) == (st is w.c.Status.OPERATIONAL)
    try:
        libs.await_(w.s.set_status(st, new))
    except ValueError:
        cover('invalid')
        X.prove(not ok, 'engine exactly while operational')
        X.prove(w.s._engine is old and not log, 'nothing is changed')
        return
    X.prove(ok, 'engine exactly while operational')
    X.prove(w.s._engine is new, 'given engine')
    X.prove(len(log) == 1 and log[0] is st, 'given status')


@unit('C24', ['server.eventer_server:create_eventer_server',
              'server.eventer_server:EventerServer.get_client_names',
              'server.eventer_server:EventerServer.notify_events'],
      assumes=A, bounds=())
def create(m):
    w = World(m)
    r = w.r
    log = []
    inner = types.SimpleNamespace()

    def listen(addr, **kw):
        def run():
            log.append((addr, kw))
            return inner
        return aiom.Now(run)
    addr, backend, x = object(), object(), Val()
    with Patch(r, eventer=Over(r.eventer, listen=listen)):
        s = libs.await_(r.create_eventer_server(
            addr, backend, w.sid, server_token=w.token, x=x))
    X.prove(len(log) == 1 and log[0][0] is addr, 'listens at the address')
    kw = log[0][1]
    for n in ('connected', 'disconnected', 'register', 'query'):
        X.prove(getattr(kw.get(f'{n}_cb'), '__func__', None) is
                getattr(type(s), f'_on_{n}') and
                kw[f'{n}_cb'].__self__ is s, f'{n} callback')
    X.prove(kw.get('x') is x and len(kw) == 5, 'other arguments')
    X.prove(s._backend is backend and s._engine is None and
            s._srv is inner, 'state')
    X.prove(and_(eq(s._server_id, w.sid), eq(s._server_token, w.token)),
            'identification')
    # names
    infos = items('info', {'id': lambda t: mkint(ID(t)),
                           'client_name': lambda t: nm(t)}, 'infos')
    inner.get_conn_infos = lambda: infos
    if X.choose(2, 'goal'):
        def f(a, b):
            X.prove(int_term(a[0].id) == ID(b.t), 'source')
            X.prove(a[0].type is w.c.SourceType.EVENTER, 'source type')
            X.prove(eq(a[1], nm(b.t)), 'name')
        same(libs.vc_list(s.get_client_names()), infos, f,
             'every connected client')
        return
    got = []
    inner.notify_events = lambda *a: aiom.Now(lambda: got.append(a))
    evs, p, ack = object(), object(), object()
    libs.await_(s.notify_events(evs, p, ack))
    X.prove(len(got) == 1 and got[0][0] is evs and got[0][1] is p and
            got[0][2] is ack, 'given notification')


ID = z3.Function('info.id', I, I)
nm = fn(StrC, 'info.name')


@unit('C24', ['eventer.server:listen', 'eventer.server:Server.get_conn_infos'],
      assumes=A, bounds=())
def listen(m):
    r = m.load(SRV)
    log = []
    inner = object()

    def clisten(cb, addr, **kw):
        def run():
            s = cb.__self__
            X.prove(cb.__func__ is type(s)._connection_loop,
                    'connection loop')
            for k, v in want.items():
                X.prove(getattr(s, k) is v, f'{k} before the first client')
            X.prove(eq(libs.vc_len(s._conn_infos), 0) and
                    eq(libs.vc_len(s._conn_conv_futures), 0), 'no client')
            log.append((addr, kw))
            return inner
        return aiom.Now(run)
    st, a, b, c, d, addr, x = (object() for _ in range(7))
    want = {'_status': st, '_connected_cb': a, '_disconnected_cb': b,
            '_register_cb': c, '_query_cb': d}
    asyncio = types.SimpleNamespace(get_running_loop=lambda: None)
    with Patch(r, chatter=types.SimpleNamespace(listen=clisten),
               asyncio=asyncio):
        s = libs.await_(r.listen(addr, status=st, connected_cb=a,
                                 disconnected_cb=b, register_cb=c,
                                 query_cb=d, x=x))
    X.prove(len(log) == 1 and log[0][0] is addr and
            log[0][1] == {'x': x} and s._srv is inner, 'listens')
    i, j = (libs.vc_next(s._next_conn_ids) for _ in range(2))
    X.prove(not_(eq(i, j)), 'connection identifiers differ')


class Conn:
    """one run of the connection loop on a server with any number of other
    connections and waiting acknowledgments"""

    def __init__(self, m):
        w = self
        w.r, w.c = m.load(SRV), m.load('hat.event.eventer.common')
        s = w.s = w.r.Server()
        w.sp = seqs.new_space()
        w.closed = []
        w.cc = seqs.in_space(ItemC('conn', {
            'close': lambda t: lambda: w.close(t),
            'wait_closing': lambda t: lambda: aiom.Now()}), w.sp)
        w.conn = w.cc.build([X.fresh('conn', I)])
        add_index(w.conn.t, w.sp)
        w.infos = SymMap.fresh(w.cc, ItemC('info', {}), 'conns')
        X.assume(z3.Not(w.infos.dom(w.conn.t)))
        s._conn_infos = MDict(base=w.infos)
        w.D = z3.Function('future.done', I, B)
        w.answers = MList()
        w.fut = ItemC('future', {
            'done': lambda f: lambda: mkbool(w.D(f)),
            'set_result': lambda f: lambda v: w.answer(f, 'result', v),
            'set_exception': lambda f: lambda e: w.answer(f, 'error', e)})
        w.kc = PairC(w.cc, ItemC('conv', {})).in_space(seqs.new_space())
        w.futs = SymMap.fresh(w.kc, w.fut, 'futures')
        s._conn_conv_futures = MDict(base=w.futs)
        w.FK = z3.Function('future.key', I, I)
        g = z3.Const(X.name('g'), I)
        universal(g, T, z3.Implies(w.futs.dom(g),
                                   w.FK(w.futs.val(g)[0]) == g), w.kc.sp)
        s._status, w.status_sbs = object(), object()
        s._next_conn_ids = iter([7])
        s._close_timeout = object()
        w.phase = 'init'
        w.sent = []
        w.accepted = False
        w.connected, w.disconnected = [], []
        w.handled = []
        w.cbs = [X.choose(2, 'callbacks')] * 2
        s._connected_cb = w.connected_cb if w.cbs[0] else None
        s._disconnected_cb = w.disconnected_cb if w.cbs[0] else None
        s._process_msg_register = w.handler('register')
        s._process_msg_query = w.handler('query')
        w.got = None
        w.acked = []
        # received init request
        w.name = sym_str('name')
        w.tok, w.sid, w.tok_sbs, w.sid_sbs = (Val() for _ in range(4))
        w.pers = sym_bool('persisted')
        w.subs = sym_list(OpC('EventType', tuple), 'subs')
        w.subscription = object()

    def close(self, t):
        X.prove(t == self.conn.t, 'own connection is closed')
        self.closed.append(1)

    def answer(self, f, kind, v):
        X.prove(z3.Not(self.D(f)), 'answered once')
        if self.closed:
            X.prove(kind == 'error' and isinstance(v, ConnectionError),
                    'closed: connection error')
            self.answers.append(mkint(f))
        else:
            X.prove(kind == 'result', 'acknowledged')
            self.acked.append(f)

    def known(self):
        return self.s._conn_infos._contains_(self.conn)

    def optional(self, d):
        X.prove(d is self.tok_sbs or d is self.sid_sbs, 'optional value')
        return self.tok if d is self.tok_sbs else self.sid

    def status(self, st):
        X.prove(st is self.s._status, 'current status')
        return self.status_sbs

    def check_info(self, info):
        X.prove(info.id == 7, 'identifier of the connection')
        X.prove(eq(info.client_name, self.name), 'client name')
        X.prove(info.client_token is self.tok, 'client token')
        X.prove(info.server_id is self.sid, 'server id')
        X.prove(info.subscription is self.subscription, 'subscription')
        X.prove(eq(info.persisted, self.pers), 'persisted')

    def connected_cb(self, info):
        def run():
            self.check_info(info)
            X.prove(not_(self.known()), 'no notifications before acceptance')
            self.connected.append(info)
            k = X.choose(3, 'connected')
            if k:
                raise [Exception('rejected'), Cancelled()][k - 1]
        return aiom.Now(run)

    def disconnected_cb(self, info):
        def run():
            X.prove(bool(self.closed), 'disconnected after close')
            X.prove(not_(self.known()), 'no notifications after close')
            self.disconnected.append(info)
            if X.choose(2, 'disconnected'):
                raise Exception('failure')
        return aiom.Now(run)

    def handler(self, kind):
        def f(conn, info, msg, data):
            def run():
                X.prove(conn is self.conn and msg is self.got[0] and
                        data is self.got[2], 'received message')
                X.prove(kind == self.got[3], 'handler of the message type')
                X.prove(info is not None and (
                    not self.connected or info is self.connected[0]),
                    'identity of the connection')
                self.check_info(info)
                self.handled.append(kind)
                k = X.choose(3, 'handler')
                if k:
                    raise [Exception('failure'), Cancelled()][k - 1]
            return aiom.Now(run)
        return f

    def receive(self, conn):
        def run():
            X.prove(conn is self.conn, 'own connection')
            if self.phase == 'init':
                self.phase = 'started'
                k = X.choose(5, 'init')
                if k < 3:
                    if k == 2:
                        raise Exception('decoding')
                    raise [ConnectionError(), Cancelled()][k]
                if k == 3:
                    self.phase = 'invalid'
                    return (types.SimpleNamespace(conv=None),
                            'HatEventer.MsgQueryReq', None)
                self.conv = object()
                return (types.SimpleNamespace(conv=self.conv),
                        'HatEventer.MsgInitReq',
                        {'clientName': self.name,
                         'clientToken': self.tok_sbs,
                         'subscriptions': self.subs,
                         'serverId': self.sid_sbs,
                         'persisted': self.pers})
            X.prove(self.phase == 'responded' and self.accepted,
                    'requests of accepted clients only')
            X.prove(self.known(), 'accepted client is notified')
            self.check_info(self.s._conn_infos.get(self.conn))
            self.round_done()
            k = X.choose(7, 'message')
            if k < 3:
                raise [ConnectionError(), Cancelled(),
                       Exception('decoding')][k]
            t = ['EventsAck', 'RegisterReq', 'QueryReq', 'Other'][k - 3]
            conv = self.kc.b.build([X.fresh('conv', I)]) \
                if k == 3 else object()
            self.got = (types.SimpleNamespace(conv=conv),
                        'HatEventer.Msg' + t, object(),
                        ['ack', 'register', 'query', None][k - 3])
            self.handled, self.acked = [], []
            return self.got[:3]
        return aiom.Now(run)

    def key(self, k):
        t, = self.kc.flatten(k)
        add_index(t, self.kc.sp)
        return t

    def round_done(self):
        """effect of the message received last"""
        if self.got is None:
            return
        kind = self.got[3]
        if kind in ('register', 'query'):
            X.prove(self.handled == [kind], 'handled once')
            X.prove(not self.acked, 'acknowledges nothing')
        else:
            X.prove(not self.handled, 'handled once')
        if kind != 'ack':
            X.prove(not self.acked, 'acknowledges nothing')
            return
        k = self.key((self.conn, self.got[0].conv))
        f = self.futs.val(k)[0]
        if X.decide(z3.And(self.futs.dom(k), z3.Not(self.D(f)))):
            cover('acknowledged')
            X.prove(len(self.acked) == 1, 'notification is acknowledged')
            X.prove(self.acked[0] == f,
                    'notification of the client and conversation')
        else:
            cover('unknown acknowledgment')
            X.prove(not self.acked, 'nothing else is acknowledged')

    def send(self, conn, msg_type, data, **kw):
        def run():
            X.prove(conn is self.conn and
                    msg_type == 'HatEventer.MsgInitRes' and
                    kw.get('conv') is self.conv and
                    kw.get('last', True) is True and not self.sent,
                    'one init response')
            self.sent.append(data)
            self.phase = 'responded'
            self.accepted = data[0] == 'success'
            X.prove(iff(self.accepted, self.known()),
                    'known exactly when accepted')
            if self.accepted:
                X.prove(eq(len(self.connected), self.cbs[0]),
                        'callback decides')
                X.prove(data[1] is self.status_sbs,
                        'current status')
            else:
                X.prove(data[0] == 'error', 'rejected client learns so')
            k = X.choose(3, 'send')
            if k:
                raise [ConnectionError(), Cancelled()][k - 1]
        return aiom.Now(run)

    def create_subscription(self, types_):
        def f(a, b):
            X.prove(eq(a, b), 'subscribed type')
        if X.choose(2, 'goal'):
            same(libs.vc_list(types_), self.subs, f, 'given subscriptions')
        return self.subscription

    def wait_for(self, a, timeout):
        def run():
            X.prove(timeout is self.s._close_timeout, 'close timeout')
            k = X.choose(4, 'close')
            if k:
                raise [libs._asyncio.TimeoutError(), Cancelled(),
                       ConnectionError()][k - 1]
        return aiom.Now(run)

    def run(self):
        r, s = self.r, self.s
        rule = WhileRule(lambda n, v: None, lambda ls: None,
                         lambda ls: None, lambda a, b: self.round_done(),
                         lambda ls: None, plain=True)
        X.while_rule = rule
        with Patch(r, aio=Over(r.aio, call=aiom.call,
                               wait_for=self.wait_for),
                   _optional_from_sbs=self.optional,
                   common=Over(r.common, receive_msg=self.receive,
                               status_to_sbs=self.status, send_msg=self.send,
                               create_subscription=self.create_subscription)):
            try:
                libs.await_(s._connection_loop(self.conn))
            except Cancelled:
                cover('cancelled')


def connection(m):
    w = Conn(m)
    w.run()
    cover('end')
    X.prove(bool(w.closed), 'connection is closed')
    k = X.choose(4, 'goal')
    if k == 0:
        X.prove(not_(w.known()), 'no notifications after close')
        a = w.cc.build([X.fresh('other', I)])
        add_index(a.t, w.sp)
        X.assume(a.t != w.conn.t)
        X.prove(iff(w.s._conn_infos._contains_(a), mkbool(w.infos.dom(a.t))),
                'other connections are kept')
    elif k == 1:
        if w.connected and w.phase == 'started':
            return      # cancelled while connecting
        n = 1 if w.accepted and w.cbs[0] else 0
        X.prove(len(w.disconnected) == n,
                'disconnected of an accepted client once')
        if n:
            cover('disconnected')
            X.prove(w.disconnected[0] is w.connected[0],
                    'identity of the connection')
    elif k == 2:
        p = X.fresh('p', I)
        add_index(p, w.kc.sp)
        f = w.futs.val(p)[0]
        X.assume(z3.And(w.futs.dom(p), z3.Not(w.D(f)),
                        w.kc.F[0](p) == w.conn.t))
        for a in w.acked:
            if not X.decide(a != f):
                return
        X.prove(exists(w.answers, lambda x: mkbool(int_term(x) == f)),
                'waiting acknowledgment of the closed client ends')
    else:
        # one future per key
        each(w.answers, lambda x, j: X.prove(z3.And(
            w.futs.dom(w.FK(int_term(x))),
            w.kc.F[0](w.FK(int_term(x))) == w.conn.t),
            'only own waits end'))


for p in ('C24', 'C22'):
    unit(p, ['eventer.server:Server._connection_loop'], assumes=A, bounds=(),
         timeout=200)(connection)


@unit('C24', ['eventer.server:_optional_from_sbs',
              'eventer.client:_optional_to_sbs'], assumes=A, bounds=())
def optional(m):
    r, c = m.load(SRV), m.load(CLI)
    v = [None, Val()][X.choose(2, 'value')]
    d = c._optional_to_sbs(v)
    X.prove(d[0] == ('none' if v is None else 'value') and d[1] is v,
            'encoded')
    X.prove(r._optional_from_sbs(d) is v, 'decoded')


@unit('C24', ['eventer.client:connect'], assumes=A, bounds=())
def connect(m):
    r, c = m.load(CLI), m.load('hat.event.eventer.common')
    addr, cb1, cb2, conn, conv, st, stt = (object() for _ in range(7))
    name, sid, pers, x, token, tok, sids = (Val() for _ in range(7))
    subs = c06.types_list('subs')
    log = types.SimpleNamespace(conns=[], sent=[], spawned=[], closed=0,
                                client=None)

    def cconnect(a, **kw):
        def run():
            log.conns.append((a, kw))
            if X.choose(2, 'connect'):
                raise ConnectionError()
            return conn
        return aiom.Now(run)

    def send(conn, msg_type, msg_data, **kw):
        def run():
            log.sent.append((conn, msg_type, msg_data, kw))
            k = X.choose(3, 'send')
            if k:
                raise [ConnectionError(), Cancelled()][k - 1]
            return conv
        return aiom.Now(run)
    kind = []

    def receive(cn):
        def run():
            X.prove(cn is conn and len(log.sent) == 1, 'waits for a response')
            k = X.choose(6, 'receive')
            kind.append(k)
            if k < 2:
                raise [ConnectionError(), Cancelled()][k]
            rc = types.SimpleNamespace(conv=object() if k == 2 else conv)
            t = 'HatEventer.Msg' + ('Other' if k == 3 else 'InitRes')
            return rc, t, ('error', 'reason') if k == 4 else ('success', st)
        return aiom.Now(run)

    def optional(v):
        X.prove(v is token or v is sid, 'given value')
        return tok if v is token else sids

    class Group:
        def spawn(self, f, *a):
            log.spawned.append((f, a))

    def close(s):
        def run():
            log.closed += 1
        return aiom.Now(run)

    def status_from(d):
        X.prove(d is st, 'received status')
        return stt
    asyncio = types.SimpleNamespace(get_running_loop=lambda: None)
    out = None
    error = None
    with Patch(r, chatter=types.SimpleNamespace(connect=cconnect),
               aio=Over(r.aio, uncancellable=aiom.uncancellable),
               asyncio=asyncio, _optional_to_sbs=optional,
               common=Over(r.common, send_msg=send, receive_msg=receive,
                           status_from_sbs=status_from,
                           Status=Statuses(c.Status))), \
            Patch(r.Client, async_group=Group(), async_close=close):
        try:
            out = libs.await_(r.connect(
                addr, name, client_token=token, subscriptions=subs,
                server_id=sid, persisted=pers, status_cb=cb1, events_cb=cb2,
                x=x))
        except (Exception, Cancelled) as e:
            limit()
            error = e
    X.prove(len(log.conns) == 1 and log.conns[0][0] is addr and
            log.conns[0][1] == {'x': x}, 'one connection')
    if log.sent:
        X.prove(len(log.sent) == 1, 'one init request')
        cn, t, d, kw = log.sent[0]
        X.prove(cn is conn and t == 'HatEventer.MsgInitReq' and
                kw == {'last': False}, 'init request')
        X.prove(d['clientName'] is name and d['clientToken'] is tok and
                d['serverId'] is sids and d['persisted'] is pers,
                'given identification')
        if X.choose(2, 'goal'):
            def f(a, b):
                X.prove(eq(libs.vc_tuple(a), b), 'given type')
            same(d['subscriptions'], subs, f, 'given subscriptions')
            return
    if error is None:
        cover('accepted')
        X.prove(kind == [5], 'accepted by the server')
        X.prove(out._status is stt, 'received status')
        X.prove(out._status_cb is cb1 and out._events_cb is cb2,
                'given callbacks')
        X.prove(not log.closed, 'stays open')
        X.prove(len(log.spawned) == 1 and not log.spawned[0][1] and
                log.spawned[0][0].__func__ is r.Client._receive_loop and
                log.spawned[0][0].__self__ is out, 'receives messages')
        return
    X.prove(kind != [5], 'fails only when not accepted')
    X.prove(not log.spawned, 'no messages are received')
    X.prove(log.closed == (1 if log.sent else 0), 'connection is closed')
    if kind == [4]:
        cover('rejected')
        X.prove(isinstance(error, r.EventerInitError) and
                error.args == ('reason',), 'rejected client learns so')
    elif kind and kind[0] < 2:
        X.prove(isinstance(error, [ConnectionError, Cancelled][kind[0]]),
                'cause')


class Statuses:
    """the type Status: conversion of a status is itself"""

    def __init__(self, t):
        self.t = t

    def __call__(self, v):
        return v

    def __getattr__(self, n):
        return getattr(self.t, n)


import units.conns    # noqa
