"""C29: administration calls.

Client._send        one request; waits for the future that is in the table
                    under the request's conversation with the expected type
                    of response; removes it; a closed client gives
                    ConnectionError;
get/set_log_conf    encode the arguments, decode the result;
_receive_loop       a response answers exactly the call of its conversation,
                    with its result or AdminerError; responses without
                    waiting call are ignored; however the loop ends, the
                    client is closed and all waiting calls fail;
server              every request is answered once in its conversation, with
                    what the callback returned or with the text of the error
                    it raised; a failure does not end the connection;
AdminerServer       get returns the stored configuration; set applies exactly
                    the given one and stores it only when it was applied.

adminer_connect, adminer_listen   (units/conns.py) one connection, its loop is started with it;
                    the server answers with the calls of AdminerServer."""

import types

import z3

from vf import libs, seqs, aiom
from vf.unit import unit, cover
from units.lib import *     # noqa
from vf.syms import sym_int, sym_bool, StrC, JsonC, sym_str
from units.c23 import Send
from vf.core import SymVal

CLI = 'hat.event.adminer.client'
SRV = 'hat.event.adminer.server'
ADM = 'hat.event.server.adminer_server'
A = ['chatter: conversation identifiers are unique; send returns before the '
     'response can be received; receive raises ConnectionError when closed',
     'json.decode(json.encode(x)) = x']


class World:
    def __init__(self, m):
        w = self
        w.r = m.load(CLI)
        w.cl = w.r.Client()
        w.sp = seqs.new_space()
        w.conv = seqs.in_space(ItemC('conv', {}), w.sp)
        w.D = z3.Function('future.done', I, B)
        w.answers = []
        w.fut = ItemC('future', {
            'done': lambda f: lambda: mkbool(w.done(f)),
            'set_result': lambda f: lambda v: w.answer(f, 'result', v),
            'set_exception': lambda f: lambda e: w.answer(f, 'error', e)})
        w.base = SymMap.fresh(w.conv, TupC(tuple, StrC, w.fut), 'calls')
        w.table = MDict(base=w.base)
        w.cl._conv_msg_type_futures = w.table
        w.cl._conn = w.conn = object()

    def done(self, f):
        return z3.Or(self.D(f), *[a[0] == f for a in self.answers])

    def answer(self, f, kind, v):
        X.prove(z3.Not(self.done(f)), 'answered once')
        self.answers.append((f, kind, v))

    def fut_of(self, k):
        return self.base.val(k)[1]

    def type_of(self, k):
        return self.base.val(k)[0]


@unit('C29', ['adminer.client:Client._send'], assumes=A, bounds=())
def send(m):
    w = World(m)
    r, cl = w.r, w.cl
    conv = w.conv.build([X.fresh('conv', I)])
    X.assume(z3.Not(w.base.dom(conv.t)))
    msg = Send(conv)
    open_ = sym_bool('open')
    seen = []
    rq, rs = object(), object()
    res, data = Val(), Val()

    class Future:
        def _await_(self):
            X.prove(open_, 'only an open client waits')
            X.prove(len(msg.sent) == 1, 'sent before waiting')
            e = w.table.get(conv)
            X.prove(isinstance(e, tuple) and len(e) == 2 and e[0] is rs and
                    e[1] is self, 'response can find the call')
            seen.append(self)
            k = X.choose(4, 'outcome')
            if k == 0:
                return res
            raise [ConnectionError(), libs._asyncio.CancelledError(),
                   r.AdminerError('x')][k - 1]
    fut = Future()
    cl._loop = types.SimpleNamespace(create_future=lambda: fut)
    with Patch(type(cl), is_open=property(lambda s: open_)), \
            Patch(r, common=Over(r.common, send_msg=msg)):
        try:
            out = libs.await_(cl._send(req_msg_type=rq, req_msg_data=data,
                                       res_msg_type=rs))
            X.prove(bool(seen) and out is res, 'result of the response')
        except ConnectionError:
            cover('closed')
            X.prove(or_(not_(open_), bool(seen)), 'error when closed')
        except libs._asyncio.CancelledError:
            cover('cancelled')
            X.prove(bool(seen), 'cancelled while waiting')
        except r.AdminerError:
            cover('error')
            X.prove(bool(seen), 'error of the response')
    X.prove(len(msg.sent) == 1, 'one request')
    cn, t, d, kw = msg.sent[0]
    X.prove(cn is w.conn and t is rq and d is data, 'given request')
    X.prove('conv' not in kw and kw.get('last', True) is False,
            'response requested')
    X.prove(not_(w.table._contains_(conv)), 'nothing is left')
    k = w.conv.build([X.fresh('k', I)])
    X.assume(k.t != conv.t)
    X.prove(iff(w.table._contains_(k), mkbool(w.base.dom(k.t))),
            'other calls are kept')
    if X.decide(w.base.dom(k.t)):
        a, b = w.table.get(k)
        X.prove(z3.And(a.t == w.type_of(k.t), b.t == w.fut_of(k.t)),
                'other calls are kept')


@unit('C29', ['adminer.client:Client.get_log_conf',
              'adminer.client:Client.set_log_conf'], assumes=A, bounds=())
def calls(m):
    w = World(m)
    r, cl = w.r, w.cl
    conf, enc = Val(), Val()
    sent = []

    def send(req_msg_type, req_msg_data, res_msg_type):
        def run():
            sent.append((req_msg_type, req_msg_data, res_msg_type))
            if X.choose(2, 'error'):
                raise r.AdminerError('x')
            return enc
        return aiom.Now(run)
    cl._send = send

    def encode(x):
        X.prove(x is conf, 'given configuration')
        return enc

    def decode(x):
        X.prove(x is enc, 'data of the response')
        return conf
    k = X.choose(2, 'call')
    with Patch(r, json=Over(r.json, encode=encode, decode=decode)):
        try:
            out = libs.await_(cl.set_log_conf(conf) if k else
                              cl.get_log_conf())
        except r.AdminerError:
            cover('error')
            return
    X.prove(len(sent) == 1, 'one request')
    a, d, b = sent[0]
    name = 'Set' if k else 'Get'
    X.prove(a == f'HatEventAdminer.Msg{name}LogConfReq' and
            b == f'HatEventAdminer.Msg{name}LogConfRes', 'types of messages')
    if k:
        X.prove(d is enc and out is None, 'set request')
    else:
        X.prove(d is None and out is conf, 'received configuration')


@unit('C29', ['adminer.client:Client._receive_loop'], assumes=A, bounds=())
def receive_loop(m):
    w = World(m)
    r, cl = w.r, w.cl
    st = types.SimpleNamespace(closed=False, got=None)
    failed = MList()

    def answer(f, kind, v):
        X.prove(z3.Not(w.done(f)), 'answered once')
        if st.closed:
            X.prove(kind == 'error' and isinstance(v, ConnectionError),
                    'waiting call ends with a connection error')
            failed.append(mkint(f))
            return
        w.answers.append((f, kind, v))
    w.answer = answer

    def close():
        st.closed = True
    cl.close = close

    def check():
        if st.got is None:
            return
        conv, mtype, kind, value = st.got
        k = conv.t
        f = w.fut_of(k)
        if X.decide(z3.And(w.base.dom(k), z3.Not(w.D(f)))):
            if X.decide(w.type_of(k) == mtype.t):
                cover('answered')
                X.prove(len(w.answers) == 1, 'call is answered')
                a, what, v = w.answers[0]
                X.prove(a == f, 'call of the request')
                if kind == 'error':
                    X.prove(what == 'error' and
                            isinstance(v, r.AdminerError) and
                            v.args == (value,), 'error of the server')
                else:
                    X.prove(what == 'result' and v is value, 'result')
                return
            X.prove(st.closed, 'response of other kind')
        else:
            cover('ignored')
        X.prove(not w.answers, 'no other call is answered')

    def receive(conn):
        def run():
            X.prove(conn is w.conn, 'own connection')
            check()
            k = X.choose(4, 'message')
            if k:
                st.got = None
                raise [ConnectionError(), libs._asyncio.CancelledError(),
                       Exception('decoding')][k - 1]
            conv = w.conv.build([X.fresh('conv', I)])
            add_index(conv.t, w.sp)
            mtype = sym_str('type')
            kind = ['success', 'error'][X.choose(2, 'kind')]
            st.got = (conv, mtype, kind, object())
            return (types.SimpleNamespace(conv=conv, last=True), mtype,
                    (kind, st.got[3]))
        return aiom.Now(run)

    def before(ls):
        st.got = None
        w.answers = []

    def after(start, end):
        cover('round')
        check()
    X.while_rule = WhileRule(lambda n, v: None, lambda ls: None, before,
                             after, lambda ls: None, plain=True)
    with Patch(r, common=Over(r.common, receive_msg=receive)):
        try:
            libs.await_(cl._receive_loop())
        except libs._asyncio.CancelledError:
            cover('cancelled')
    cover('end')
    X.prove(st.closed, 'client is closed')
    if X.choose(2, 'goal'):
        check()
        return
    k = X.fresh('k', I)
    add_index(k, w.sp)
    f = w.fut_of(k)
    got = exists(failed, lambda x: mkbool(int_term(x) == f))
    X.assume(z3.And(w.base.dom(k), z3.Not(w.done(f))))
    X.prove(got, 'every waiting call fails')


def server_request(m, what):
    r = m.load(SRV)
    s = r.Server()
    conn, conv = object(), object()
    msg = Send(conv)
    conf, enc, req = Val(), Val(), Val()
    k = X.choose(3, 'callback')
    log = []

    def cb(*a):
        log.append(a)
        if k == 1:
            return aiom.Now(lambda: conf) if X.choose(2, 'async') else conf
        raise Exception('failure of the provider')
    fails = k != 1

    def encode(x):
        X.prove(x is conf, 'configuration of the provider')
        return enc

    def decode(x):
        X.prove(x is req, 'configuration of the request')
        if X.choose(2, 'invalid'):
            raise ValueError('invalid')
        return conf
    s._get_log_conf_cb = s._set_log_conf_cb = cb if k else None
    with Patch(r, aio=Over(r.aio, call=aiom.call),
               json=Over(r.json, encode=encode, decode=decode),
               common=Over(r.common, send_msg=msg)):
        libs.await_(getattr(s, f'_process_msg_{what}_log_conf')(
            conn=conn, conv=conv, req_msg_data=req))
    X.prove(len(msg.sent) == 1, 'one response')
    cn, t, d, kw = msg.sent[0]
    X.prove(cn is conn and kw.get('conv') is conv and
            kw.get('last', True) is True, 'response to the request')
    X.prove(t == f'HatEventAdminer.Msg{what.title()}LogConfRes',
            'type of the response')
    if what == 'set' and k and not log:
        cover('invalid')
        X.prove(d == ('error', 'invalid'), 'error is reported')
        return
    X.prove(len(log) == (1 if k else 0), 'provider is called once')
    if not fails:
        cover('success')
        X.prove(log[0] == ((conf,) if what == 'set' else ()),
                'exactly the given configuration')
        X.prove(d[0] == 'success' and
                d[1] is (None if what == 'set' else enc), 'success')
    else:
        cover('error')
        X.prove(d == ('error', 'failure of the provider' if k else
                      'not implemented'), 'error is reported')


@unit('C29', ['adminer.server:Server._process_msg_get_log_conf'], assumes=A,
      bounds=())
def server_get(m):
    server_request(m, 'get')


@unit('C29', ['adminer.server:Server._process_msg_set_log_conf'], assumes=A,
      bounds=())
def server_set(m):
    server_request(m, 'set')


@unit('C29', ['adminer.server:Server._connection_loop'], assumes=A,
      bounds=())
def server_loop(m):
    r = m.load(SRV)
    s = r.Server()
    st = types.SimpleNamespace(closed=0, got=None, handled=0)

    def close():
        st.closed += 1
    conn = types.SimpleNamespace(close=close)
    kinds = {f'HatEventAdminer.Msg{k.title()}LogConfReq':
             f'_process_msg_{k}_log_conf' for k in ('get', 'set')}

    def check():
        X.prove(st.got is None or st.handled == 1,
                'every request is processed once')

    def receive(c):
        def run():
            X.prove(c is conn, 'own connection')
            check()
            k = X.choose(len(kinds) + 4, 'message')
            if k < 3:
                st.got = None
                raise [ConnectionError(), libs._asyncio.CancelledError(),
                       Exception('decoding')][k]
            t = ([*kinds] + ['HatEventAdminer.MsgOther'])[k - 3]
            st.got = (types.SimpleNamespace(conv=object()), t, object())
            st.handled = 0
            return st.got
        return aiom.Now(run)

    def handler(name):
        def f(conn, conv, req_msg_data):
            def run():
                X.prove(st.got is not None and kinds.get(st.got[1]) == name,
                        'handler of the message type')
                X.prove(conv is st.got[0].conv and
                        req_msg_data is st.got[2], 'received request')
                st.handled += 1
                if X.choose(2, 'disconnected'):
                    raise ConnectionError()
            return aiom.Now(run)
        return f
    for n in kinds.values():
        setattr(s, n, handler(n))

    def before(ls):
        st.got = None

    def after(start, end):
        cover('round')
        check()
    X.while_rule = WhileRule(lambda n, v: None, lambda ls: None, before,
                             after, lambda ls: None, plain=True)
    with Patch(r, common=Over(r.common, receive_msg=receive)):
        try:
            libs.await_(s._connection_loop(conn))
        except libs._asyncio.CancelledError:
            cover('cancelled')
    cover('end')
    X.prove(st.closed > 0, 'connection is closed')
    X.prove(st.got is None or st.handled == 1 or st.got[1] not in kinds,
            'every request is processed once')


@unit('C29', ['server.adminer_server:AdminerServer._on_get_log_conf',
              'server.adminer_server:AdminerServer._on_set_log_conf'],
      assumes=['logging.config.dictConfig applies the configuration or '
               'raises'], bounds=())
def provider(m):
    r = m.load(ADM)
    s = r.AdminerServer()
    old, new = Val(), Val()
    s._log_conf = old
    applied = []

    def dict_config(c):
        X.prove(c is new, 'exactly the given configuration is applied')
        if X.choose(2, 'invalid'):
            raise ValueError('invalid')
        applied.append(c)
    if X.choose(2, 'get'):
        X.prove(s._on_get_log_conf() is old, 'stored configuration')
        X.prove(s._log_conf is old, 'configuration is kept')
        return
    log = types.SimpleNamespace(config=types.SimpleNamespace(
        dictConfig=dict_config))
    with Patch(r, logging=log):
        try:
            out = s._on_set_log_conf(new)
            if hasattr(out, '_await_') or isinstance(out, libs.Coro):
                libs.await_(out)
            X.prove(len(applied) == 1, 'applied once')
            X.prove(s._log_conf is new, 'configuration is stored')
        except ValueError:
            cover('invalid')
            X.prove(not applied, 'error is reported')
            X.prove(s._log_conf is old, 'invalid one is not stored')


import units.conns    # noqa
