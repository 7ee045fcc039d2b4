"""C23: requests and responses of the eventer client.

_wait_conv_res     waits for a future that is in the table under the given
                   conversation; removes it; a closed client gives
                   ConnectionError without waiting;
register, query    one message with the encoded arguments; the result is that
                   of waiting for the conversation of that message;
_process_msg_*_res answers exactly the future of the response's conversation
                   with the decoded data (failure: None);
_receive_loop      passes every message to its handler; however it ends, the
                   client is closed and every waiting call fails with
                   ConnectionError;
server             _process_msg_register/_query answer in the conversation of
                   the request with the result of their callback.

messages     (units/conns.py) send and receive encode and decode a message as
             its type says."""

import types

import z3

from vf import libs, seqs, aiom
from vf.unit import unit, cover
from units.lib import *     # noqa
from vf.syms import sym_int, sym_bool

CLI = 'hat.event.eventer.client'
SRV = 'hat.event.eventer.server'
A = ['chatter: conversation identifiers are unique; send returns before the '
     'response can be received; receive raises ConnectionError when closed',
     'C06: contract of event encoding']


class World:
    """client with a table of waiting calls of any size"""

    def __init__(self, m, mod=CLI, cls='Client'):
        w = self
        w.r, w.c = m.load(mod), m.load('hat.event.eventer.common')
        w.cl = getattr(w.r, cls)()
        w.sp = seqs.new_space()
        w.conv = seqs.in_space(ItemC('conv', {}), w.sp)
        w.D = z3.Function('future.done', I, B)      # before
        w.answers = []          # (future, kind, value)
        w.fut = ItemC('future', {
            'done': lambda f: lambda: mkbool(w.done(f)),
            'set_result': lambda f: lambda v: w.answer(f, 'result', v),
            'set_exception': lambda f: lambda e: w.answer(f, 'error', e)})
        w.base = SymMap.fresh(w.conv, w.fut, 'futures')
        w.table = MDict(base=w.base)
        # one future per conversation
        w.FC = z3.Function('future.conv', I, I)
        g = z3.Const(X.name('g'), I)
        universal(g, T, z3.Implies(w.base.dom(g),
                                   w.FC(w.base.val(g)[0]) == g), w.sp)
        w.cl._conn = w.conn = object()
        w.cl._status_cb = w.cl._events_cb = None

    def done(self, f):
        return z3.Or(self.D(f), *[a[0] == f for a in self.answers])

    def answer(self, f, kind, v):
        X.prove(z3.Not(self.done(f)), 'answered once')
        self.answers.append((f, kind, v))


class Send:
    def __init__(self, conv, fail=False):
        self.conv = conv
        self.sent = []

    def __call__(self, conn, msg_type, msg_data, **kw):
        def run():
            self.sent.append((conn, msg_type, msg_data, kw))
            return self.conv
        return aiom.Now(run)


@unit('C23', ['eventer.client:Client._wait_conv_res'], assumes=A, bounds=())
def wait(m):
    w = World(m)
    r, cl = w.r, w.cl
    conv = w.conv.build([X.fresh('conv', I)])
    X.assume(z3.Not(w.base.dom(conv.t)))
    cl._conv_futures = w.table
    open_ = sym_bool('open')
    seen = []
    res = Val()

    class Future:
        def _await_(self):
            X.prove(open_, 'only an open client waits')
            X.prove(w.table.get(conv) is self, 'response can find the call')
            seen.append(self)
            k = X.choose(3, 'outcome')
            if k == 0:
                return res
            raise [ConnectionError(), libs._asyncio.CancelledError()][k - 1]
    fut = Future()
    cl._loop = types.SimpleNamespace(create_future=lambda: fut)
    out = None
    with Patch(type(cl), is_open=property(lambda s: open_)):
        try:
            out = libs.await_(cl._wait_conv_res(conv))
            X.prove(seen and out is res, 'result of the response')
        except ConnectionError:
            cover('closed')
            X.prove(or_(not_(open_), bool(seen)), 'error when closed')
        except libs._asyncio.CancelledError:
            cover('cancelled')
            X.prove(bool(seen), 'cancelled while waiting')
    X.prove(not_(w.table._contains_(conv)), 'nothing is left')
    k = w.conv.build([X.fresh('k', I)])
    X.assume(k.t != conv.t)
    X.prove(iff(w.table._contains_(k), mkbool(w.base.dom(k.t))),
            'other calls are kept')
    if X.decide(w.base.dom(k.t)):
        X.prove(w.table.get(k).t == w.base.val(k.t)[0],
                'other calls are kept')


@unit('C23', ['eventer.client:Client.register'], assumes=A, bounds=())
def register(m):
    w = World(m)
    r, cl = w.r, w.cl
    send = Send(w.conv.build([X.fresh('conv', I)]))
    resp = [False, True][X.choose(2, 'response')]
    S = z3.Function('regevent.sbs', I, I)
    sb = ItemC('sbs:RegisterEvent', {})
    evs = items('regevent', {}, 'events')
    waits = []
    res = Val()

    def wait_res(conv):
        X.prove(len(send.sent) == 1, 'sent before waiting')
        waits.append(conv)
        return aiom.Now(lambda: res)
    cl._wait_conv_res = wait_res
    with Patch(r, common=Over(
            r.common, send_msg=send,
            register_event_to_sbs=lambda e: sb.build([S(e.t)]))):
        out = libs.await_(cl.register(evs, resp))
    X.prove(len(send.sent) == 1, 'one message')
    cn, t, data, kw = send.sent[0]
    X.prove(cn is w.conn and t == 'HatEventer.MsgRegisterReq',
            'register request')
    X.prove('conv' not in kw, 'new conversation')
    X.prove(kw.get('last', True) is not resp, 'response requested')
    if resp:
        X.prove(len(waits) == 1 and waits[0] is send.conv,
                'waits for the response of the request')
        X.prove(out is res, 'data of the response')
    else:
        X.prove(not waits, 'does not wait')
        X.prove(out is None, 'no result')

    def f(a, b):
        X.prove(a.t == S(b.t), 'register event in its position')
    same(data, evs, f, 'exactly the given register events')


@unit('C23', ['eventer.client:Client.query'], assumes=A, bounds=())
def query(m):
    w = World(m)
    r, cl = w.r, w.cl
    send = Send(w.conv.build([X.fresh('conv', I)]))
    params, data, res = object(), Val(), Val()
    waits = []

    def to(p):
        X.prove(p is params, 'given parameters')
        return data

    def wait_res(conv):
        X.prove(len(send.sent) == 1, 'sent before waiting')
        waits.append(conv)
        return aiom.Now(lambda: res)
    cl._wait_conv_res = wait_res
    with Patch(r, common=Over(r.common, send_msg=send,
                              query_params_to_sbs=to)):
        out = libs.await_(cl.query(params))
    X.prove(len(send.sent) == 1, 'one message')
    cn, t, d, kw = send.sent[0]
    X.prove(cn is w.conn and t == 'HatEventer.MsgQueryReq' and d is data,
            'query request')
    X.prove('conv' not in kw and kw.get('last', True) is False,
            'response requested')
    X.prove(len(waits) == 1 and waits[0] is send.conv,
            'waits for the response of the request')
    X.prove(out is res, 'data of the response')


def response(m, w, name, data, common, check):
    """handler of a response answers the call of its conversation"""
    r, cl = w.r, w.cl
    conv = w.conv.build([X.fresh('conv', I)])
    add_index(conv.t, w.sp)
    cl._conv_futures = w.table
    msg = types.SimpleNamespace(conv=conv, last=True, first=object())
    with Patch(r, common=Over(r.common, **common)):
        libs.await_(getattr(cl, name)(msg, data))
    f = w.base.val(conv.t)[0]
    if X.decide(z3.And(w.base.dom(conv.t), z3.Not(w.D(f)))):
        cover('answered')
        X.prove(len(w.answers) == 1, 'call is answered')
        a, kind, v = w.answers[0]
        X.prove(a == f, 'call of the request')
        X.prove(kind == 'result', 'result')
        check(v)
    else:
        cover('ignored')
        X.prove(not w.answers, 'no other call is answered')


@unit('C23', ['eventer.client:Client._process_msg_register_res'], assumes=A,
      bounds=())
def register_response(m):
    w = World(m)
    R = z3.Function('sbs.event', I, I)
    ev = ItemC('event', {})
    data = items('sbs:Event', {}, 'data')
    fail = X.choose(2, 'failure')

    def check(v):
        if fail:
            X.prove(v is None, 'failure: no events')
            return

        def f(a, b):
            X.prove(a.t == R(b.t), 'event in its position')
        same(v, data, f, 'exactly the received events')
    response(m, w, '_process_msg_register_res',
             ('failure', None) if fail else ('events', data),
             {'event_from_sbs': lambda d: ev.build([R(d.t)])}, check)


@unit('C23', ['eventer.client:Client._process_msg_query_res'], assumes=A,
      bounds=())
def query_response(m):
    w = World(m)
    data, res = Val(), Val()

    def frm(d):
        X.prove(d is data, 'data of the response')
        return res

    def check(v):
        X.prove(v is res, 'result of the response')
    response(m, w, '_process_msg_query_res', data,
             {'query_result_from_sbs': frm}, check)


TYPES = {'HatEventer.MsgStatusNotify': '_process_msg_status_notify',
         'HatEventer.MsgEventsNotify': '_process_msg_events_notify',
         'HatEventer.MsgRegisterRes': '_process_msg_register_res',
         'HatEventer.MsgQueryRes': '_process_msg_query_res'}


@unit('C23', ['eventer.client:Client._receive_loop'], assumes=A, bounds=())
def receive_loop(m):
    loop(m, CLI, 'Client', TYPES, '_conv_futures')


def loop(m, mod, cls, kinds, table, key=lambda c: c):
    """receive loop of a client: dispatch and cleanup"""
    w = World(m, mod, cls)
    r, cl = w.r, w.cl
    st = types.SimpleNamespace(closed=False, got=None, handled=0,
                               phase='loop')
    setattr(cl, table, w.table)
    failed = MList()

    def answer(f, kind, v):
        X.prove(st.closed, 'calls fail after the client is closed')
        X.prove(kind == 'error' and isinstance(v, ConnectionError),
                'waiting call ends with a connection error')
        X.prove(z3.Not(w.D(f)), 'answered once')
        failed.append(mkint(f))
    w.answer = answer

    def close():
        st.closed = True
    cl.close = close

    def receive(conn):
        def run():
            X.prove(conn is w.conn, 'own connection')
            X.prove(st.got is None or st.handled == 1,
                    'every message is handled once')
            k = X.choose(len(kinds) + 4, 'message')
            if k == len(kinds):
                raise ConnectionError()
            if k == len(kinds) + 1:
                raise libs._asyncio.CancelledError()
            if k == len(kinds) + 2:
                raise Exception('decoding')
            t = ([*kinds] + ['HatEventer.MsgOther'] * 3)[k]
            st.got = (types.SimpleNamespace(conv=None), t, object())
            st.handled = 0
            return st.got
        return aiom.Now(run)

    def handler(name):
        def f(msg, data):
            def run():
                X.prove(st.got is not None and kinds.get(st.got[1]) == name,
                        'handler of the message type')
                X.prove(msg is st.got[0] and data is st.got[2],
                        'received message')
                st.handled += 1
                k = X.choose(3, 'outcome')
                if k:
                    raise [Exception('failure'),
                           libs._asyncio.CancelledError()][k - 1]
            return aiom.Now(run)
        return f
    for n in set(kinds.values()):
        setattr(cl, n, handler(n))

    def before(ls):
        st.got = None

    def after(start, end):
        cover('round')
        X.prove(st.got is None or st.handled == 1,
                'every message is handled once')
    X.while_rule = WhileRule(lambda n, v: None, lambda ls: None, before,
                             after, lambda ls: None, plain=True)
    with Patch(r, common=Over(r.common, receive_msg=receive)):
        try:
            libs.await_(cl._receive_loop())
        except libs._asyncio.CancelledError:
            cover('cancelled')
    cover('end')
    X.prove(st.closed, 'client is closed')
    k = X.fresh('k', I)
    add_index(k, w.sp)
    f = w.base.val(k)[0]
    got = exists(failed, lambda x: mkbool(int_term(x) == f))
    X.assume(z3.And(w.base.dom(k), z3.Not(w.D(f))))
    X.prove(got, 'every waiting call fails')


def server_world(m):
    w = World(m, SRV, 'Server')
    w.info = object()
    return w


@unit('C23', ['eventer.server:Server._process_msg_register'], assumes=A,
      bounds=())
def server_register(m):
    w = server_world(m)
    r, s = w.r, w.cl
    conn, conv = object(), object()
    last = sym_bool('last')
    req = types.SimpleNamespace(last=last, conv=conv)
    send = Send(conv)
    R = z3.Function('sbs.regevent', I, I)
    S = z3.Function('event.sbs', I, I)
    reg, sb = ItemC('regevent', {}), ItemC('sbs:Event', {})
    data = items('sbs:RegisterEvent', {}, 'data')
    evs = items('event', {}, 'events')
    calls = []
    cb = X.choose(2, 'callback')
    rejected = X.choose(2, 'rejected') if cb else 1

    def register(info, events):
        calls.append(events)
        X.prove(info is w.info, 'identity of the connection')
        X.prove(not send.sent, 'answered with the result')
        return None if rejected else evs
    s._register_cb = register if cb else None
    with Patch(r, aio=Over(r.aio, call=aiom.call), common=Over(
            r.common, send_msg=send,
            register_event_from_sbs=lambda d: reg.build([R(d.t)]),
            event_to_sbs=lambda e: sb.build([S(e.t)]))):
        libs.await_(s._process_msg_register(conn, w.info, req, data))
    k = X.choose(3, 'goal')
    if k == 0:
        X.prove(len(calls) == cb, 'callback is called once')
        if not cb:
            return

        def f(a, b):
            X.prove(a.t == R(b.t), 'register event in its position')
        same(calls[0], data, f, 'exactly the received register events')
    elif last:
        X.prove(not send.sent, 'no response is requested')
    else:
        X.prove(len(send.sent) == 1, 'one response')
        cn, t, d, kw = send.sent[0]
        X.prove(cn is conn and t == 'HatEventer.MsgRegisterRes',
                'register response')
        X.prove(kw.get('conv') is conv and kw.get('last', True) is True,
                'response to the request')
        if rejected:
            X.prove(d == ('failure', None), 'failure')
            return
        X.prove(d[0] == 'events', 'events')

        def f(a, b):
            X.prove(a.t == S(b.t), 'event in its position')
        same(d[1], evs, f, 'exactly the registered events')


@unit('C23', ['eventer.server:Server._process_msg_query'], assumes=A,
      bounds=())
def server_query(m):
    w = server_world(m)
    r, s = w.r, w.cl
    conn, conv = object(), object()
    req = types.SimpleNamespace(last=False, conv=conv)
    send = Send(conv)
    data, params, out = Val(), object(), Val()
    res = w.c.QueryResult(events=[], more_follows=sym_bool('more'))
    calls = []
    cb = X.choose(2, 'callback')

    def query(info, p):
        calls.append(p)
        X.prove(info is w.info, 'identity of the connection')
        X.prove(p is params, 'parameters of the request')
        return res

    def to(v):
        if cb:
            X.prove(v is res, 'result of the query')
        else:
            X.prove(eq(libs.vc_len(v.events), 0), 'no result')
            X.prove(not_(v.more_follows), 'no result')
        return out

    def frm(d):
        X.prove(d is data, 'data of the request')
        return params
    s._query_cb = query if cb else None
    with Patch(r, aio=Over(r.aio, call=aiom.call), common=Over(
            r.common, send_msg=send, query_params_from_sbs=frm,
            query_result_to_sbs=to)):
        libs.await_(s._process_msg_query(conn, w.info, req, data))
    X.prove(len(calls) == cb, 'callback is called once')
    X.prove(len(send.sent) == 1, 'one response')
    cn, t, d, kw = send.sent[0]
    X.prove(cn is conn and t == 'HatEventer.MsgQueryRes' and d is out,
            'query response')
    X.prove(kw.get('conv') is conv and kw.get('last', True) is True,
            'response to the request')


import units.conns    # noqa
