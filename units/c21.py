"""C21: notifications of clients.

notify_events    `_notify_events` runs for exactly the connections whose
                 persisted flag equals the given one and that have a matching
                 event, with exactly the matching events in order, once;
_notify_events   one message with all given events in order; with ack it
                 waits for the acknowledgment of that message and forgets it;
set_status       every connection is notified of the new status iff it
                 differs from the previous one;
client           passes exactly the received events / status to its
                 callback."""

import types

import z3

from vf import libs, seqs, aiom
from vf.unit import unit, cover
from units.lib import *     # noqa
from vf.syms import sym_int, sym_bool

SRV = 'hat.event.eventer.server'
CLI = 'hat.event.eventer.client'
A = ['C01: contract of subscription matching',
     'C06: contract of event encoding',
     'a chatter connection delivers sent messages in order']


class TypeOf:
    def __init__(self, t):
        self.t = t

    def _subst_(self, pairs):
        return TypeOf(tsub(self.t, pairs))


class World:
    def __init__(self, m):
        w = self
        w.r, w.c = m.load(SRV), m.load('hat.event.eventer.common')
        SM = w.SM = z3.Function('client.matches', I, I, B)
        SID = w.SID = z3.Function('event.server', I, I)
        w.want = fn(OptC(IntC()), 'client.server_id')
        w.pers = fn(BoolC(), 'client.persisted')
        w.ev = ItemC('event', {
            'type': lambda t: TypeOf(t),
            'id': lambda t: types.SimpleNamespace(server=mkint(SID(t)))})
        w.info = ItemC('info', {
            'persisted': w.pers, 'server_id': w.want,
            'subscription': lambda i: types.SimpleNamespace(
                matches=lambda ty: mkbool(SM(i, ty.t)))})
        w.sp = seqs.new_space()
        w.conn = seqs.in_space(ItemC('conn', {}), w.sp)
        base = SymMap.fresh(w.conn, w.info, 'conns')
        w.base = base
        s = w.s = w.r.Server()
        s._conn_infos = MDict(base=base)
        s._conn_conv_futures = MDict()
        s._status = None

    def info_of(self, k):
        return self.base.val(k)[0]

    def events(self):
        return items('event', self.ev.f, 'events')

    def match(self, k, e):
        """event e is for the client of connection k"""
        i = self.info_of(k)
        sid = self.want(i)
        return z3.And(self.SM(i, e), z3.Or(
            bool_term(eq(sid, None)),
            int_term(sid.value()) == self.SID(e)))


@unit('C21', ['eventer.server:Server.notify_events'], assumes=A, timeout=120,
      bounds=())
def notify_events(m):
    X.export = True
    w = World(m)
    evs = w.events()
    persisted = sym_bool('persisted')
    ack = [False, True][X.choose(2, 'ack')]
    sent = MList()

    def notify(conn, events, with_ack):
        X.prove(with_ack is ack, 'acknowledgment as requested')
        p, = evs.parts

        def f(a, b):
            X.prove(a.t == b.t, 'matching event in its position')
        want = Seg(p.g, p.lo, p.hi, [(w.match(conn.t, p.g),
                                      Item(p.g, 'event', w.ev.f))])
        want.sp = p.sp
        if X.choose(2, 'goal'):
            same(events, MList.of([want]), f, 'exactly the matching events')
        sent.append(conn)
        return aiom.Now()
    w.s._notify_events = notify
    tasks = []

    class Group:
        def spawn(self, f, *a):
            return f(*a)

    def wait(ts, **kw):
        tasks.append(ts)
        return aiom.Now()
    asyncio = types.SimpleNamespace(wait=wait)
    cls = type(w.s)
    with Patch(w.r, asyncio=asyncio), Patch(cls, async_group=Group()):
        libs.await_(w.s.notify_events(evs, persisted, ack))
    # who is notified
    k = X.fresh('conn', I)
    add_index(k, w.sp)
    i = w.info_of(k)
    if X.choose(2, 'goal'):
        def want(x):
            return mkbool(x.t == k)
        got = exists(sent, want)
        if got:
            cover('notified')
            X.prove(w.base.dom(k), 'only connected clients')
            X.prove(bool_term(eq(w.pers(i), persisted)),
                    'persisted flag of the notification')
            X.prove(exists(evs, lambda e: mkbool(w.match(k, e.t))),
                    'only clients with a matching event')
        else:
            cover('not notified')
            j = X.fresh('event', I)
            X.assume(z3.And(j >= 0, j < evs.n))
            add_index(j)
            add_index(j, evs.sp)
            X.prove(z3.Not(z3.And(
                w.base.dom(k), bool_term(eq(w.pers(i), persisted)),
                w.match(k, j))), 'every client with a matching event')
        return

    def dist(a, b):
        X.prove(a.t != b.t, 'one message')
    distinct_pair(sent, dist)


class Msg:
    """sent messages"""

    def __init__(self, w, fail=True):
        self.sent = []
        self.conv = X.fresh('conv', I)
        self.fail = fail

    def send(self, conn, msg_type, msg_data, **kw):
        def run():
            self.sent.append((conn, msg_type, msg_data, kw))
            if self.fail and X.choose(2, 'disconnected'):
                raise ConnectionError()
            return mkint(self.conv)
        return aiom.Now(run)


def sbs_event(w):
    S = z3.Function('event.sbs', I, I)
    sb = ItemC('sbs:Event', {})
    return S, lambda e: sb.build([S(e.t)])


@unit('C21', ['eventer.server:Server._notify_events'], assumes=A, bounds=())
def server_message(m):
    w = World(m)
    conn = w.conn.build([X.fresh('conn', I)])
    evs = w.events()
    ack = [False, True][X.choose(2, 'ack')]
    msg = Msg(w)
    S, to = sbs_event(w)
    kc = TupC(tuple, w.conn, IntC())
    base = SymMap.fresh(kc, ItemC('future', {}), 'futures')
    d = w.s._conn_conv_futures = MDict(base=base)
    # conversation identifiers are new
    X.assume(z3.Not(base.dom(conn.t, msg.conv)))
    key = (conn, mkint(msg.conv))
    waited = []

    class Future:
        def _await_(self):
            waited.append(1)
            X.prove(len(msg.sent) == 1, 'acknowledgment of a sent message')
            X.prove(d.get(key) is self, 'acknowledgment can be received')
            if X.choose(2, 'closed'):
                raise ConnectionError()
    fut = Future()
    w.s._loop = types.SimpleNamespace(create_future=lambda: fut)
    with Patch(w.r, common=Over(w.r.common, send_msg=msg.send,
                                event_to_sbs=to)):
        libs.await_(w.s._notify_events(conn, evs, ack))
    k = X.choose(3, 'goal')
    if k == 0:
        X.prove(len(msg.sent) == 1, 'one message')
        c, t, data, kw = msg.sent[0]
        X.prove(c is conn, 'to the client')
        X.prove(t == 'HatEventer.MsgEventsNotify', 'notification')
        X.prove(kw.get('last', True) is not ack, 'acknowledgment requested')
        X.prove('conv' not in kw, 'new conversation')

        def f(a, b):
            X.prove(a.t == S(b.t), 'event in its position')
        same(data, evs, f, 'all events in one message')
    elif k == 1:
        X.prove(not_(d._contains_(key)), 'nothing is left')
        if waited:
            cover('waited')
    else:
        a, b = X.fresh('c2', I), X.fresh('v2', I)
        X.assume(z3.Not(z3.And(a == conn.t, b == msg.conv)))
        X.prove(iff(d._contains_((w.conn.build([a]), mkint(b))),
                    mkbool(base.dom(a, b))), 'others are kept')


@unit('C21', ['eventer.server:Server.set_status'], assumes=A, bounds=())
def set_status(m):
    w = World(m)
    sts = list(w.c.Status)
    old = sts[X.choose(len(sts), 'old')]
    new = sts[X.choose(len(sts), 'new')]
    w.s._status = old
    sent = MList()

    def notify(conn):
        X.prove(w.s._status is new, 'new status is sent')
        sent.append(conn)
        return aiom.Now()
    w.s._notify_status = notify
    libs.await_(w.s.set_status(new))
    X.prove(w.s._status is new, 'status is set')
    if old is new:
        cover('same')
        X.prove(not_(exists(sent, lambda x: True)), 'unchanged: no message')
        return
    cover('changed')
    if X.choose(2, 'goal'):
        k = X.fresh('conn', I)
        add_index(k, w.sp)
        X.prove(iff(exists(sent, lambda x: mkbool(x.t == k)),
                    mkbool(w.base.dom(k))),
                'every connected client')
        return

    def dist(a, b):
        X.prove(a.t != b.t, 'one message')
    distinct_pair(sent, dist)


@unit('C21', ['eventer.server:Server._notify_status'], assumes=A, bounds=())
def status_message(m):
    w = World(m)
    conn = w.conn.build([X.fresh('conn', I)])
    sts = list(w.c.Status)
    w.s._status = st = sts[X.choose(len(sts), 'status')]
    msg = Msg(w)
    with Patch(w.r, common=Over(w.r.common, send_msg=msg.send)):
        libs.await_(w.s._notify_status(conn))
    X.prove(len(msg.sent) == 1, 'one message')
    c, t, data, kw = msg.sent[0]
    X.prove(c is conn and t == 'HatEventer.MsgStatusNotify' and not kw,
            'notification of the client')
    X.prove(w.c.status_from_sbs(data) is st, 'current status')


@unit('C21', ['eventer.client:Client._process_msg_events_notify'], assumes=A,
      bounds=())
def client_events(m):
    w = World(m)
    r = m.load(CLI)
    c = r.Client()
    c._conn = conn = object()
    log = []
    with_cb = X.choose(2, 'callback')
    c._events_cb = (lambda cl, ev: log.append((cl, ev))) if with_cb else None
    last = sym_bool('last')
    req = types.SimpleNamespace(last=last, conv=object())
    R = z3.Function('sbs.event', I, I)
    data = items('sbs:Event', {}, 'data')
    msg = Msg(w, False)

    def send(*a, **kw):
        X.prove(len(log) == with_cb, 'acknowledged after the callback')
        return msg.send(*a, **kw)
    with Patch(r, aio=Over(r.aio, call=aiom.call), common=Over(
            r.common, send_msg=send,
            event_from_sbs=lambda d: w.ev.build([R(d.t)]))):
        libs.await_(c._process_msg_events_notify(req, data))
    if X.choose(2, 'goal'):
        if last:
            X.prove(not msg.sent, 'no acknowledgment')
        else:
            X.prove(len(msg.sent) == 1, 'one acknowledgment')
            cn, t, d, kw = msg.sent[0]
            X.prove(cn is conn and t == 'HatEventer.MsgEventsAck' and
                    d is None, 'acknowledgment')
            X.prove(kw.get('conv') is req.conv, 'of the notification')
        return
    X.prove(len(log) == with_cb, 'callback is called once')
    if with_cb:
        X.prove(log[0][0] is c, 'client of the callback')

        def f(a, b):
            X.prove(a.t == R(b.t), 'event in its position')
        same(log[0][1], data, f, 'exactly the received events')


@unit('C21', ['eventer.client:Client._process_msg_status_notify'], assumes=A,
      bounds=())
def client_status(m):
    w = World(m)
    r = m.load(CLI)
    c = r.Client()
    sts = list(w.c.Status)
    st = sts[X.choose(len(sts), 'status')]
    log = []
    with_cb = X.choose(2, 'callback')

    def cb(cl, s):
        X.prove(c._status is s, 'status is set before the callback')
        log.append((cl, s))
    c._status_cb = cb if with_cb else None
    c._status = sts[X.choose(len(sts), 'old')]
    with Patch(r, aio=Over(r.aio, call=aiom.call)):
        libs.await_(c._process_msg_status_notify(
            object(), w.c.status_to_sbs(st)))
    X.prove(c._status is st, 'received status')
    X.prove(len(log) == with_cb, 'callback is called once')
    if with_cb:
        X.prove(log[0][0] is c and log[0][1] is st, 'received status')
