"""C25: synchronisation with a remote server.

Ghost: E[0], E[1], ... are the persisted events of the remote server that
follow the last locally known one, in identifier order. A query after E[q-1]
returns E[q..q+n); the result without more follows ends at a session. The
batches notified meanwhile are consecutive windows of E of whole sessions, the
first of which starts at or before the end of the queried events.

_synchronize       every call of Backend.register continues exactly where the
                   previous one ended and starts at the first event of a
                   session; CONNECTED comes first, SYNCING exactly when the
                   first events were received, SYNCED with the number of
                   queried events after all queried and all waiting notified
                   events were registered; then notified events are passed
                   on directly; failures close the client;
_on_events         waits in the queue while synchronizing, afterwards the
                   events that follow the queried ones are registered;
_set_synced        sets, registers and announces the state."""

import types

import z3

from vf import libs, seqs, aiom
from vf.unit import unit, cover
from units.lib import *     # noqa
from vf.syms import sym_int, sym_bool, sym_str

EC = 'hat.event.server.eventer_client'
A = ['contract of query (C12, C14): events of the server that follow the '
     'given one, in identifier order; more_follows unset: ends at a session',
     'the remote server notifies every persisted event once, in order, in '
     'batches of whole sessions (C15, C21)',
     'eventer client calls its callbacks one after another (C23)']
Cancelled = libs._asyncio.CancelledError


class Id(Sym):
    """identifier of E[t] (-1: the last locally known)"""
    __slots__ = ('w', 't')

    def __init__(self, w, t):
        self.w, self.t = w, t

    def _subst_(self, pairs):
        return Id(self.w, tsub(self.t, pairs))

    @property
    def session(self):
        return mkint(self.w.SES(self.t))

    @property
    def server(self):
        return self.w.remote

    @property
    def instance(self):
        return mkint(self.w.INS(self.t))

    def _eq_(self, o):
        return mkbool(self.t == o.t) if isinstance(o, Id) else False

    def __eq__(self, o):
        return self._eq_(o)

    def __ne__(self, o):
        return not_(self._eq_(o))

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        return mkbool(self.t < o.t)

    def __gt__(self, o):
        return mkbool(self.t > o.t)

    def __le__(self, o):
        return mkbool(self.t <= o.t)

    def __ge__(self, o):
        return mkbool(self.t >= o.t)


class Window:
    """collections.deque holding E[lo..hi)"""

    def __init__(self, w, lo=None, hi=None):
        self.w = w
        self.birth = seqs._stamp()
        self.lo = z3.IntVal(0) if lo is None else lo
        self.hi = z3.IntVal(0) if hi is None else hi

    def __bool__(self):
        return X.decide(self.lo < self.hi)

    def _len_(self):
        return mkint(self.hi - self.lo)

    def __getitem__(self, i):
        if i not in (0, -1):
            raise Unsupported('item of window')
        if not self:
            raise IndexError()
        return self.w.ev.build([self.lo if i == 0 else self.hi - 1])

    def _put(self, lo, hi):
        seqs.guard(self)
        if not self:
            self.lo = lo
        elif not X.decide(self.hi == lo):
            raise Unsupported('deque that is no window')
        self.hi = hi

    def append(self, e):
        self._put(e.t, e.t + 1)

    def extend(self, o):
        if isinstance(o, Window):
            if o:
                self._put(o.lo, o.hi)
        elif isinstance(o, MList) and not o.parts:
            pass
        else:
            raise Unsupported('extension of window')

    def popleft(self):
        seqs.guard(self)
        if not self:
            raise IndexError()
        e = self[0]
        self.lo = self.lo + 1
        return e

    def havoc(self, n):
        self.lo, self.hi = X.fresh(n + '.lo', I), X.fresh(n + '.hi', I)


class Queue:
    """batches notified while synchronizing"""

    def __init__(self, w):
        self.w = w
        self.empty = None       # not known

    def __bool__(self):
        if self.empty is None:
            self.empty = X.choose(2, 'queue') == 1
        return not self.empty

    def popleft(self):
        w = self.w
        if not self:
            raise IndexError()
        a = w.qpos
        b = X.fresh('batch', I)
        X.assume(b >= a)
        w.boundary(a, X.assume)
        w.boundary(b, X.assume)
        w.qpos = b
        add_index(z3.simplify(b - 1))
        self.empty = None
        g = z3.Const(X.name('g'), I)
        return MList.of([Seg(g, a, b, [(T, w.ev.build([g]))])])


class World:
    def __init__(self, m):
        w = self
        w.r, w.c = m.load(EC), m.load('hat.event.common')
        w.SES = z3.Function('session', I, I)
        w.INS = z3.Function('instance', I, I)
        w.ev = ItemC('event', {'id': lambda t: Id(w, t)})
        w.s = w.r.EventerClient()
        w.remote, w.local = sym_int('remote', 0), sym_int('local', 0)
        w.s._remote_server_id = w.remote
        w.s._local_server_id = w.local
        w.reg = z3.IntVal(0)        # E[0..reg) are registered
        w.q = z3.IntVal(0)          # E[0..q) are received
        w.states = []
        w.syncing = z3.BoolVal(False)
        w.closed = 0
        w.deques = []

    def deque(self, x=None):
        if x is not None:
            raise Unsupported('deque of values')
        d = Window(self)
        self.deques.append(d)
        return d

    def boundary(self, k, f, *label):
        """a session starts at E[k]"""
        f(z3.Or(k <= 0, self.SES(k - 1) != self.SES(k)), *label)


class Sync(World):
    """one run of _synchronize"""

    def __init__(self, m):
        super().__init__(m)
        w = self
        w.a0 = X.fresh('notified', I)
        X.assume(w.a0 >= 0)
        w.qpos = w.a0
        w.queue = Queue(w)
        w.queue_ = w.queue
        w.ended = False
        w.loops = []
        w.s._backend = types.SimpleNamespace(
            get_last_event_id=w.get_last, register=w.register)
        w.s._client = types.SimpleNamespace(query=w.query)
        w.s._set_synced = w.set_synced
        w.s._last_event_id = None

    def suspend(self, what):
        """other tasks run: events are notified"""
        self.queue.empty = None
        if self.queue_ is None:
            X.prove(eq(self.s._last_event_id, Id(self, self.q - 1)),
                    'notified events that follow the queried are passed on')
        k = X.choose(4, what)
        if k:
            self.failed = k
            raise [ConnectionError(), Exception('failure'), Cancelled()][
                k - 1]

    def get_last(self, sid):
        def run():
            X.prove(eq(sid, self.remote), 'last event of the remote server')
            self.suspend('last')
            return Id(self, z3.IntVal(-1))
        return aiom.Now(run)

    def query(self, p):
        def run():
            X.prove(isinstance(p, self.c.QueryServerParams), 'server query')
            X.prove(eq(p.server_id, self.remote), 'events of the server')
            X.prove(p.persisted is True, 'persisted events')
            X.prove(isinstance(p.last_event_id, Id), 'last event')
            X.prove(p.last_event_id.t == self.q - 1,
                    'events that follow the received ones')
            X.prove(self.states and self.states[0] == 'CONNECTED',
                    'CONNECTED first')
            self.suspend('query')
            n = X.fresh('received', I)
            X.assume(n >= 0)
            lo = self.q
            self.q = z3.simplify(lo + n)
            more = sym_bool('more')
            X.assume(z3.Or(bool_term(more), z3.And(
                self.a0 <= self.q, self.start(self.q))))
            self.more = bool_term(more)
            return self.c.QueryResult(events=Window(self, lo, self.q),
                                      more_follows=more)
        return aiom.Now(run)

    def start(self, k):
        return z3.Or(k <= 0, self.SES(k - 1) != self.SES(k))

    def register(self, evs):
        def run():
            lo = self.reg
            if isinstance(evs, Window):
                X.prove(evs.lo < evs.hi, 'something to register')
                X.prove(evs.lo == lo, 'continues where the last one ended')
                X.prove(evs.hi <= self.q, 'received events')
                self.reg = evs.hi
            elif isinstance(evs, MList):
                # the notified batch that was taken last
                X.prove(self.reg >= self.q, 'after the queried events')
                a, b = self.batch
                g = z3.Const(X.name('g'), I)
                want = MList.of([Seg(g, a, b, [(g >= self.q,
                                                self.ev.build([g]))])])
                lo = z3.If(a < self.q, self.q, a)

                def f(x, y):
                    X.prove(x.t == y.t, 'event in its position')
                if X.choose(2, 'goal'):
                    same(evs, want, f,
                         'the events that follow the queried ones')
                X.prove(lo == self.reg,
                        'continues where the last one ended')
                X.prove(lo < b, 'something to register')
                self.reg = b
            else:
                raise Unsupported('registration of ' + repr(type(evs)))
            self.boundary(lo, X.prove, 'sessions are not divided')
            self.suspend('register')
            return evs
        return aiom.Now(run)

    def set_synced(self, state, count):
        def run():
            n = state.name
            if n == 'CONNECTED':
                X.prove(not self.states, 'CONNECTED first')
                X.prove(count is None, 'no count')
                X.prove(z3.And(self.q == 0), 'before the queries')
            elif n == 'SYNCING':
                X.prove(z3.And(self.q > 0, z3.Not(self.syncing)),
                        'SYNCING when the first events were received')
                X.prove(count is None, 'no count')
                X.prove(not self.ended, 'SYNCING before SYNCED')
                self.syncing = z3.BoolVal(True)
            else:
                X.prove(not self.ended, 'SYNCED once')
                self.ended = True
                X.prove(int_term(count) == self.q,
                        'number of queried events')
                X.prove(z3.And(self.reg >= self.q, z3.Not(self.more)),
                        'all events were registered')
                X.prove(self.syncing == (self.q > 0),
                        'SYNCING when something was received')
                X.prove(self.queue_ is None,
                        'notified events are passed on')
            self.states.append(n)
            self.suspend('synced')
        return aiom.Now(run)

    # loops

    def inv(self, f, ls):
        """query loop"""
        ev = self.events
        # all received events are registered or waiting
        f(z3.And(ev.lo <= ev.hi, ev.lo >= 0, self.q >= 0), 'window')
        f(z3.Implies(ev.lo == ev.hi, z3.And(self.q == 0, self.reg == 0)),
          'nothing received')
        f(z3.Implies(ev.lo < ev.hi, z3.And(ev.lo == self.reg,
                                           ev.hi == self.q)),
          'received events are waiting')
        f(self.start(self.reg), 'registered whole sessions')
        f(ls['last_event_id'].t == self.q - 1, 'last received event')
        f(int_term(ls['synced_counter']) == self.q,
          'number of queried events')
        f(self.syncing == (self.q > 0), 'SYNCING exactly when received')
        f(z3.Or(bool_term(ls['result'].more_follows), z3.And(
            self.a0 <= self.q, self.start(self.q),
            z3.Not(self.more))), 'last result')

    def havoc_query(self):
        self.events.havoc('events')
        self.reg, self.q = X.fresh('reg', I), X.fresh('q', I)
        self.syncing = X.fresh('syncing', B)
        self.more = X.fresh('more', B)
        self.queue.empty = None
        self.qpos = self.a0

    def rules(self):
        w = self

        def prove(t, label):
            X.prove(t, label)

        def assume(t, label):
            X.assume(t)

        def h1(n, v):
            return {
                'last_event_id': lambda: Id(w, X.fresh('last', I)),
                'synced_counter': lambda: sym_int('counter'),
                'result': lambda: w.c.QueryResult(
                    events=None, more_follows=sym_bool('more')),
                }.get(n)

        def init1(ls):
            w.events = w.deques[0]
            w.more = z3.BoolVal(True)
            w.inv(prove, ls)

        def before1(ls):
            w.events = w.deques[0]
            w.havoc_query()
            w.inv(assume, ls)

        def after1(ls, end):
            cover('query round')
            w.inv(prove, end)
        outer = WhileRule(h1, init1, before1, after1, lambda ls: None)

        # sessions
        def inv2(f):
            ev = w.events
            f(z3.And(ev.lo < ev.hi, ev.hi == w.q, ev.lo == w.reg,
                     ev.lo >= 0), 'received events are waiting')
            f(w.start(w.reg), 'registered whole sessions')

        def before2(ls):
            q = w.events.hi
            w.events.havoc('rest')
            w.events.hi = q
            w.reg = X.fresh('reg', I)
            inv2(assume)

        def after2(ls, end):
            cover('session')
            inv2(prove)
        sessions = WhileRule(lambda n, v: None, lambda ls: inv2(prove),
                             before2, after2, lambda ls: None, plain=True)

        # events of the first session
        def inv3(f):
            ev, se = w.events, w.deques[-1]
            f(z3.And(ev.lo <= ev.hi, ev.lo >= w.reg), 'window')
            f(z3.If(se.lo < se.hi,
                    z3.And(se.lo == w.reg, se.hi == ev.lo,
                           w.SES(ev.lo - 1) == w.SES(w.reg)),
                    ev.lo == w.reg), 'taken events of the session')

        def before3(ls):
            hi = w.events.hi
            w.events.havoc('rest')
            w.events.hi = hi
            w.deques[-1].havoc('session')
            inv3(assume)
        pops = WhileRule(lambda n, v: None, lambda ls: inv3(prove), before3,
                         lambda ls, end: inv3(prove), lambda ls: None,
                         plain=True)

        # notified batches
        def inv4(f):
            f(z3.And(w.qpos >= w.a0, w.a0 >= 0, w.q >= 0), 'notified')
            f(w.reg == z3.If(w.qpos > w.q, w.qpos, w.q),
              'queried and notified events are registered')
            f(w.start(w.qpos), 'whole sessions')

        def init4(ls):
            X.assume(w.start(w.a0))
            inv4(prove)

        def before4(ls):
            w.reg, w.qpos = X.fresh('reg', I), X.fresh('qpos', I)
            X.assume(w.start(w.a0))
            w.queue.empty = None
            inv4(assume)

        def after4(ls, end):
            cover('batch')
            inv4(prove)
        # batch of the previous round is not used again
        batches = WhileRule(
            lambda n, v: object if isinstance(v, Window) else None, init4,
            before4, after4, lambda ls: None, plain=True)
        table = {(0, 0): outer, (1, 0): sessions, (2, 0): pops,
                 (0, 1): batches}
        level = [0]
        count = {}
        carried = ('last_event_id', 'synced_counter', 'result')

        def rule(site, body, get, set_, names):
            k = level[0], count.get(level[0], 0)
            if k not in table:
                return NotImplemented
            if k == (0, 0):
                if not set(carried) <= set(names):
                    return NotImplemented
            count[k[0]] = k[1] + 1

            def inner(v):
                level[0] += 1
                try:
                    return body(v)
                finally:
                    level[0] -= 1
            return table[k](site, inner, get, set_, names)
        return rule


@unit('C25', ['server.eventer_client:EventerClient._synchronize'], assumes=A,
      bounds=())
def synchronize(m):
    w = Sync(m)
    r, s = w.r, w.s
    w.more = z3.BoolVal(True)
    w.failed = 0

    def close(self):
        w.closed += 1

    def get_queue(self):
        return w.queue_

    def set_queue(self, v):
        X.prove(v is None, 'notified events are passed on')
        X.prove(w.queue.empty is True, 'no waiting notification is dropped')
        X.prove(w.reg >= w.q, 'queried events are registered')
        w.queue_ = v
    pop = Queue.popleft

    def popleft(q):
        a = w.qpos
        v = pop(q)
        w.batch = a, w.qpos
        return v
    w.queue.popleft = lambda: popleft(w.queue)
    X.while_rule = w.rules()
    with Patch(r, collections=Over(r.collections, deque=w.deque)), \
            Patch(type(s), close=close,
                  _events_queue=property(get_queue, set_queue)):
        try:
            libs.await_(s._synchronize())
        except Cancelled:
            cover('cancelled')
            X.prove(w.failed == 3, 'cancelled')
            return
    if w.failed:
        cover('failed')
        X.prove(w.closed == 1, 'failure closes the client')
        return
    cover('synchronized')
    X.prove(not w.closed, 'stays connected')
    X.prove(w.ended and w.states[-1] == 'SYNCED', 'SYNCED is the last state')
    X.prove(w.queue_ is None, 'notified events are passed on')


@unit('C25', ['server.eventer_client:EventerClient._on_events'], assumes=A,
      bounds=())
def on_events(m):
    w = World(m)
    s = w.s
    evs = items('event', w.ev.f, 'events')
    log = []
    s._backend = types.SimpleNamespace(
        register=lambda e: aiom.Now(lambda: log.append(e)))
    q = X.fresh('q', I)
    s._last_event_id = Id(w, q)
    added = []
    waiting = X.choose(2, 'waiting')
    s._events_queue = types.SimpleNamespace(
        append=added.append) if waiting else None
    libs.await_(s._on_events(object(), evs))
    if waiting:
        X.prove(not log, 'registered later')
        X.prove(len(added) == 1 and added[0] is evs, 'batch is kept')
        return
    p, = evs.parts
    want = Seg(p.g, p.lo, p.hi, [(p.g > q, w.ev.build([p.g]))])
    want.sp = p.sp
    want = MList.of([want])
    if not log:
        cover('nothing')
        j = X.fresh('j', I)
        X.assume(z3.And(j >= 0, j < evs.n))
        add_index(j)
        add_index(j, evs.sp)
        X.prove(z3.Not(j > q), 'every new event is registered')
        return
    cover('registered')
    X.prove(len(log) == 1, 'registered together')

    def f(a, b):
        X.prove(a.t == b.t, 'event in its position')
    same(log[0], want, f, 'exactly the new events, in order')


def state_event(w, e, state, count, has_count):
    t = e.type
    X.prove(len(t) == 4, 'event type')
    X.prove(and_(eq(t[0], 'event'), eq(t[1], libs.vc_str(w.local)),
                 eq(t[2], 'synced'), eq(t[3], libs.vc_str(w.remote))),
            'event type')
    X.prove(e.source_timestamp is None, 'no source timestamp')
    X.prove(isinstance(e.payload, w.c.EventPayloadJson), 'payload')
    d = e.payload.data
    X.prove(d['state'] == state, 'state')
    if has_count:
        X.prove(d['count'] is count, 'count')
    X.prove(len(list(d)) == 1 + has_count, 'content')


@unit('C25', ['server.eventer_client:EventerClient._set_synced'], assumes=A,
      bounds=())
def set_synced(m):
    w = World(m)
    r, s = w.r, w.s
    st = list(r.SyncedState)[X.choose(3, 'state')]
    count = object() if st.name == 'SYNCED' else None
    log, calls = [], []

    def register(evs, *a):
        def run():
            X.prove(s._synced is st, 'state is set')
            X.prove(not calls, 'registered before it is announced')
            log.append(evs)
            if X.choose(2, 'closed'):
                raise ConnectionError()
        return aiom.Now(run)
    s._client = types.SimpleNamespace(register=register)
    cb = X.choose(2, 'callback')
    s._synced_cb = (lambda *a: calls.append(a)) if cb else None
    with Patch(r, aio=Over(r.aio, call=aiom.call)):
        try:
            libs.await_(s._set_synced(st, count))
            X.prove(len(calls) == cb, 'announced once')
        except ConnectionError:
            cover('closed')
            X.prove(not calls, 'fails')
    X.prove(s._synced is st, 'state is set')
    X.prove(len(log) == 1 and eq(libs.vc_len(log[0]), 1),
            'registered at the remote server')
    state_event(w, log[0][0], st.name, count, st.name == 'SYNCED')
    if calls:
        X.prove(calls[0][0] is st and calls[0][1] is count,
                'given state and count')


@unit('C25', ['server.eventer_client:EventerClient._on_status'], assumes=A,
      bounds=())
def on_status(m):
    w = World(m)
    r, s = w.r, w.s
    st = list(w.c.Status)[X.choose(len(list(w.c.Status)), 'status')]
    s._synced = [None, *r.SyncedState][X.choose(4, 'synced')]
    log, calls = [], []

    def register(evs, *a):
        def run():
            log.append(evs)
            if X.choose(2, 'closed'):
                raise ConnectionError()
        return aiom.Now(run)
    s._client = types.SimpleNamespace(register=register)
    cb = X.choose(2, 'callback')
    s._status_cb = calls.append if cb else None
    with Patch(r, aio=Over(r.aio, call=aiom.call)):
        libs.await_(s._on_status(object(), st))
    X.prove(len(calls) == cb and all(i is st for i in calls),
            'status is passed on')
    want = st is w.c.Status.OPERATIONAL and s._synced is not None
    X.prove(len(log) == int(want), 'state is registered')
    if want:
        X.prove(eq(libs.vc_len(log[0]), 1), 'one event')
        state_event(w, log[0][0], s._synced.name, None,
                    s._synced.name == 'SYNCED')


@unit('C25', ['server.eventer_client:create_eventer_client'], assumes=A,
      bounds=())
def create(m):
    w = World(m)
    r = w.r
    addr, name, token, backend, cb1, cb2, x, inner = (
        object() for _ in range(8))
    log, spawned = [], []

    def connect(**kw):
        def run():
            s = kw['status_cb'].__self__
            # callbacks can be called at once
            X.prove(s._events_queue is not None and
                    not libs.vc_len(s._events_queue),
                    'notified events are kept')
            X.prove(s._synced is None and s._status_cb is cb1, 'state')
            log.append(kw)
            return inner
        return aiom.Now(run)

    class Group:
        def spawn(self, f, *a):
            spawned.append((f, a))
    with Patch(r, eventer=Over(r.eventer, connect=connect)), \
            Patch(r.EventerClient, async_group=Group()):
        s = libs.await_(r.create_eventer_client(
            addr, name, w.local, w.remote, backend, client_token=token,
            status_cb=cb1, synced_cb=cb2, x=x))
    X.prove(len(log) == 1, 'one connection')
    kw = log[0]
    X.prove(kw['addr'] is addr and kw['client_name'] is name and
            kw['client_token'] is token and kw['x'] is x, 'arguments')
    X.prove([tuple(i) for i in kw['subscriptions']] == [('*',)],
            'all types')
    X.prove(eq(kw['server_id'], w.remote), 'events of the server')
    X.prove(kw['persisted'] is True, 'persisted events')
    for n in ('status', 'events'):
        X.prove(kw[f'{n}_cb'].__func__ is
                getattr(type(s), f'_on_{n}') and kw[f'{n}_cb'].__self__ is s,
                f'{n} callback')
    X.prove(len(spawned) == 1 and not spawned[0][1] and
            spawned[0][0].__func__ is type(s)._synchronize and
            spawned[0][0].__self__ is s, 'synchronizes')
    X.prove(s._client is inner and s._backend is backend and
            s._synced_cb is cb2 and s._status_cb is cb1, 'state')
    X.prove(and_(eq(s._local_server_id, w.local),
                 eq(s._remote_server_id, w.remote)), 'servers')


for p in ('C25', 'C26'):
    @unit(p, ['server.engine_runner:EngineRunner.set_synced'], bounds=())
    def set_synced(m):
        r, c = m.load('hat.event.server.engine_runner'), m.load('hat.event.common')
        o = object.__new__(r.EngineRunner)
        es = m.load('hat.event.server.eventer_client').SyncedState
        w = types.SimpleNamespace(local=sym_int('local', 0),
                                  remote=sym_int('remote', 0), c=c)
        o._conf = MDict([('server_id', w.local)])
        log = []
        opened = sym_bool('open')
        k = X.choose(2, 'engine')

        def register(source, events):
            return aiom.Now(lambda: log.append((source, events)))
        o._engine = types.SimpleNamespace(
            is_open=opened, register=register) if k else None
        st = list(es)[X.choose(3, 'state')]
        count = object() if st.name == 'SYNCED' else None
        libs.await_(o.set_synced(w.remote, st, count))
        if not k or not X.decide(bool_term(opened)):
            X.prove(not log, 'no engine')
            return
        X.prove(len(log) == 1 and eq(libs.vc_len(log[0][1]), 1),
                'registered once')
        X.prove(log[0][0].type is c.SourceType.SERVER, 'source')
        state_event(w, log[0][1][0], st.name, count, st.name == 'SYNCED')
