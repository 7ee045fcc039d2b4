"""C20: every registration is answered.

register           empty: empty list; otherwise queues (future, source,
                   events) once and returns the result of the future; a
                   closed queue gives an error;
_register_loop     generic round: the request taken from the queue is
                   answered (result: created events of exactly its register
                   events, or None) before the next one is taken; however the
                   loop ends, cleanup closes the engine and the queue, fails
                   the request being processed and all queued requests, and
                   registers STOPPED as the last event;
create_engine      STARTED is the first request (shared with C18).

Contracts used: _process_sessions returns created events, those of the
register events first and in order (C19); Backend.register returns None or
the registered events."""

import types

import z3

from vf import libs, seqs, aiom
from vf.unit import unit, cover
from units.lib import *     # noqa
from vf.syms import sym_int, sym_bool
from units import c18, c19

ENG = c19.ENG
A = ['contract of aio.Queue: FIFO; get raises QueueClosedError when closed; '
     'get_nowait and put_nowait do not suspend',
     'contract of Engine._process_sessions (C19): events of the register '
     'events come first, in order',
     'contract of Backend.register: None or the given events',
     'aio.Group.spawn starts the register loop, close cancels it']


class Fut:
    """asyncio.Future; caller can cancel it at any suspension"""

    def __init__(self, w, done=False):
        self.w = w
        self.answered = done
        self.cancelled_ = False

    def other(self):
        """suspension: the caller may cancel"""
        if not self.answered and not self.cancelled_:
            self.cancelled_ = bool(X.choose(2, 'cancelled'))

    def done(self):
        return self.answered or self.cancelled_

    def _answer(self):
        X.prove(not self.done(), 'answered once')
        self.answered = True

    def set_result(self, r):
        self._answer()
        self.w.result(self, r)

    def set_exception(self, e):
        self._answer()
        X.prove(isinstance(e, Exception), 'failure is an exception')
        self.w.failed(self)


class Loop:
    """world of _register_loop"""

    def __init__(self, m):
        w = self
        r, c = m.load(ENG), m.load('hat.event.common')
        w.r, w.c = r, c
        w.taken = []
        w.current = None
        w.closed = w.qclosed = False
        w.phase = 'loop'
        w.sid = sym_int('server', 0)
        w.log = []
        w.reg = ItemC('regevent', {})
        w.ev = ItemC('event', {})
        w.n = X.fresh('queued', I)
        w.pos = X.fresh('taken', I)
        X.assume(z3.And(w.pos >= 0, w.pos <= w.n))

        def suspend():
            for f in w.taken:
                f.other()
            if X.choose(2, 'stop'):
                raise [aiom_cancelled(), Exception('failure')][
                    X.choose(2, 'cause')]

        def take():
            f = Fut(w)
            f.other()
            w.taken.append(f)
            n = X.fresh('regs', I)
            X.assume(n >= 0)
            g = z3.Const(X.name('g'), I)
            fn_ = z3.Function(X.name('reg'), I, I)
            regs = MList.of([Seg(g, z3.IntVal(0), n,
                                 [(T, w.reg.build([fn_(g)]))])])
            f.n = n
            f.regs = regs
            f.source = object()
            return f, f.source, regs

        def empty():
            return mkbool(w.pos == w.n)

        def get_nowait():
            X.prove(w.pos < w.n, 'get_nowait of a nonempty queue')
            w.pos = w.pos + 1
            X.on_undo(lambda: None)
            return take()

        def get():
            X.prove(all(f.done() for f in w.taken),
                    'answered before the next is taken')
            w.suspend_get()
            return take()

        def suspend_get():
            k = X.choose(3, 'get')
            if k == 1:
                raise r.aio.QueueClosedError()
            if k == 2:
                raise aiom_cancelled()
        w.suspend_get = suspend_get

        def qclose():
            w.qclosed = True
        w.queue = types.SimpleNamespace(
            empty=empty, get_nowait=get_nowait,
            get=lambda: aiom.Now(get), close=qclose)

        def process(source, regs):
            f = w.taken[-1]
            X.prove(source is f.source, 'source of the request')
            X.prove(regs is f.regs, 'register events of the request')

            def run():
                suspend()
                k = X.fresh('events', I)
                X.assume(k >= f.n)
                g = z3.Const(X.name('g'), I)
                ef = z3.Function(X.name('event'), I, I)
                f.events = MList.of([Seg(g, z3.IntVal(0), k,
                                         [(T, w.ev.build([ef(g)]))])])
                f.ef = ef
                return f.events
            return aiom.Now(run)

        def register(events):
            if w.phase == 'cleanup':
                w.log.append(('register', events))
                return aiom.Now()
            f = w.taken[-1]
            X.prove(events is f.events, 'all created events are registered')

            def run():
                suspend()
                f.rejected = bool(X.choose(2, 'rejected'))
                return None if f.rejected else f.events
            return aiom.Now(run)
        w.backend = types.SimpleNamespace(register=register)
        e = r.Engine()
        w.e = e
        e._register_queue = w.queue
        e._backend = w.backend
        e._server_id = w.sid
        e._process_sessions = process

        def close():
            w.closed = True
        e.close = close
        w.tsv = object()

        def create_session():
            w.log.append(('session',))
            return w.tsv

        def create_event(ts, reg):
            X.prove(ts is w.tsv, 'timestamp of the last session')
            w.log.append(('event', reg))
            return 'stopped'
        e._create_session = create_session
        e._create_event = create_event

    def failed(self, f):
        X.prove(self.phase == 'cleanup', 'failure only when closing')

    def result(self, f, r):
        cover('result')
        X.prove(f is self.taken[-1], 'result of the request')
        if f.rejected:
            X.prove(r is None, 'rejected: no events')
            return
        X.prove(isinstance(r, (MList, SymTup, list, tuple)),
                'events are returned')
        k = X.choose(2, 'goal')
        if k:
            X.prove(eq(libs.vc_len(r), mkint(f.n)),
                    'one event per register event')
            return
        j = X.fresh('j', I)
        X.assume(z3.And(j >= 0, j < f.n))
        X.assume(int_term(libs.vc_len(r)) == f.n)
        add_index(j)
        X.prove(r[mkint(j)].t == f.ef(j), 'event of its register event')


Cancelled = libs._asyncio.CancelledError


def aiom_cancelled():
    import asyncio
    return asyncio.CancelledError()


def cleanup(w, st):
    """loop failing what is queued"""
    def is_fut(v):
        return v is None or isinstance(v, Fut)

    def undone(ls):
        fs = [v for v in ls.values() if isinstance(v, Fut)]
        for f in w.taken:
            if not f.done():
                X.prove(any(f is i for i in fs),
                        'request being processed is not lost')

    def c_havoc(name, v):
        if not is_fut(v):
            return None

        def make():
            k = X.choose(3, 'future')
            if k == 0:
                return None
            f = Fut(w, k == 1)
            f.n = None
            st['fut'] = f
            return f
        return make

    def c_init(ls):
        cover('cleanup')
        w.phase = 'cleanup'
        undone(ls)

    def c_before(ls):
        w.phase = 'cleanup'
        w.taken = [v for v in ls.values() if isinstance(v, Fut)]
        w.pos = X.fresh('pos', I)
        X.assume(z3.And(w.pos >= 0, w.pos <= w.n))
        st['pos'] = w.pos

    def c_after(start, end):
        cover('cleanup round')
        undone({n: end[n] for n in start})
        X.prove(w.pos > st['pos'], 'cleanup takes a queued request')

    def c_final(ls):
        st['final'] = True
        X.prove(w.pos == w.n, 'nothing is left in the queue')
        X.prove(all(f.done() for f in w.taken), 'all requests are answered')
    return WhileRule(c_havoc, c_init, c_before, c_after, c_final)


@unit('C20', ['server.engine:Engine._register_loop'], assumes=A, timeout=120,
      bounds=())
def register_loop(m):
    w = Loop(m)

    def is_fut(v):
        return v is None or isinstance(v, Fut)

    def havoc_main(name, v):
        if not is_fut(v):
            return None

        def make():
            if X.choose(2, 'future') == 0:
                return None
            return Fut(w, True)
        return make

    def head(ls, label):
        X.prove(all(f.done() for f in w.taken),
                label + ': taken requests are answered')
        for v in ls.values():
            X.prove(v is None or v.done(), label + ': future is answered')

    def init(ls):
        head(ls, 'start')

    def before(ls):
        pass

    def after(start, end):
        cover('round')
        head({n: end[n] for n in start}, 'round')

    def final(ls):
        pass
    main = WhileRule(havoc_main, init, before, after, final)

    st = {}
    clean = cleanup(w, st)
    X.while_rule = Rules(main, clean)
    orig_close = w.queue.close

    def qclose():
        w.phase = 'cleanup'
        orig_close()
    w.queue.close = qclose
    try:
        libs.await_(w.e._register_loop())
    except BaseException as e:
        import asyncio
        if not isinstance(e, asyncio.CancelledError):
            raise
        cover('cancelled')
    cover('end')
    X.prove(w.closed, 'engine is closed')
    X.prove(w.qclosed, 'later requests fail')
    X.prove(st.get('final'), 'queued requests are failed')
    X.prove([i[0] for i in w.log] == ['session', 'event', 'register'],
            'one last event is registered')
    c18.status_event(w.c, w.log[1][1], w.sid, 'STOPPED')
    X.prove(libs.native(w.log[2][1]) == ['stopped'], 'STOPPED is registered')


unit('C20', ['server.engine:create_engine',
             'server.engine:Engine._create_status_reg_event'],
     bounds=())(c18.start)


@unit('C20', ['server.engine:create_engine',
              'server.engine:Engine._create_module',
              'server.engine:Engine._close_register_queue'], assumes=A,
      bounds=())
def create(m):
    """creation that fails, is cancelled or not, at any module"""
    w = Loop(m)
    r, c = w.r, w.c
    w.phase = 'cleanup'
    w.pos = z3.IntVal(0)
    st, st2 = {}, types.SimpleNamespace(loop=0, failed=None, modules=[])
    orig_close = w.queue.close

    def qclose():
        orig_close()
        # requests of created modules
        w.n = X.fresh('queued', I)
        X.assume(w.n >= 1)
    w.queue.close = qclose
    w.queue.put_nowait = lambda v: None
    w.backend.get_last_event_id = lambda sid: aiom.Now(lambda: None)
    on_cancel, on_done = object(), object()

    def fail(*causes):
        e = causes[X.choose(len(causes), 'cause')]
        if st2.failed is None:
            st2.failed = e
        raise e

    class Module:
        closed = False
        watched = False

        def __init__(self):
            st2.modules.append(self)

        def async_close(self):
            def run():
                self.closed = True
            return aiom.Now(run)

        def wait_closing(self):
            return ('closing', self)

    class Closed(Exception):
        pass

    class Group:
        is_open = True

        def __init__(self):
            self.closing = []
            self.pending = None
            w.group = self

        def close(self):
            self.is_open = False

        def spawn(self, f, *a):
            if not self.is_open:
                raise Closed()
            if f is on_cancel:
                self.closing.append(a[0])
                return aiom.Now()
            if f is on_done:
                if a[0][0] == 'closing':
                    X.prove(a[1] == w.engine.close, 'module closes engine')
                    a[0][1].watched = True
                return aiom.Now()
            if getattr(f, '__name__', '') == '_register_loop':
                X.prove(not w.qclosed, 'requests are accepted')
                st2.loop += 1
                return aiom.Now()

            def task():
                return libs.await_(f(*a))

            def run():
                k = X.choose(3, 'module')
                if k == 2:
                    # creation is still running
                    self.pending = task
                    fail(Cancelled())
                v = task()
                if k == 1:
                    fail(Cancelled())
                return v
            return aiom.Now(run)

        def async_close(self):
            def run():
                self.is_open = False
                X.prove(st2.loop == 0 and w.qclosed and st.get('final'),
                        'requests of modules do not wait for an engine that '
                        'is not created')
                if self.pending and X.choose(2, 'completes'):
                    try:
                        self.pending()
                    except Exception:
                        pass
                for f in self.closing:
                    libs.await_(f())
            return aiom.Now(run)

    def create(conf, engine, source):
        w.engine = engine

        def run():
            if X.choose(2, 'failure'):
                fail(Exception('failure'))
            return Module()
        return aiom.Now(run)

    def info(name):
        if X.choose(2, 'import'):
            fail(Exception('failure'))
        return types.SimpleNamespace(create=create)
    confs = items('conf', {'[]': lambda k, n: Item(k, 'name', {})}, 'confs')

    class Deque:
        def append(self, v):
            X.prove(v[1] is st2.modules[-1], 'created module')
    n0 = []

    def before(start, v, j):
        n0[:] = [len(st2.modules)]

    def after(start, end, v, j):
        cover('module')
        X.prove(len(st2.modules) == 1, 'module is created')
        mod = st2.modules[0]
        X.prove(any(f == mod.async_close for f in w.group.closing),
                'module closes with the engine')
        X.prove(mod.watched, 'engine closes with the module')
    X.for_rule = ForRule(lambda src: True, lambda: None, before, after,
                         lambda start: None, ghosts=[w, st2])
    X.while_rule = cleanup(w, st)
    aio = Over(r.aio, Group=Group, Queue=lambda size: w.queue,
               call=aiom.call, call_on_cancel=on_cancel,
               call_on_done=on_done, uncancellable=aiom.uncancellable)
    loop = types.SimpleNamespace(create_future=lambda: Fut(w, True))
    try:
        with Patch(r, aio=aio, collections=Over(
                r.collections, deque=Deque),
                asyncio=types.SimpleNamespace(
                    get_running_loop=lambda: loop,
                    CancelledError=Cancelled),
                common=Over(r.common, import_module_info=info)), \
                Patch(r.Engine, async_close=lambda self:
                      self.async_group.async_close()):
            e = libs.await_(r.create_engine(
                w.backend, None, confs, w.sid, lambda: None, lambda: None))
    except (Exception, Cancelled) as e:
        limit()
        cover('failed')
        X.prove(e is st2.failed, 'fails only with its modules')
        X.prove(w.qclosed and st.get('final') is True,
                'queued requests fail, later requests fail')
        X.prove(not w.group.is_open, 'engine is closed')
        X.prove(all(i.closed for i in st2.modules), 'modules are closed')
        return
    cover('created')
    X.prove(e.async_group is w.group, 'engine')
    X.prove(st2.loop == 1 and not w.qclosed, 'register loop is started')


@unit('C20', ['server.engine:Engine.register'], assumes=A, bounds=())
def register(m):
    r, c = m.load(ENG), m.load('hat.event.common')
    e = r.Engine()
    puts = []
    res = Val()

    class F:
        def _await_(self):
            X.prove(len(puts) == 1, 'queued before waiting')
            return res
    fut = F()
    closed = sym_bool('closed')

    def put(v):
        X.prove(not puts, 'queued once')

        def run():
            if closed:
                raise r.aio.QueueClosedError()
            puts.append(v)
        return aiom.Now(run)
    e._register_queue = types.SimpleNamespace(put=put)
    e._loop = types.SimpleNamespace(create_future=lambda: fut)
    src = object()
    events = items('regevent', {}, 'regs')
    try:
        v = libs.await_(e.register(src, events))
    except Exception:
        limit()
        cover('closed')
        X.prove(closed, 'error only when closed')
        X.prove(events.n > 0, 'empty call succeeds')
        return
    if X.decide(events.n == 0):
        cover('empty')
        X.prove(v is not None and eq(libs.vc_len(v), 0),
                'empty call: empty list')
        X.prove(not puts, 'nothing is queued')
        return
    cover('queued')
    X.prove(not_(closed), 'closed engine gives an error')
    X.prove(v is res, 'result of the request')
    X.prove(len(puts) == 1 and len(puts[0]) == 3, 'queued')
    f, s, ev = puts[0]
    X.prove(f is fut and s is src and ev is events, 'request')
