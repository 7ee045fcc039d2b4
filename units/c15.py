"""C15: notifications about registered and flushed batches.

register      (C08) the batch is queued for the flush notification once and
              given to the registered-events callback once, after it is
              stored; a rejected call (closed) does neither;
_flush        changes of all tables and the queue of batches are taken at one
              moment (no suspension in between), written by one call of
              _ext_flush, and only after it succeeded every taken batch is
              given to the flushed-events callback once, in order; batches
              registered meanwhile stay queued;
_ext_flush    (C14) one transaction;
flush         queues one request and returns when it is answered; a closed
              queue gives BackendClosedError;
_flush_loop   a request is answered only after a _flush that was started
              after the request was taken; every request is answered, at the
              latest when closing (error), where the last _flush is done and
              the environment is closed after it."""

import types

import z3

from vf import libs, seqs, aiom
from vf.unit import unit, cover
from units.lib import *     # noqa
from vf.syms import sym_int, sym_bool
from units import c08, c20

BE = c08.BE
F = c08.F
A = ['contract of hat.aio: uncancellable runs to the end and then may report '
     'the cancellation; wait_for gives the result, a timeout or the '
     'cancellation (with the result); Queue is FIFO',
     'environment is closed only by the end of the flush loop']

unit('C15', [F + 'backend:LmdbBackend.register'], assumes=c08.A, timeout=200,
     bounds=())(c08.register)


@unit('C15', [F + 'backend:LmdbBackend._flush'], assumes=A, timeout=120,
      bounds=())
def flush_changes(m):
    r, c = m.load(BE), m.load('hat.event.common')
    batch = ItemC('batch', {})
    n = X.fresh('batches', I)
    X.assume(n >= 0)
    bf = z3.Function('batch', I, I)
    g = z3.Const(X.name('g'), I)
    sg = Seg(g, z3.IntVal(0), n, [(T, batch.build([bf(g)]))])
    sg.sp = ('batches',)
    queue = MList.of([sg])
    st = types.SimpleNamespace(log=[], done=False, pos=z3.IntVal(0),
                               late=False)
    late = batch.build([X.fresh('late', I)])
    b = r.LmdbBackend()
    names = ['system', 'latest', 'timeseries', 'ref']
    tokens = {i: object() for i in names}

    def db(name):
        def create_changes():
            X.prove(name not in st.log, 'changes are taken once')
            X.prove(not st.late, 'changes are taken at one moment')
            st.log.append(name)
            return tokens[name]
        return types.SimpleNamespace(create_changes=create_changes)
    b._dbs = r.Databases(**{i: db(i) for i in names})
    b._registered_queue = queue
    b._registered_count = sym_int('count', 0)
    with_cb = X.choose(2, 'callback')
    opened = sym_bool('open')

    def suspend():
        """another task registers a batch"""
        if X.choose(2, 'register') and not st.late:
            st.late = True
            X.prove(set(names) <= set(st.log),
                    'no suspension before changes are taken')
            X.prove(b._registered_queue is not queue or False,
                    'new batches are queued apart')
            b._registered_queue.append(late)

    def execute(f, *args):
        def run():
            X.prove('execute' not in st.log, 'one transaction')
            X.prove(sorted(st.log) == sorted(names), 'all changes are taken')
            X.prove(f is r._ext_flush, 'changes are written')
            X.prove(len(args) == 3 and args[0] is b._env and
                    args[1] is b._dbs, 'databases')
            ch = args[2]
            X.prove(all(getattr(ch, i) is tokens[i] for i in names),
                    'changes of each table')
            st.log.append('execute')
            suspend()
            if X.choose(2, 'fails'):
                raise OSError('write failed')
            st.done = True
        return aiom.Now(run)
    b._env = types.SimpleNamespace(is_open=opened, execute=execute)

    def callback(x):
        cover('notified')
        X.prove(st.done, 'notified only after the write')
        X.prove(mkbool(st.pos < n), 'only taken batches')
        X.prove(x.t == bf(st.pos), 'next batch, once')
        st.pos = st.pos + 1
    b._flushed_events_cb = callback if with_cb else None
    before = {}

    def mine(v):
        return isinstance(v, MList) and v is not b._registered_queue

    def havoc(name, v):
        if not mine(v):
            return None

        def make():
            st.pos = X.fresh('pos', I)
            X.assume(z3.And(st.pos >= 0, st.pos <= n))
            before['pos'] = st.pos
            v._touch()
            v.parts = [sg.clone(lo=st.pos)]
            return v
        return make

    def holds(ls, label):
        for v in ls.values():
            if not mine(v):
                continue
            X.prove(eq(libs.vc_len(v), mkint(n - st.pos)),
                    label + ': batches not notified yet')
            if not X.decide(st.pos < n):
                continue
            j = X.fresh('j', I)
            X.assume(z3.And(j >= 0, j < n - st.pos))
            add_index(j, sg.sp)
            X.prove(v[mkint(j)].t == bf(st.pos + j),
                    label + ': batches not notified yet')

    def after(start, end):
        X.prove(st.pos == before['pos'] + 1, 'one batch is notified')
        holds(end, 'round')
    X.while_rule = WhileRule(havoc, lambda ls: holds(ls, 'start'),
                             lambda ls: None, after, lambda ls: None)

    def f_before(start, v, k):
        st.pos = k

    def f_after(start, end, v, k):
        X.prove(st.pos == k + 1, 'one batch is notified')

    def f_final(start):
        st.pos = n
    X.for_rule = ForRule(
        lambda s: isinstance(s, MList) and len(s.parts) == 1 and
        s.parts[0] is sg or s is queue, lambda: None, f_before, f_after,
        f_final)
    try:
        with Patch(r, aio=Over(r.aio, call=aiom.call)):
            libs.await_(b._flush())
    except OSError:
        cover('failed')
        X.prove(not st.done, 'error of the write')
        X.prove(st.pos == 0, 'failed write: nothing is notified')
        return
    if not X.decide(bool_term(opened)):
        cover('closed')
        X.prove(not st.log, 'closed environment: nothing is taken')
        X.prove(b._registered_queue is queue, 'batches stay queued')
        return
    X.prove(st.done, 'changes are written')
    if with_cb:
        cover('end')
        X.prove(st.pos == n, 'every batch is notified')
    else:
        X.prove(st.pos == 0, 'no callback')
    q = b._registered_queue
    X.prove(q is not queue, 'taken batches are not queued again')
    if st.late:
        X.prove(eq(libs.vc_len(q), 1) and eq(q[0], late),
                'batch registered meanwhile stays queued')
    else:
        X.prove(eq(libs.vc_len(q), 0), 'no batch is queued')


@unit('C15', [F + 'backend:LmdbBackend.flush'], assumes=A, bounds=())
def flush(m):
    r = m.load(BE)
    b = r.LmdbBackend()
    puts = []
    closed = sym_bool('closed')
    failed = sym_bool('failed')

    class Fut:
        def _await_(self):
            X.prove(len(puts) == 1, 'requested before waiting')
            w.append(1)
            if failed:
                raise r.common.BackendClosedError()
    w = []
    fut = Fut()

    def put(v):
        def run():
            if closed:
                raise r.aio.QueueClosedError()
            puts.append(v)
        return aiom.Now(run)
    b._loop = types.SimpleNamespace(create_future=lambda: fut)
    b._flush_queue = types.SimpleNamespace(put=put)
    try:
        libs.await_(b.flush())
    except r.common.BackendClosedError:
        cover('closed')
        X.prove(or_(closed, failed), 'error only when closed')
        return
    cover('flushed')
    X.prove(not_(or_(closed, failed)), 'closed: error')
    X.prove(len(puts) == 1 and puts[0] is fut, 'one request')
    X.prove(len(w) == 1, 'returns after the answer')


# ---------------------------------------------------------- flush loop

class Req(Item):
    """queued request: future or None"""
    __slots__ = ()

    def _subst_(self, pairs):
        return Req(tsub(self.t, pairs), self.kind, self.f)

    def _is_(self, o):
        if o is None:
            return mkbool(self.f['none'](self.t))
        return Item._is_(self, o)

    def __bool__(self):
        return X.decide(z3.Not(self.f['none'](self.t)))


class FlushLoop:

    def __init__(self, m):
        w = self
        w.r = r = m.load(BE)
        w.NONE = z3.Function('request.none', I, B)
        w.f = {'none': w.NONE, 'done': lambda t: lambda: w.done(t),
               'set_result': lambda t: lambda v: w.answer(t, None),
               'set_exception': lambda t: lambda e: w.answer(t, e)}
        w.total = X.fresh('total', I)
        w.taken = z3.IntVal(0)
        w.flushed = z3.IntVal(0)    # requests taken before the last flush
        w.hnd0 = lambda t: z3.BoolVal(False)
        w.handled = []
        w.pending = None            # request just seen not done
        w.phase = 'init'
        w.qclosed = w.closed = w.last_flush = w.env_closed = False
        X.assume(w.total >= 0)

        def arrive():
            """other tasks add requests"""
            n = X.fresh('total', I)
            X.assume(n >= w.total)
            if not w.qclosed:
                w.total = n
            w.pending = None

        def take():
            v = Req(w.taken, 'request', w.f)
            w.taken = z3.simplify(w.taken + 1)
            return v

        def get_nowait():
            X.prove(w.taken < w.total, 'queue is not empty')
            return take()

        def get():
            arrive()
            X.assume(w.taken < w.total)
            return take()

        def qclose():
            w.qclosed = True
            w.phase = 'closing'
        w.queue = types.SimpleNamespace(
            get=lambda: get, get_nowait=get_nowait, close=qclose,
            empty=lambda: mkbool(w.taken >= w.total))

        def wait_for(obj, timeout):
            X.prove(obj is get, 'requests are taken')
            X.prove(timeout is w.period, 'flush period')

            def run():
                arrive()
                k = X.choose(5, 'get')
                w.phase = 'collected'
                if k == 0:
                    return get()
                if k == 1:
                    raise r.asyncio.TimeoutError()
                if k == 2:
                    raise r.aio.CancelledWithResultError(get(), None)
                if k == 3:
                    raise r.aio.CancelledWithResultError(
                        None, Exception('failure'))
                raise r.asyncio.CancelledError()
            return aiom.Now(run)

        def flush():
            upto = w.taken
            if w.phase == 'closing':
                X.prove(not w.env_closed, 'flushed before environment '
                        'is closed')
            arrive()
            k = X.choose(2, 'flush')
            if k:
                if w.phase == 'closing':
                    w.last_flush = True
                raise OSError('failure')
            w.flushed = upto
            if w.phase == 'closing':
                w.last_flush = True
            else:
                w.phase = 'flushed'

        def uncancellable(x, raise_cancel=True):
            def run():
                libs.await_(x)
                if raise_cancel and X.choose(2, 'cancelled'):
                    raise r.asyncio.CancelledError()
            return aiom.Now(run)

        def env_close():
            X.prove(w.last_flush, 'last flush before environment is closed')
            w.env_closed = True

        def close():
            w.closed = True
        b = w.b = r.LmdbBackend()
        b._flush_queue = w.queue
        b._flush = lambda: aiom.Now(flush)
        b._env = types.SimpleNamespace(
            async_close=lambda: aiom.Now(env_close))
        b.close = close
        w.period = object()
        w.aio = Over(r.aio, wait_for=wait_for, uncancellable=uncancellable)

    def done(self, t):
        if X.decide(self.is_handled(t)):
            return True
        d = bool(X.choose(2, 'done'))
        if d:
            self.handled.append(t)
        else:
            self.pending = t
        return d

    def answer(self, t, e):
        X.prove(mkbool(z3.Not(self.NONE(t))), 'answer of a request')
        X.prove(self.pending is not None and self.pending is t or
                self.pending is not None and
                mkbool(self.pending == t), 'answered once')
        if e is None:
            cover('answered')
            X.prove(mkbool(t < self.flushed),
                    'answered after a flush that follows the request')
        else:
            cover('rejected')
            X.prove(self.phase == 'closing', 'error only when closing')
            X.prove(isinstance(e, self.r.common.BackendClosedError),
                    'closed backend is reported')
        self.pending = None
        self.handled.append(t)

    def is_handled(self, t):
        return z3.Or(self.hnd0(t), *[t == i for i in self.handled])

    def scramble(self, v, taken=True, label=''):
        """list in any state of the invariant"""
        if taken:
            t0, n0 = self.taken, self.total
            self.taken, self.total = X.fresh('taken', I), X.fresh('total', I)
            X.assume(z3.And(self.taken >= t0, self.taken <= self.total,
                            self.total >= n0))
            if self.qclosed:
                X.assume(self.total == n0)
        self.taken0 = self.taken
        n = X.fresh('list', I)
        X.assume(n >= 0)
        name = X.name('list')
        fi = z3.Function(name + '.item', I, I)
        HND = z3.Function(name + '.handled', I, B)
        POS = self.POS = z3.Function(name + '.position', I, I)
        sp = self.sp = (name,)
        self.hnd0, self.handled = lambda t: HND(t), []
        self.pending = None
        NONE, tk = self.NONE, self.taken

        def link(k):
            if k.sort() != I:
                return
            X.assume(z3.Implies(z3.And(k >= 0, k < n), z3.And(
                fi(k) >= 0, fi(k) < tk)))
        seqs.universal_hook(link, sp)
        self.link = lambda t: X.assume(z3.Or(
            t < 0, t >= tk, NONE(t), HND(t),
            z3.And(POS(t) >= 0, POS(t) < n, fi(POS(t)) == t)))
        g = z3.Const(X.name('g'), I)
        sg = Seg(g, z3.IntVal(0), n, [(T, Req(fi(g), 'request', self.f))])
        sg.sp = sp
        v._touch()
        v.parts = [sg]
        return v


@unit('C15', [F + 'backend:LmdbBackend._flush_loop'], assumes=A, timeout=250,
      bounds=())
def flush_loop(m):
    w = FlushLoop(m)
    r = w.r

    def lists(ls):
        return [v for v in ls.values() if isinstance(v, MList)]

    # main loop: all taken requests are handled at its head
    def m_havoc(name, v):
        if not isinstance(v, MList):
            return None

        def make():
            w.phase = 'round'
            v._touch()
            v.parts = []
            w.taken, w.total = X.fresh('taken', I), X.fresh('total', I)
            X.assume(z3.And(w.taken >= 0, w.taken <= w.total))
            tk = w.taken
            w.hnd0, w.handled = lambda t: t < tk, []
            w.flushed = X.fresh('flushed', I)
            X.assume(w.flushed <= w.taken)
            w.link = lambda t: None
            return v
        return make

    def m_init(ls):
        for v in lists(ls):
            X.prove(eq(libs.vc_len(v), 0), 'start: no request is waiting')

    def m_after(start, end):
        cover('round')
        for v in lists(end):
            X.prove(eq(libs.vc_len(v), 0), 'round: no request is waiting')
        goal([], 'round')

    def goal(ls, label):
        t = X.fresh('request', I)
        X.assume(z3.And(t >= 0, t < w.taken, z3.Not(w.NONE(t)),
                        z3.Not(w.is_handled(t))))
        w.link(t)
        if hasattr(w, 'POS'):
            add_index(w.POS(t), w.sp)
        if not ls:
            X.prove(False, label + ': taken request is answered')
            return
        X.prove(or_(*[has(i, Req(t, 'request', w.f)) for i in ls]),
                label + ': taken request is not lost')
    main = WhileRule(m_havoc, m_init, lambda ls: None, m_after,
                     lambda ls: None, poison=True)

    def inner():
        def havoc(name, v):
            if not isinstance(v, MList):
                return None
            return lambda: w.scramble(v, w.phase != 'flushed')

        def after(start, end):
            if w.phase == 'flushed':
                X.prove(w.taken == w.taken0, 'no request is taken')
            goal(lists(end), 'round')
        return WhileRule(havoc, lambda ls: goal(lists(ls), 'start'),
                         lambda ls: None, after,
                         lambda ls: None, poison=True)
    rules = {}

    def while_rule(site, body, get, set_, names):
        if w.phase == 'init' and not main.used:
            return main(site, body, get, set_, names)
        rl = rules.setdefault((site, w.phase), inner())
        return rl(site, body, get, set_, names)
    X.while_rule = while_rule

    # for loop over the list: items before the current one are handled
    frules = {}

    def for_rule(site, src, body, get, set_, names):
        if not isinstance(src, MList) or src.parts and not isinstance(
                X_first(src), (Req, Seg)):
            return NotImplemented
        st = {}

        def init():
            goal([src], 'start')

        def over(s):
            return True

        def before(start, v, k):
            sg, = src.parts
            POS = w.POS
            name = X.name('handled')
            H = z3.Function(name, I, B)
            w.hnd0, w.handled = lambda t: H(t), []
            n, tk = sg.hi, w.taken
            item = sg.at
            w.link = lambda t: X.assume(z3.Or(
                t < 0, t >= tk, w.NONE(t), H(t),
                z3.And(POS(t) >= k, POS(t) < n,
                       item(POS(t))[0][1].t == t)))
            st['k'] = k

        def after(start, end, v, k):
            t = X.fresh('request', I)
            X.assume(z3.And(t >= 0, t < w.taken, z3.Not(w.NONE(t)),
                            z3.Not(w.is_handled(t))))
            w.link(t)
            X.prove(w.POS(t) > k, 'round: taken request is answered')

        def final(start):
            name = X.name('handled')
            H = z3.Function(name, I, B)
            w.hnd0, w.handled = lambda t: H(t), []
            tk = w.taken
            w.link = lambda t: X.assume(z3.Or(t < 0, t >= tk, w.NONE(t),
                                              H(t)))
        if len(src.parts) != 1 or not isinstance(src.parts[0], Seg):
            # other state of the invariant
            if not src.parts:
                return NotImplemented
            if X.choose(2, 'list'):
                init()
                raise seqs_cut()
            w.scramble(src, taken=False)
        rl = ForRule(over, init, before, after, final)
        return rl(site, src, body, get, set_, names)

    def X_first(src):
        p = src.parts[0]
        return p[0] if isinstance(p, list) else p
    X.for_rule = for_rule
    try:
        with Patch(r, aio=w.aio):
            libs.await_(w.b._flush_loop(w.period))
    except r.asyncio.CancelledError:
        cover('cancelled')
    X.prove(w.qclosed, 'later requests are rejected')
    X.prove(w.closed, 'backend is closed')
    X.prove(w.last_flush, 'remaining changes are flushed')
    X.prove(w.env_closed, 'environment is closed')
    X.prove(w.taken >= w.total, 'all requests are taken')
    goal([], 'end')


import units.lmdbb   # noqa
