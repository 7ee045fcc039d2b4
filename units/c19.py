"""C19: processing of a batch by modules.

_process_sessions   one round from any state: every event of the last round is
                    given once, in order, to every module subscribed to it,
                    the events created by the modules form the next round, it
                    ends when no module created any; sessions of modules are
                    started once and stopped once however the processing
                    ends; the result is all events in order of creation."""

import types

import z3

from vf import libs, seqs, aiom
from vf.unit import unit, cover
from units.lib import *     # noqa
from vf.syms import sym_int, TypeC

ENG = 'hat.event.server.engine'
A = ['modules only act through their process results',
     'C01: contract of subscription matching',
     'awaits in one batch do not interleave with another batch: one loop '
     'processes batches']


def engine(m):
    """Engine with abstract modules, recording created events and calls"""
    r, c = m.load(ENG), m.load('hat.event.common')
    w = types.SimpleNamespace(r=r, c=c)
    w.created, w.calls = MList(), MList()
    w.starts, w.stops, w.now = MList(), MList(), []
    SM = z3.Function('engine.matches', I, I, B)
    OUT = z3.Function('engine.outputs', I, I, I, I)     # length
    O = z3.Function('engine.output', I, I, I, I, I)
    NONE = z3.Function('engine.none', I, I, I, B)
    w.SM, w.O = SM, O
    w.OUT = lambda *a: z3.If(NONE(*a), z3.IntVal(0), OUT(*a))
    w.src = ItemC('source', {})
    ef = {'type': lambda t: types.SimpleNamespace(t=t, _subst_=None)}
    ef['type'] = lambda t: TypeOf(t)
    w.ev = ItemC('event', ef)
    w.reg = ItemC('regevent', {})

    def matches(j):
        return types.SimpleNamespace(
            matches=lambda ty: mkbool(SM(j, ty.t)))

    def process(j):
        def f(s, e):
            w.calls.append((w.mod.build([j]), s, e))
            n = OUT(j, s.t, e.t)
            X.assume(n >= 0)
            g = z3.Const(X.name('g'), I)
            sg = Seg(g, z3.IntVal(0), n, [(T, w.reg.build(
                [O(j, s.t, e.t, g)]))])
            sg.sp = ('outputs',)
            if X.decide(NONE(j, s.t, e.t)):
                return None
            return MList.of([sg])
        return f
    mf = {'subscription': matches, 'process': process,
          'on_session_start': lambda j: lambda s: w.starts.append((mkint(j), s)),
          'on_session_stop': lambda j: lambda s: w.stops.append((mkint(j), s))}
    w.mod = ItemC('module', mf)
    w.nm = X.fresh('modules', I)
    X.assume(w.nm >= 0)
    msrc = z3.Function('engine.msource', I, I)
    w.msrc = msrc
    g = z3.Const(X.name('g'), I)
    w.modules = MList.of([Seg(g, z3.IntVal(0), w.nm, [
        (T, (w.src.build([msrc(g)]), w.mod.build([g])))])])
    w.modules.parts[0].sp = ('modules',)
    w.session = sym_int('session', 0)
    e = r.Engine()
    w.e = e
    e._source_modules = w.modules
    w.ts = object()

    class Id:
        session = w.session

    def create_session():
        w.now.append(1)
        X.prove(len(w.now) == 1, 'one session per batch')
        e._last_event_id = Id
        return w.ts

    def create_event(ts, reg):
        X.prove(ts is w.ts, 'timestamp of the session')
        ev = w.ev.build([X.fresh('event', I)])
        w.created.append((reg, ev))
        return ev
    e._create_session = create_session
    e._create_event = create_event
    e._last_event_id = None
    w.aio = Over(r.aio, call=aiom.call)
    return w


class TypeOf:
    def __init__(self, t):
        self.t = t

    def _subst_(self, pairs):
        return TypeOf(tsub(self.t, pairs))


def pairs_list(w, name):
    n = X.fresh(name + '.len', I)
    X.assume(n >= 0)
    s, e = z3.Function(X.name('s'), I, I), z3.Function(X.name('e'), I, I)
    g = z3.Const(X.name('g'), I)
    sg = Seg(g, z3.IntVal(0), n, [(T, (w.src.build([s(g)]),
                                       w.ev.build([e(g)])))])
    sg.sp = ('inputs',)
    return MList.of([sg])


def spec_calls(w, inputs, leaf):
    """for module in modules: for input in inputs: if it matches: leaf"""
    p, = w.modules.parts
    if not inputs.parts:
        return MList()
    q, = inputs.parts

    def inner(j):
        g = z3.Const(X.name('g'), I)
        (_, (s, e)), = q.at(g)
        r = Seg(g, q.lo, q.hi, [(w.SM(j, e.t), leaf(j, s, e))])
        r.sp = q.sp
        return r
    r = Seg(p.g, p.lo, p.hi, [(T, inner(p.g))])
    r.sp = p.sp
    return MList.of([r])


@unit('C19', ['server.engine:Engine._process_sessions'], assumes=A,
      timeout=120, bounds=())
def process_sessions(m):
    w = engine(m)
    source = w.src.build([X.fresh('source', I)])
    n = X.fresh('regs', I)
    X.assume(n >= 0)
    g = z3.Const(X.name('g'), I)
    rf = z3.Function(X.name('reg'), I, I)
    regs = MList.of([Seg(g, z3.IntVal(0), n, [(T, w.reg.build([rf(g)]))])])
    regs.parts[0].sp = ('regs',)
    what = {}

    def is_pairs(v):
        """list of (source, event)"""
        if not isinstance(v, MList) or isinstance(v, libs.Gen):
            return False
        ps = _some_item(v)
        return isinstance(ps, tuple) and len(ps) == 2 and isinstance(
            ps[1], Item) and ps[1].kind == 'event' and \
            ps[0].kind == 'source'

    def is_events(v):
        i = _some_item(v) if isinstance(v, MList) else None
        return isinstance(i, Item) and i.kind == 'event'

    def havoc(name, v):
        if v is regs or v is source:
            return None
        if is_pairs(v):
            return lambda: pairs_list(w, name)
        if is_events(v):
            return lambda: opaque(v)
        return None

    def opaque(v):
        k = X.fresh('k', I)
        X.assume(k >= 0)
        v._touch()
        v.parts = [seqs.Opaque(k)]
        return v

    def pick(ls, kind):
        r = [v for v in ls.values() if kind(v)]
        if len(r) != 1:
            raise Unsupported('state of the loop')
        return r[0]

    def init(ls):
        inputs, events = pick(ls, is_pairs), pick(ls, is_events)
        X.prove(len(w.now) == 1, 'session is created')
        X.prove(seqs.len_term(w.calls) == 0, 'no module is called before')
        k = X.choose(3, 'goal')
        if k == 0:
            def f(a, b):
                X.prove(z3.And(a[0].t == source.t, a[1].t == b[1].t),
                        'created events with their source are processed')
            same(inputs, w.created, f, 'initial events')
        elif k == 1:
            def f(a, b):
                X.prove(a.t == b[1].t, 'created events are registered')
            same(events, w.created, f, 'initial events registered')
        else:
            def f(a, b):
                X.prove(a[0].t == b.t, 'events of the register events')
            same(w.created, regs, f, 'one event per register event')

    def before(ls):
        for lst in (w.created, w.calls):
            lst._touch()
            lst.parts = []
        what['events'] = [v for v in ls.values() if any(
            isinstance(p, seqs.Opaque) for p in v.parts)]
        what['in'] = [v for v in ls.values() if not any(
            v is e for e in what['events'])]

    def after(start, end):
        cover('round')
        inputs, = what['in']
        ev0, = what['events']
        events = [v for n_, v in end.items() if start.get(n_) is ev0]
        X.prove(len(events) == 1 and events[0] is ev0,
                'events of the batch are kept')
        out = [v for n_, v in end.items() if start.get(n_) is inputs][0]
        added = MList.of(ev0.parts[1:])
        k = X.choose(4, 'goal')
        if k == 0:
            spec = spec_calls(w, inputs, lambda j, s, e: (mkint(j), s, e))

            def f(a, b):
                X.prove(z3.And(a[0].t == b[0].t, a[1].t == b[1].t,
                               a[2].t == b[2].t),
                        'module gets the event and its source')
            same(w.calls, spec, f,
                 'every module gets every matching event once, in order')
        elif k == 1:
            def outs(j, s, e):
                h = z3.Const(X.name('h'), I)
                return Seg(h, z3.IntVal(0), w.OUT(j, s.t, e.t),
                           [(T, mkint(w.O(j, s.t, e.t, h)))])

            def f(a, b):
                X.prove(a[0].t == b.t, 'event of a module result')
            same(w.created, spec_calls(w, inputs, outs), f,
                 'one event per module result, in order')
        elif k == 2:
            def f(a, b):
                X.prove(a.t == b[1].t, 'produced event is registered')
            same(added, w.created, f, 'produced events are registered')
        else:
            def outs(j, s, e):
                h = z3.Const(X.name('h'), I)
                return Seg(h, z3.IntVal(0), w.OUT(j, s.t, e.t),
                           [(T, mkint(w.msrc(j)))])

            def g_(a, b):
                X.prove(a[0].t == b.t, 'source is the producing module')
            if X.choose(2, 'source'):
                same(out, spec_calls(w, inputs, outs), g_, 'sources')

            def f(a, b):
                X.prove(a[1].t == b[1].t, 'produced event is processed next')
            same(out, w.created, f, 'next round processes what is produced')

    def final(ls):
        cover('final')
        what['final'] = True
        X.prove(z3.And(*[seqs.len_term(v) == 0 for v in what['in']]),
                'processing ends when nothing is produced')
    X.while_rule = WhileRule(havoc, init, before, after, final,
                             [w.created, w.calls])
    with Patch(w.r, aio=w.aio):
        r = libs.await_(w.e._process_sessions(source, regs))
    X.prove('final' in what, 'processed to a fixpoint')
    X.prove(len(what['events']) == 1 and r is what['events'][0],
            'all events of the batch are returned')
    p, = w.modules.parts
    spec = MList.of([Seg(p.g, p.lo, p.hi, [(T, mkint(p.g))])])
    spec.parts[0].sp = p.sp

    def f(a, b):
        X.prove(z3.And(a[0].t == b.t, int_term(a[1]) == w.session.t),
                'session number')
    k = X.choose(2, 'goal')
    same(w.stops if k else w.starts, spec, f,
         'session notification of every module')


def _some_item(v):
    for p in v.parts:
        if isinstance(p, list) and p:
            return p[0]
        if isinstance(p, Seg):
            e = p.emits[0][1]
            while isinstance(e, Seg):
                e = e.emits[0][1]
            return e
    return None
