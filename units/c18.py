"""C18: identifiers, session and timestamp of created events.

_create_session   next session, instance 0; returns the current time;
_create_event     next instance of the session; event carries that id, the
                  given timestamp and the content of the register event;
create_engine     identifiers continue after the last one of the backend;
_process_sessions one session, one timestamp; returns events in the order of
                  creation (shared with C19).

Lemma: events of a batch are created by consecutive _create_event calls after
one _create_session, so they share session and timestamp and have instances
1, 2, 3, ...; the session number only grows."""

import types

import z3

from vf import libs, seqs, aiom
from vf.unit import unit, cover
from units.lib import *     # noqa
from vf.syms import sym_int, TypeC, StrC, TsC, PayloadC, IdC
from units import c19

ENG = c19.ENG
A = ['common.now returns the current time']


def event_id(c, name):
    return c.EventId(sym_int(name + '.server', 0), sym_int(name + '.session',
                                                           0),
                     sym_int(name + '.instance', 0))


def reg_event(c):
    return c.RegisterEvent(type=fresh(TypeC, 'type'),
                           source_timestamp=fresh(OptC(TsC(c)), 'sts'),
                           payload=fresh(OptC(PayloadC), 'payload'))


@unit('C18', ['server.engine:Engine._create_session'], assumes=A)
def session(m):
    r, c = m.load(ENG), m.load('hat.event.common')
    e = r.Engine()
    e._last_event_id = last = event_id(c, 'last')
    now = fresh(TsC(c), 'now')
    with Patch(r, common=Over(r.common, now=lambda: now)):
        ts = e._create_session()
    X.prove(eq(ts, now), 'timestamp of the session is the current time')
    n = e._last_event_id
    X.prove(eq(n.server, last.server), 'server is kept')
    X.prove(eq(n.session, last.session + 1), 'next session')
    X.prove(eq(n.instance, 0), 'instances start after 0')


@unit('C18', ['server.engine:Engine._create_event'])
def event(m):
    r, c = m.load(ENG), m.load('hat.event.common')
    e = r.Engine()
    e._last_event_id = last = event_id(c, 'last')
    ts = fresh(TsC(c), 'ts')
    reg = reg_event(c)
    ev = e._create_event(ts, reg)
    X.prove(isinstance(ev, c.Event), 'event is created')
    for i in (ev.id, e._last_event_id):
        X.prove(eq(i.server, last.server), 'server is kept')
        X.prove(eq(i.session, last.session), 'session is kept')
        X.prove(eq(i.instance, last.instance + 1), 'next instance')
    X.prove(eq(ev.timestamp, ts), 'timestamp of the session')
    X.prove(eq(ev.type, reg.type), 'type')
    X.prove(eq(ev.source_timestamp, reg.source_timestamp),
            'source timestamp')
    X.prove(eq(ev.payload, reg.payload), 'payload')


unit('C18', ['server.engine:Engine._process_sessions'], assumes=c19.A,
     timeout=120, bounds=())(c19.process_sessions)


class Modules:
    """stub of what create_engine uses; records what it does"""

    def __init__(self, m):
        w = self
        r, c = m.load(ENG), m.load('hat.event.common')
        w.r, w.c = r, c
        w.sid = sym_int('server', 0)
        w.last = event_id(c, 'last')
        w.puts = []
        w.created = []
        w.closed = 0
        w.loop_spawned = 0
        w.asked = []

        class Fut:
            pass

        class Backend:
            def get_last_event_id(self, sid):
                w.asked.append(sid)
                return aiom.Now(lambda: w.last)

        class Queue:
            def __init__(self, size=0):
                pass

            def put_nowait(self, v):
                X.prove(not w.created, 'STARTED is first')
                w.puts.append(v)

        class Group:
            is_open = True

            def spawn(self, f, *a, **k):
                if getattr(f, '__name__', '') == '_register_loop':
                    w.loop_spawned += 1
                    return aiom.Now()
                if f is w.on_cancel or f is w.on_done:
                    return aiom.Now()
                v = f(*a, **k)
                if hasattr(v, '_await_') or isinstance(v, libs.Coro):
                    v = libs.await_(v)
                return aiom.Now(lambda: v, pure=True)

            def close(self):
                w.closed += 1

            def wait_closing(self):
                return aiom.Now()

            def wait_closed(self):
                return aiom.Now()

        class Loop:
            def create_future(self):
                return Fut()

            def time(self):
                raise Unsupported('time')
        w.Fut = Fut
        w.on_cancel, w.on_done = object(), object()
        w.aio = Over(r.aio, Group=Group, Queue=Queue, call=aiom.call,
                     call_on_cancel=w.on_cancel, call_on_done=w.on_done,
                     uncancellable=aiom.uncancellable)
        w.asyncio = types.SimpleNamespace(get_running_loop=lambda: Loop())
        w.backend = Backend()


@unit('C18', ['server.engine:create_engine',
              'server.engine:Engine._create_status_reg_event'], bounds=())
def start(m):
    w = Modules(m)
    r, c = w.r, w.c
    fm = {'async_close': lambda j: lambda: aiom.Now(),
          'wait_closing': lambda j: lambda: aiom.Now()}
    mod = ItemC('module', fm)

    def key(k, n):
        if n != 'module':
            raise Unsupported(f'module configuration {n}')
        return Item(k, 'name', {})

    def info(name):
        X.prove(isinstance(name, Item) and name.kind == 'name',
                'module is imported by its configured name')

        def create(conf, engine, source):
            X.prove(conf.kind == 'conf' and mkbool(conf.t == name.t),
                    'module gets its own configuration')
            X.prove(isinstance(engine, r.Engine), 'module gets the engine')
            X.prove(eq(source, c.Source(type=c.SourceType.MODULE,
                                        id=mkint(conf.t))),
                    'source of the module')
            return mod.build([conf.t])
        return types.SimpleNamespace(create=create)
    confs = items('conf', {'[]': key}, 'confs')
    with Patch(r, aio=w.aio, asyncio=w.asyncio,
               common=Over(r.common, import_module_info=info)):
        e = libs.await_(r.create_engine(
            w.backend, None, confs, w.sid, lambda: None, lambda: None))
    X.prove(len(w.asked) == 1 and w.asked[0] is w.sid,
            'last identifier of the own server')
    X.prove(eq(e._last_event_id, w.last), 'identifiers continue after it')
    X.prove(len(w.puts) == 1, 'one registration before any other')
    fut, src, events = w.puts[0]
    X.prove(isinstance(fut, w.Fut), 'result of the registration')
    X.prove(eq(src, c.Source(type=c.SourceType.ENGINE, id=0)),
            'registered by the engine')
    ev, = libs.native(events)
    status_event(c, ev, w.sid, 'STARTED')
    X.prove(w.loop_spawned == 1, 'register loop is started')

    def f(a, b):
        X.prove(eq(a[0], c.Source(type=c.SourceType.MODULE,
                                  id=mkint(b.t))), 'source of a module')
        X.prove(a[1].kind == 'module' and mkbool(a[1].t == b.t),
                'modules in configured order')
    same(e._source_modules, confs, f, 'all modules')


def status_event(c, ev, sid, status):
    t = libs.native(ev.type)
    X.prove(len(t) == 3 and t[0] == 'event' and t[2] == 'engine',
            'type of engine status event')
    X.prove(eq(t[1], libs.vc_str(sid)), 'server id in the type')
    X.prove(ev.source_timestamp is None, 'no source timestamp')
    X.prove(isinstance(ev.payload, c.EventPayloadJson) and
            eq(ev.payload.data, status), status)
