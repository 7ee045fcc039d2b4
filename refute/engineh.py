"""Shared driver for the engine: random modules, batches, interleavings and
closings on the real engine with recording backend and module stand-ins."""

import asyncio
import itertools
import sys
import types

from refute.common import (event_type, matches_any, query_type, settle,
                           timestamp)

_names = itertools.count(1)


class Plan:
    """behaviour of one module: type -> produced register events"""

    def __init__(self, rng, common, index, n):
        self.common = common
        self.index = index
        self.subs = [query_type(rng, 2, ['a', 'b', 'c'])
                     for _ in range(rng.choice([0, 1, 1, 2]))]
        if rng.random() < 0.4:
            self.subs = [('*',)]
        self.seed = rng.randint(0, 10 ** 6)
        self.kind = rng.choice(['list', 'gen', 'async', 'deque', 'sync'])
        self.rate = rng.choice([0, 0.3, 0.6])
        self.maxgen = rng.choice([1, 2, 3])

    def matches(self, t):
        return matches_any(t, self.subs)

    def produce(self, source, event):
        """deterministic function of source and event (payload: [gen, n])"""
        import random
        c = self.common
        gen = 0
        if (isinstance(event.payload, c.EventPayloadJson) and
                isinstance(event.payload.data, list)):
            gen = event.payload.data[0]
        if gen >= self.maxgen:
            return []
        r = random.Random(repr((self.seed, source.type.name, source.id,
                                event.type, event.id.instance, gen)))
        if r.random() > self.rate:
            return []
        return [c.RegisterEvent(event_type(r, 2, ['a', 'b', 'c']),
                                r.choice([None, c.Timestamp(i, 5)]),
                                c.EventPayloadJson([gen + 1, i]))
                for i in range(r.choice([1, 1, 2]))]


class Stand:

    def __init__(self, ctx, tags):
        from hat import aio
        from hat.event import common
        import hat.event.server.engine as eng
        self.ctx = ctx
        self.rng = ctx.rng
        self.tags = tags
        self.aio = aio
        self.c = common
        self.eng = eng
        self.problems = []
        self.backend_calls = []
        self.calls = []         # module calls: (kind, module, ...)
        self.plans = []
        self.names = []
        self.jitter = self.rng.random() < 0.6
        self.reject = self.rng.choice([0, 0, 0.3])
        self.fail_at = None
        self.slow_backend = self.rng.random() < 0.3

    def bad(self, tag, what, **d):
        if tag in self.tags:
            self.problems.append((what, d))

    def check(self):
        from refute.common import Violation
        if self.problems:
            what, d = self.problems[0]
            raise Violation(what, **d)

    def make_backend(self, last):
        st = self
        c, aio = self.c, self.aio

        class Backend(c.Backend):
            def __init__(self):
                self._g = aio.Group()

            @property
            def async_group(self):
                return self._g

            async def get_last_event_id(self, server_id):
                return c.EventId(server_id, *last)

            async def register(self, events):
                events = list(events)
                n = len(st.backend_calls)
                answer = events
                entry = [events, None]
                st.backend_calls.append(entry)
                st.calls.append(('backend', list(events)))
                if st.slow_backend:
                    await settle(st.rng.randint(1, 4))
                if st.fail_at is not None and n == st.fail_at:
                    raise Exception('backend failed')
                if st.rng.random() < st.reject:
                    answer = None
                entry[1] = answer
                return answer

            async def query(self, params):
                return c.QueryResult([], False)

            async def flush(self):
                pass
        return Backend()

    def make_module(self, plan):
        st = self
        c, aio = self.c, self.aio

        class Module(c.Module):
            def __init__(self, engine, source):
                self._g = aio.Group()
                self.source = source
                self._sub = c.create_subscription(plan.subs)

            @property
            def async_group(self):
                return self._g

            @property
            def subscription(self):
                return self._sub

            async def on_session_start(self, session_id):
                await st.pause()
                st.calls.append(('start', plan.index, session_id))

            async def on_session_stop(self, session_id):
                st.calls.append(('stop', plan.index, session_id))
                await st.pause()

            if plan.kind == 'gen':
                def process(self, source, event):
                    st.calls.append(('process', plan.index, source, event))
                    yield from plan.produce(source, event)
            elif plan.kind == 'sync':
                def process(self, source, event):
                    st.calls.append(('process', plan.index, source, event))
                    return plan.produce(source, event) or None
            else:
                async def process(self, source, event):
                    st.calls.append(('process', plan.index, source, event))
                    await st.pause()
                    return plan.produce(source, event)

        async def create(conf, engine, source):
            st.ctx.check(source.type == c.SourceType.MODULE and
                         source.id == plan.index, 'module source',
                         got=source)
            return Module(engine, source)
        name = f'vf_mock_module_{next(_names)}'
        m = types.ModuleType(name)
        m.info = c.ModuleInfo(create)
        sys.modules[name] = m
        self.names.append(name)
        return {'module': name}

    async def pause(self):
        if self.jitter and self.rng.random() < 0.3:
            await asyncio.sleep(0)

    def cleanup(self):
        for n in self.names:
            sys.modules.pop(n, None)

    def reg_events(self, n=None):
        rng = self.rng
        n = rng.choice([0, 1, 1, 2, 3]) if n is None else n
        return [self.c.RegisterEvent(
            event_type(rng, 2, ['a', 'b', 'c']),
            rng.choice([None, timestamp(rng, self.c)]),
            rng.choice([None, self.c.EventPayloadBinary('x', b'y'),
                        self.c.EventPayloadJson([0, rng.random()])]))
            for _ in range(n)]

    # ------------------------------------------------------- reference run

    def expect_batch(self, source, regs, session, server_id):
        """[(source, event type, source ts, payload)] in creation order and
        the process calls, module by module"""
        c = self.c
        events = []
        calls = {p.index: [] for p in self.plans}

        def create(src, r):
            e = c.Event(c.EventId(server_id, session, len(events) + 1),
                        r.type, None, r.source_timestamp, r.payload)
            events.append(e)
            return src, e
        ins = [create(source, r) for r in regs]
        while ins:
            outs = []
            for p in self.plans:
                for src, e in ins:
                    if not p.matches(e.type):
                        continue
                    calls[p.index].append((src, e))
                    for r in p.produce(src, e):
                        outs.append(create(c.Source(
                            c.SourceType.MODULE, p.index), r))
            ins = outs
        return events, calls

    async def run(self):
        from refute.common import Violation
        rng, c = self.rng, self.c
        server_id = rng.choice([1, 42])
        last = rng.choice([(0, 0), (7, 3), (1, 900)])
        n_mod = rng.choice([0, 1, 2, 3])
        self.plans = [Plan(rng, c, i, n_mod) for i in range(n_mod)]
        backend = self.make_backend(last)
        if rng.random() < 0.15:
            self.fail_at = rng.randint(1, 4)
        confs = [self.make_module(p) for p in self.plans]
        t_before = c.now()
        qsize = rng.choice([1, 2, 1024])
        try:
            engine = await self.eng.create_engine(
                backend, None, confs, server_id, lambda: None, lambda: None,
                qsize)
        except TypeError:
            engine = await self.eng.create_engine(
                backend, None, confs, server_id, lambda: None, lambda: None)
        tasks = []
        requests = []
        started = []

        async def register(source, regs, i):
            started.append(i)
            return await engine.register(source, regs)
        close_after = rng.random() < 0.5
        try:
            for i in range(rng.randint(0, 8)):
                regs = self.reg_events()
                src = rng.choice([
                    c.Source(c.SourceType.EVENTER, rng.randint(1, 3)),
                    c.Source(c.SourceType.SERVER, 2),
                    c.Source(c.SourceType.MODULE, rng.randint(0, 2))])
                if rng.random() < 0.2 and requests:
                    regs = requests[-1][1]      # same objects again
                if rng.random() < 0.5:
                    regs = tuple(regs)
                requests.append((src, regs))
                t = asyncio.create_task(register(src, regs, i))
                tasks.append(t)
                k = rng.random()
                if k < 0.3:
                    await asyncio.wait([t], timeout=5)
                elif k < 0.7:
                    await settle(rng.randint(0, 6))
                if rng.random() < 0.1:
                    rng.choice(tasks).cancel()
            if not close_after and self.fail_at is None:
                done, pending = (await asyncio.wait(tasks, timeout=5)
                                 if tasks else ((), ()))
                if pending:
                    self.bad('C20', 'register is answered',
                             requests=requests)
                failed = [t.exception() for t in done
                          if not t.cancelled() and t.exception()]
                if failed:
                    self.bad('C20', 'call fails only when engine closes',
                             requests=requests, got=repr(failed))
            else:
                await settle(rng.randint(0, 12))
        finally:
            engine.close()
            if rng.random() < 0.5:
                late = asyncio.create_task(register(
                    c.Source(c.SourceType.SERVER, 9), self.reg_events(1),
                    -1))
            else:
                late = None
            await asyncio.wait_for(engine.async_close(), 10)
        all_tasks = tasks + ([late] if late else [])
        done, pending = (await asyncio.wait(all_tasks, timeout=3)
                         if all_tasks else ((), ()))
        if pending:
            self.bad('C20', 'register call hangs after engine closed',
                     requests=requests, pending=len(pending))
            for t in pending:
                t.cancel()
        try:
            r = await asyncio.wait_for(
                engine.register(c.Source(c.SourceType.SERVER, 1),
                                self.reg_events(1)), 2)
            self.bad('C20', 'register on a closed engine fails', got=r)
        except asyncio.TimeoutError:
            self.bad('C20', 'register on a closed engine hangs')
        except Exception:
            pass
        await asyncio.wait_for(backend.async_close(), 5)
        t_after = c.now()
        self.ctx.case(repr((server_id, last, [p.__dict__ for p in
                                              self.plans], requests)))
        try:
            self.verify(server_id, last, requests, tasks, t_before, t_after)
        except Violation as e:
            self.problems.append((e.what, e.data))

    def verify(self, server_id, last, requests, tasks, t_before, t_after):
        c = self.c
        calls = self.calls
        d = dict(server=server_id, last=last, requests=requests,
                 backend=[[e for e in b[0]] for b in self.backend_calls],
                 plans=[(p.index, p.subs, p.kind, p.seed, p.rate, p.maxgen)
                        for p in self.plans])
        batches = [b[0] for b in self.backend_calls]
        # --- C20: STARTED first, STOPPED last
        st_type = ('event', str(server_id), 'engine')

        def is_status(e, s):
            return (e.type == st_type and e.source_timestamp is None and
                    e.payload == c.EventPayloadJson(s))
        if not batches or not batches[-1] or not is_status(
                batches[-1][-1], 'STOPPED') or len(batches[-1]) != 1:
            self.bad('C20', 'STOPPED is the last event registered', **d)
        if batches and len(batches) > 1 and not is_status(
                batches[0][0], 'STARTED'):
            self.bad('C20', 'STARTED is the first event registered', **d)
        if sum(is_status(e, 'STOPPED') for b in batches for e in b) != 1:
            self.bad('C20', 'STOPPED registered once', **d)
        if sum(is_status(e, 'STARTED') for b in batches for e in b) > 1:
            self.bad('C20', 'STARTED registered once', **d)
        # --- C18
        prev = c.EventId(server_id, *last)
        prev_t = t_before
        for b in batches:
            if not b:
                continue
            if {e.id.server for e in b} != {server_id}:
                self.bad('C18', 'events carry the server id', **d)
            if not b[0].id > prev:
                self.bad('C18', 'ids increase over batches', **d)
            if {e.id.session for e in b} != {b[0].id.session} or \
                    b[0].id.session <= prev.session:
                self.bad('C18', 'one new session per batch', **d)
            if [e.id.instance for e in b] != list(range(1, len(b) + 1)):
                self.bad('C18', 'instances 1, 2, 3, ... in order', **d)
            if len({e.timestamp for e in b}) != 1:
                self.bad('C18', 'one timestamp per batch', **d)
            if not (prev_t <= b[0].timestamp <= t_after):
                self.bad('C18', 'timestamp is that of the registration',
                         **d)
            prev, prev_t = b[-1].id, b[0].timestamp
        # --- C19: every batch is the fixpoint of one request
        queue = [(c.Source(c.SourceType.ENGINE, 0),
                  [c.RegisterEvent(st_type, None,
                                   c.EventPayloadJson('STARTED'))])]
        pending = [(s, list(r)) for s, r in requests if r]
        # split module calls by the backend calls that end the sessions
        sessions, cur = [], []
        for call in calls:
            if call[0] == 'backend':
                sessions.append((cur, call[1]))
                cur = []
            else:
                cur.append(call)
        for n, (cs, events) in enumerate(sessions):
            if events and is_status(events[-1], 'STOPPED') and \
                    n == len(sessions) - 1:
                continue    # unfinished session before closing
            if not events:
                continue
            session = events[0].id.session
            cands = queue + pending
            match = None
            for i, (src, regs) in enumerate(cands):
                want, wcalls = self.expect_batch(src, regs, session,
                                                 server_id)
                w = [(e.id, e.type, e.source_timestamp, e.payload)
                     for e in want]
                g = [(e.id, e.type, e.source_timestamp, e.payload)
                     for e in events]
                if w == g:
                    got = {p.index: [] for p in self.plans}
                    for k in cs:
                        if k[0] == 'process':
                            got[k[1]].append((k[2], k[3]._replace(
                                timestamp=None)))
                    if got == wcalls:
                        match = i
                        break
            if match is None:
                self.bad('C19', 'batch is not the fixpoint of one request',
                         batch=events, calls=cs, **d)
                if self.tags == {'C20'} or self.tags == {'C18'}:
                    return
                continue
            if match < len(queue):
                queue.pop(match)
            else:
                pending.pop(match - len(queue))
            kinds = [k[0] for k in cs]
            nm = len(self.plans)
            if sorted(k[1] for k in cs if k[0] == 'start') != list(
                    range(nm)) or sorted(
                    k[1] for k in cs if k[0] == 'stop') != list(range(nm)):
                self.bad('C19', 'session start and stop once per module',
                         calls=cs, **d)
            if kinds[:nm] != ['start'] * nm or \
                    (nm and kinds[-nm:] != ['stop'] * nm):
                self.bad('C19', 'processing between session start and stop',
                         calls=cs, **d)
            if any(k[2] != session for k in cs if k[0] in ('start',
                                                           'stop')):
                self.bad('C19', 'session identifier', calls=cs, **d)
            for k in cs:
                if k[0] == 'process' and k[3] not in events:
                    self.bad('C19', 'processed event differs from the '
                             'registered one', calls=cs, **d)
        # --- C20: results
        for (src, regs), t in zip(requests, tasks):
            if not t.done() or t.cancelled() or t.exception():
                continue
            r = t.result()
            if not regs:
                if r is None or list(r):
                    self.bad('C20', 'empty call returns an empty list',
                             got=r, **d)
                continue
            if r is None:
                if not any(b[1] is None for b in self.backend_calls):
                    self.bad('C20', 'nothing returned without rejection',
                             **d)
                continue
            r = list(r)
            if [(e.type, e.source_timestamp, e.payload) for e in r] != \
                    [(e.type, e.source_timestamp, e.payload)
                     for e in regs]:
                self.bad('C20', 'returns its own events in order', got=r,
                         want=regs, **d)
            own = [b for b in self.backend_calls
                   if b[0][:len(r)] == r and b[1] is not None]
            if not own:
                self.bad('C20', 'returned events were not registered',
                         got=r, **d)
        # distinct successful calls return distinct events
        ids = [e.id for (_, regs), t in zip(requests, tasks)
               if t.done() and not t.cancelled() and not t.exception() and
               t.result() for e in t.result()]
        if len(set(ids)) != len(ids):
            self.bad('C20', 'each call returns its own events', **d)


async def run_one(ctx, tags):
    st = Stand(ctx, tags)
    try:
        await st.run()
    finally:
        st.cleanup()
    st.check()


def run_prop(ctx, tag):
    from refute.common import run_async

    async def many():
        for _ in range(20):
            await run_one(ctx, {tag})
    ctx.rule = 'one case per (modules, requests, interleaving)'
    for r in ctx.rounds(5):
        run_async(many())
        if tag == 'C20':
            run_create(ctx)


async def create_one(ctx):
    """creation of an engine that fails or is cancelled at some module:
    every waiting registration ends, later ones fail, created modules are
    closed"""
    from hat import aio
    from hat.event import common as c
    import hat.event.server.engine as eng
    rng = ctx.rng
    mods, calls, names = [], [], []
    kinds = []

    class Backend:
        async def get_last_event_id(self, server_id):
            return c.EventId(server_id, 0, 0)

        async def register(self, events):
            return events

        async def query(self, params):
            return c.QueryResult([], False)

    class Module(c.Module):
        subscription = c.create_subscription([])

        def __init__(self, engine, source):
            self._group = aio.Group()
            self.engine, self.source = engine, source
            for _ in range(rng.choice([0, 0, 1, 2])):
                calls.append(asyncio.create_task(self.register()))

        @property
        def async_group(self):
            return self._group

        def register(self):
            return self.engine.register(
                self.source, [c.RegisterEvent(('a', ), None, None)])

        def process(self, source, event):
            return []

    def make(kind):
        async def slow(engine, source):
            await asyncio.sleep(0.001)
            m = Module(engine, source)
            mods.append(m)
            return m

        async def create(conf, engine, source):
            if kind == 'fail':
                await settle(rng.randint(0, 3))
                raise Exception('module failed')
            if kind == 'self cancel':
                task[0].cancel()
            if kind == 'stubborn':
                return await aio.uncancellable(slow(engine, source), False)
            if kind == 'slow':
                await asyncio.sleep(0.001)
            m = Module(engine, source)
            mods.append(m)
            return m
        name = f'vf_mock_module_{next(_names)}'
        m = types.ModuleType(name)
        m.info = c.ModuleInfo(create)
        sys.modules[name] = m
        names.append(name)
        return {'module': name}
    task = []
    kinds = [rng.choice(['ok', 'ok', 'slow', 'stubborn', 'fail',
                         'self cancel']) for _ in range(rng.randint(1, 3))]
    cancel_at = rng.choice([None, 0, 1, 3, 6, 10])
    d = dict(modules=kinds, cancel_after_steps=cancel_at)
    ctx.case(repr(d))
    try:
        task.append(asyncio.create_task(eng.create_engine(
            Backend(), None, [make(k) for k in kinds], 1, lambda: None,
            lambda: None)))
        if cancel_at is not None:
            await settle(cancel_at)
            task[0].cancel()
        done, _ = await asyncio.wait(task, timeout=3)
        ctx.check(done, 'creation ends', **d)
        engine = None
        if not task[0].cancelled() and task[0].exception() is None:
            engine = task[0].result()
            ctx.check(len(mods) == len(kinds), 'modules are created', **d)
            ctx.check(all(m.is_open for m in mods), 'modules are open', **d)
            await asyncio.wait_for(engine.async_close(), 3)
        elif not task[0].cancelled():
            ctx.check(str(task[0].exception()) == 'module failed',
                      'fails only with its modules',
                      got=repr(task[0].exception()), **d)
        if calls:
            _, pending = await asyncio.wait(calls, timeout=2)
            ctx.check(not pending, 'registration of a module is answered '
                      'when its engine closes', **d)
        await asyncio.sleep(0.01)
        ctx.check(not any(m.is_open for m in mods),
                  'created modules close with the engine', **d)
        for m in mods[:1]:
            late = asyncio.create_task(m.register())
            await asyncio.wait([late], timeout=1)
            ok = late.done() and late.exception() is not None
            late.cancel()
            ctx.check(ok, 'register on a closed engine fails', **d)
    finally:
        for n in names:
            sys.modules.pop(n, None)
        for t in calls:
            t.cancel()
        for m in mods:
            m.close()
        await settle(3)
        for t in calls:
            if t.done() and not t.cancelled():
                t.exception()


def run_create(ctx):
    from refute.common import run_async

    async def many():
        for _ in range(10):
            await create_one(ctx)
    run_async(many())
