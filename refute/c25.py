"""Synchronisation client against a real eventer server on loopback whose
query/register callbacks page through a random remote history (<= 12 sessions
of <= 4 events, pages of 1..6 events) that keeps growing before, during and
after the queries, with a slow local backend and connection loss."""

import asyncio
import collections

from refute.common import (event_type, free_port, payload, run_async, settle,
                           timestamp, wait_until)


def run(ctx):
    from hat import aio
    from hat.drivers import tcp
    from hat.event import common as ec
    from hat.event import eventer
    from hat.event.server import eventer_client as evc
    rng = ctx.rng
    ctx.rule = 'one case per (history, pages, growth moments)'
    remote, local = 7, 3

    async def one(plain):
        addr = tcp.Address('127.0.0.1', free_port())
        history = []
        persisted = []
        session = [rng.randint(1, 3)]
        registers = []
        queries = []
        asked = []
        synced = []
        page = rng.randint(1, 6)
        slow = rng.random() < 0.6
        grow = rng.choice([0, 0.3, 0.7])
        token = rng.choice([None, 'tok'])
        fail_at = None if plain else rng.randint(0, 5)
        srv = None
        lock = asyncio.Lock()
        infos = []
        history_full = []
        status_changes = not plain and rng.random() < 0.3

        def new_session():
            n = rng.randint(1, 4)
            s = session[0]
            session[0] += rng.randint(1, 3)
            ts = timestamp(rng, ec, False)
            evs = [ec.Event(ec.EventId(remote, s, i + 1), event_type(rng, 2),
                            ts, None, payload(rng, ec)) for i in range(n)]
            history.append(evs)
            return evs

        async def publish():
            # notifications are sent in order of flushing
            async with lock:
                if len(history) >= 12 or history_full:
                    return
                evs = new_session()
                persisted.extend(evs)
                if rng.random() < 0.5:
                    await asyncio.sleep(rng.choice([0, 0.001, 0.003]))
                await srv.notify_events(evs, True)

        async def on_query(info, params):
            asked.append(params)
            if rng.random() < grow:
                await publish()
            r = [e for e in persisted
                 if e.id.server == params.server_id and (
                     params.last_event_id is None or
                     e.id > params.last_event_id)]
            n = min(page, params.max_results or page)
            res = ec.QueryResult(r[:n], len(r) > n)
            queries.append(len(res.events))
            if rng.random() < grow:
                await publish()
            return res

        async def on_register(info, regs):
            registers.extend(regs)
            return None

        class Backend(ec.Backend):
            def __init__(self):
                self._g = aio.Group()
                self.batches = []
                self.inside = 0

            @property
            def async_group(self):
                return self._g

            async def get_last_event_id(self, server_id):
                ctx.eq(server_id, remote, 'server asked for')
                return last

            async def register(self, events):
                events = list(events)
                ctx_problem(self.inside == 0, 'overlapping registrations')
                self.inside += 1
                self.batches.append(events)
                if slow:
                    await asyncio.sleep(rng.choice([0, 0, 0.002]))
                self.inside -= 1
                if fail_at is not None and len(self.batches) > fail_at:
                    if fail_kind == 'conn':
                        await srv.async_close()
                    else:
                        raise Exception('backend failed')
                return events

            async def query(self, params):
                return ec.QueryResult([], False)

            async def flush(self):
                pass

        problems = []
        fail_kind = rng.choice(['conn', 'backend'])

        def ctx_problem(ok, what):
            if not ok:
                problems.append(what)

        for _ in range(rng.randint(0, 6)):
            persisted.extend(new_session())
        known = rng.choice([0, 0, rng.randint(0, len(history))])
        known_events = [e for s in history[:known] for e in s]
        last = (known_events[-1].id if known_events
                else ec.EventId(remote, 0, 0))
        if known_events and rng.random() < 0.2:
            # local server knows only the first part of a session
            last = rng.choice(known_events).id
        backend = Backend()
        srv = await eventer.listen(
            addr, status=rng.choice([ec.Status.OPERATIONAL,
                                     ec.Status.STANDBY]),
            connected_cb=lambda i: infos.append(i),
            register_cb=on_register, query_cb=on_query)
        cl = None
        try:
            async def on_synced(state, count):
                synced.append((state, count, cl_synced()))
                if rng.random() < grow:
                    await publish()

            def cl_synced():
                return None if cl is None else cl.synced
            cl = await evc.create_eventer_client(
                addr, 'me', local, remote, backend, client_token=token,
                synced_cb=on_synced)
            ctx.check(infos and infos[0].server_id == remote and
                      infos[0].persisted and
                      infos[0].client_token == token and
                      infos[0].client_name == 'me' and
                      infos[0].subscription.matches(('a', 'b')) and
                      infos[0].subscription.matches(()),
                      'connection of the synchronisation', got=infos)

            async def live():
                for _ in range(rng.randint(0, 3)):
                    await asyncio.sleep(rng.choice([0, 0.001, 0.004]))
                    await publish()
                    if status_changes:
                        await srv.set_status(rng.choice(list(ec.Status)))
            await live()
            done = lambda: (cl.synced == evc.SyncedState.SYNCED and
                            synced and synced[-1][0] ==
                            evc.SyncedState.SYNCED)
            await wait_until(lambda: done() or not cl.is_open, 10)
            if fail_at is None:
                ctx.check(done(), 'synchronisation completes',
                          history=history, synced=synced, asked=asked)
            await live()
            await settle(5)
            async with lock:
                pass
            history_full.append(True)
            want = [e for s in history for e in s if e.id > last]

            def flat():
                return [e for b in backend.batches for e in b]
            if fail_at is None:
                await wait_until(lambda: len(flat()) >= len(want), 3)
                await settle(5)
                ctx.eq(flat(), want,
                       'each remote event registered once, in order',
                       history=history, last=last, page=page,
                       batches=backend.batches)
                await wait_until(lambda: registers and isinstance(
                    registers[-1].payload, ec.EventPayloadJson) and
                    registers[-1].payload.data.get('state') == 'SYNCED', 2)
            else:
                got = flat()
                if len(got) > len(want):
                    ctx.check(False, 'more events than the remote has',
                              got=got, want=want)
                ctx.eq(got, want[:len(got)], 'registered events are a '
                       'prefix of the remote history', history=history,
                       last=last)
            ctx.check(not problems, problems and problems[0])
            seen = collections.Counter()
            for b in backend.batches:
                ctx.check(b, 'empty registration', batches=backend.batches)
                for s in {e.id.session for e in b}:
                    seen[s] += 1
            ctx.check(all(v == 1 for v in seen.values()),
                      'session registered in one call',
                      batches=backend.batches, page=page, history=history)
            nq = sum(queries)
            states = [s for s, _, __ in synced]
            S = evc.SyncedState
            full = ([S.CONNECTED] + ([S.SYNCING] if nq else []) +
                    [S.SYNCED])
            if fail_at is None:
                ctx.eq(states, full, 'reported states', queries=queries)
                ctx.eq([c for _, c, __ in synced],
                       [None] * (len(full) - 1) + [nq], 'reported count',
                       queries=queries)
            else:
                ctx.check(states in (full[:len(states)],
                                     [S.CONNECTED, S.SYNCING][:len(states)]),
                          'reported states', got=states)
            if plain:
                ctx.eq(registers, [ec.RegisterEvent(
                    ('event', str(local), 'synced', str(remote)), None,
                    ec.EventPayloadJson(
                        {'state': s.name, 'count': nq} if s == S.SYNCED
                        else {'state': s.name})) for s in full],
                    'synced events registered at the remote server')
            expect_last = last
            for p, n in zip(asked, queries):
                ctx.check(isinstance(p, ec.QueryServerParams) and
                          p.server_id == remote and p.persisted is True and
                          p.last_event_id == expect_last, 'query of pages',
                          got=p, want=expect_last)
                if n:
                    i = next(k for k, e in enumerate(want)
                             if e.id > expect_last)
                    expect_last = want[i + n - 1].id
            ctx.case(repr((history, last, page, grow)))
        finally:
            if cl:
                await cl.async_close()
            await srv.async_close()

    async def many():
        for i in range(8):
            await one(i % 2 == 0)
    for r in ctx.rounds(3):
        run_async(many())
