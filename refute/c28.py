"""Random registration histories (<= 14 events, 3 servers, frequent timestamp
ties) on the memory backend; every query kind, limit and continuation."""

from refute.common import (event_type, matches_any, payload, query_type,
                           run_async)


def run(ctx):
    from hat.event import common
    from hat.event.backends import memory
    from hat import aio
    rng = ctx.rng
    ctx.rule = 'random histories and queries; distinct (history, query)'

    def ts():
        return common.Timestamp(rng.randint(-2, 4), rng.choice([0, 0, 1]))

    async def history():
        calls = []
        b = await aio.call(memory.info.create, {},
                           lambda e: calls.append(('r', list(e))),
                           lambda e: calls.append(('f', list(e))))
        events = []
        seq = {}
        batches = []
        for _ in range(rng.randint(0, 5)):
            batch = []
            for _ in range(rng.randint(0, 4)):
                s = rng.choice([1, 2, 3])
                ses, ins, t = seq.get(s, (1, 0, common.Timestamp(-1, 0)))
                if rng.random() < 0.4:
                    ses, ins = ses + 1, 0
                ins += 1
                t = max(t, ts())
                seq[s] = ses, ins, t
                batch.append(common.Event(
                    common.EventId(s, ses, ins),
                    event_type(rng, 2, ['a', 'b']), t,
                    rng.choice([None, ts(), ts()]), payload(rng, common)))
            batches.append(batch)
        shuffled = rng.random() < 0.3
        if shuffled:
            # natural order is a linear order only along registration order
            rng.shuffle(batches)
        for batch in batches:
            r = await b.register(batch)
            ctx.eq(list(r), batch, 'register returns its events')
            events.extend(batch)
        nb = [i for i in batches]
        ctx.eq(calls, [c for i in nb for c in (('r', i), ('f', i))],
               'callbacks', batches=batches)

        for s in (1, 2, 3, 4):
            ctx.eq(await b.get_last_event_id(s),
                   max((e.id for e in events if e.id.server == s),
                       default=common.EventId(s, 0, 0)), 'last event id',
                   events=events, server=s)

        def later(f, e):
            return (f.id > e.id if f.id.server == e.id.server else
                    f.timestamp > e.timestamp)

        def opt_types():
            if rng.random() < 0.4:
                return None
            return [query_type(rng, 2, ['a', 'b'])
                    for _ in range(rng.randint(0, 3))]

        for _ in range(6):
            q = opt_types()
            r = await b.query(common.QueryLatestParams(q))
            sel = [e for e in events if q is None or matches_any(e.type, q)]
            ctx.case(repr((events, q)))
            got = {e.type: e for e in r.events}
            ctx.eq(len(got), len(list(r.events)), 'latest: one per type',
                   events=events, types=q)
            ctx.eq(set(got), {e.type for e in sel}, 'latest: types',
                   events=events, types=q)
            ctx.check(not r.more_follows, 'latest: no more')
            for t, e in got.items():
                ctx.check(e in sel and (shuffled or not any(
                    f.type == t and later(f, e) for f in sel)),
                    'latest: newest event', events=events, types=q, got=e)

        def o(p=0.3):
            return ts() if rng.random() < p else None
        for _ in range(10):
            q = common.QueryTimeseriesParams(
                opt_types(), o(), o(), o(0.2), o(0.2),
                rng.choice(list(common.Order)),
                rng.choice(list(common.OrderBy)))
            by_src = q.order_by == common.OrderBy.SOURCE_TIMESTAMP
            asc = q.order == common.Order.ASCENDING
            sel = []
            for e in events:
                st = e.source_timestamp
                if q.event_types is not None and not matches_any(
                        e.type, q.event_types):
                    continue
                if q.t_from is not None and e.timestamp < q.t_from:
                    continue
                if q.t_to is not None and e.timestamp > q.t_to:
                    continue
                if q.source_t_from is not None and (
                        st is None or st < q.source_t_from):
                    continue
                if q.source_t_to is not None and (
                        st is None or st > q.source_t_to):
                    continue
                if by_src and st is None:
                    continue
                sel.append(e)
            r = await b.query(q)
            got = list(r.events)
            d = dict(events=events, query=q)
            ctx.case(repr((events, q)))
            ctx.check(not r.more_follows, 'timeseries: no more', **d)
            ctx.eq(sorted(e.id for e in got), sorted(e.id for e in sel),
                   'timeseries: matching events', **d)
            ctx.check(all(e in events for e in got),
                      'timeseries: events as registered', **d)
            for x, y in zip(got, got[1:]):
                kx, ky = ((x.source_timestamp, y.source_timestamp) if by_src
                          else (x.timestamp, y.timestamp))
                ctx.check(kx <= ky if asc else kx >= ky,
                          'timeseries: order', got=got, **d)
            for i, x in enumerate(got):
                for y in got[i + 1:]:
                    if by_src or x.id.server != y.id.server:
                        continue
                    ctx.check(x.id < y.id if asc else x.id > y.id,
                              'timeseries: order of one server', got=got, **d)
            for n in {0, 1, 2, len(got), max(len(got) - 1, 0),
                      len(got) + 1}:
                r = await b.query(q._replace(max_results=n))
                ctx.eq((list(r.events), bool(r.more_follows)),
                       (got[:n], len(got) > n), 'timeseries: limit',
                       max_results=n, **d)
            for i, e in enumerate(got):
                n = rng.choice([None, 1, 2])
                r = await b.query(q._replace(last_event_id=e.id,
                                             max_results=n))
                rest = got[i + 1:]
                want = rest if n is None else rest[:n]
                ctx.eq((list(r.events), bool(r.more_follows)),
                       (want, len(rest) > len(want)),
                       'timeseries: continuation', last=e.id, max_results=n,
                       **d)
        for s in (1, 2, 4):
            own = sorted((e for e in events if e.id.server == s),
                         key=lambda e: e.id)
            lasts = [None] + [e.id for e in own] + [
                common.EventId(s, 0, 0), common.EventId(s, 99, 0),
                common.EventId(s, 1, 99)]
            for last in lasts:
                for n in (None, 0, 1, 2, len(own)):
                    q = common.QueryServerParams(
                        s, rng.random() < 0.5, n, last)
                    rest = [e for e in own if last is None or e.id > last]
                    want = rest if n is None else rest[:n]
                    r = await b.query(q)
                    ctx.eq((list(r.events), bool(r.more_follows)),
                           (want, len(rest) > len(want)), 'server query',
                           events=events, query=q)
                    ctx.case(repr((events, q)))
        await b.flush()
        await b.async_close()

    async def many():
        for _ in range(30):
            await history()
    for r in ctx.rounds(4):
        run_async(many())
