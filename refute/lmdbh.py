"""Shared driver for the LMDB backend: random histories of registration,
flush, restart and configuration change on the real backend in a scratch
directory, next to a reference model written from the property statements."""

import asyncio

from refute import c17
from refute.common import (event_type, matches_any, query_type, all_types,
                           settle)

SERVERS = (1, 2, 3)
ALPHA = ['a', 'b']
BIG = 10 ** 6


class Part:
    """configured partition"""

    def __init__(self, order_by, subs, limit=None):
        self.order_by = order_by
        self.subs = [tuple(i) for i in subs]
        self.limit = limit

    @property
    def key(self):
        return self.order_by, frozenset(self.subs)

    def conf(self):
        r = {'order_by': self.order_by,
             'subscriptions': [list(i) for i in self.subs]}
        if self.limit is not None:
            r['limit'] = self.limit
        return r

    def ts(self, e):
        return (e.timestamp if self.order_by == 'TIMESTAMP'
                else e.source_timestamp)


PARTS = [('TIMESTAMP', [('*',)]),
         ('SOURCE_TIMESTAMP', [('*',)]),
         ('TIMESTAMP', [('a', '*')]),
         ('TIMESTAMP', [('b',), ('a', 'b')]),
         ('SOURCE_TIMESTAMP', [('a',), ('b', '?')]),
         ('TIMESTAMP', [('?',)]),
         ('SOURCE_TIMESTAMP', [('b', '*')]),
         ('TIMESTAMP', [])]

LATEST = [[('*',)], [('a', '*')], [('b',), ('a',)], [], [('?', 'b')],
          [('*',)], [()]]


def rand_conf(rng, conditions=0.4, parts=None, ts_max=None):
    c = []
    if rng.random() < conditions:
        c = c17.random_conf(rng, rng.choice([0, 0, 1]))
        if rng.random() < 0.6:
            c = [{'subscriptions': [rng.choice([['*'], ['a', '*']])],
                  'condition': {'type': 'json', **rng.choice(
                      [{'data_type': 'number'}, {'data_value': 1},
                       {'data_type': 'boolean'},
                       {'data_path': 'a', 'data_value': 1}])}}]
    ps = parts
    if ps is None:
        ps = [Part(*p) for p in rng.sample(PARTS, rng.choice([0, 1, 2, 3]))]
        if rng.random() < 0.6:
            ps = [p for p in ps if p.key[1] != frozenset({('*',)})]
            ps.insert(rng.randint(0, len(ps)), Part(*PARTS[0]))
    return Conf(c, rng.choice(LATEST), ps, ts_max)


class Conf:

    def __init__(self, conditions, latest, parts, ts_max=None,
                 identifier=None):
        self.conditions = conditions
        self.latest = latest
        self.parts = parts
        self.ts_max = ts_max
        self.identifier = identifier
        self.cleanup_period = 1000
        self.flush_period = 1000

    def data(self, path):
        r = {'db_path': str(path), 'identifier': self.identifier,
             'flush_period': self.flush_period,
             'cleanup_period': self.cleanup_period,
             'conditions': self.conditions,
             'latest': {'subscriptions': [list(i) for i in self.latest]},
             'timeseries': [p.conf() for p in self.parts]}
        if self.ts_max is not None:
            r['timeseries_max_results'] = self.ts_max
        return r

    def __repr__(self):
        return repr(self.data('db'))


class Model:
    """what the backend holds, by the statements of C08..C16"""

    def __init__(self, common):
        self.c = common
        self.last_id = {}
        self.last_ts = {}
        self.disk_latest = {}       # type -> event
        self.disk_parts = {}        # partition key -> {id: event}
        self.open(None)

    def open(self, conf):
        self.conf = conf
        self.mem_latest = {}        # changes
        self.mem_parts = {}
        self.mem_ids = {}
        self.latest = {}
        if conf is None:
            return
        self.latest = {
            t: e for t, e in self.disk_latest.items()
            if c17.satisfied(self.c, conf.conditions, e) and
            matches_any(t, conf.latest)}

    def get_last(self, s):
        return self.last_id.get(s, self.c.EventId(s, 0, 0))

    def admits(self, e):
        return (e.id > self.get_last(e.id.server) and
                e.timestamp >= self.last_ts.get(e.id.server,
                                                self.c.min_timestamp) and
                c17.satisfied(self.c, self.conf.conditions, e))

    def register(self, events):
        for e in events:
            if not self.admits(e):
                continue
            stored = False
            if matches_any(e.type, self.conf.latest):
                p = self.latest.get(e.type)
                if p is None or not self.newer(p, e):
                    self.latest[e.type] = e
                    self.mem_latest[e.type] = e
                    stored = True
            for p in self.unique_parts():
                if p.ts(e) is None or not matches_any(e.type, p.subs):
                    continue
                self.mem_parts.setdefault(p.key, {})[e.id] = e
                stored = True
            if stored:
                self.mem_ids[e.id] = e
                self.last_id[e.id.server] = e.id
                self.last_ts[e.id.server] = e.timestamp

    def unique_parts(self):
        seen = {}
        for p in self.conf.parts:
            seen.setdefault(p.key, p)
        return seen.values()

    def newer(self, p, e):
        """p registered before e and yet greater in natural order"""
        if p.id.server == e.id.server:
            return p.id > e.id
        return p.timestamp > e.timestamp

    def flush(self):
        self.disk_latest.update(self.mem_latest)
        for k, v in self.mem_parts.items():
            self.disk_parts.setdefault(k, {}).update(v)
        self.mem_latest, self.mem_parts, self.mem_ids = {}, {}, {}

    def disk_held(self, s):
        r = {e.id: e for e in self.disk_latest.values()}
        for p in self.disk_parts.values():
            r.update(p)
        return {k: v for k, v in r.items() if k.server == s}

    def mem_held(self, s):
        r = {e.id: e for e in self.mem_latest.values()}
        for p in self.mem_parts.values():
            r.update(p)
        return {k: v for k, v in r.items() if k.server == s}

    # ------------------------------------------------------------- queries

    def q_latest(self, types):
        return {t: e for t, e in self.latest.items()
                if types is None or matches_any(t, types)}

    def part_for(self, q):
        for p in self.conf.parts:
            if p.order_by != q.order_by.name:
                continue
            if q.event_types is None:
                return p
            if overlap(q.event_types, p.subs):
                return p

    def q_timeseries(self, q, limit=True):
        """(events, more) of the query"""
        p = self.part_for(q)
        if p is None:
            return [], False
        evs = [e for e in self.disk_parts.get(p.key, {}).values()
               if c17.satisfied(self.c, self.conf.conditions, e)]
        evs += self.mem_parts.get(p.key, {}).values()
        evs.sort(key=lambda e: (p.ts(e), e.id),
                 reverse=q.order == self.c.Order.DESCENDING)
        if q.last_event_id:
            ids = [e.id for e in evs]
            # the continuation is defined for ids of the walked result
            i = (ids.index(q.last_event_id) if q.last_event_id in ids
                 else len(ids))
            evs = evs[i + 1:]
        r = []
        for e in evs:
            if q.t_from is not None and e.timestamp < q.t_from:
                continue
            if q.t_to is not None and e.timestamp > q.t_to:
                continue
            st = e.source_timestamp
            if q.source_t_from is not None and (
                    st is None or st < q.source_t_from):
                continue
            if q.source_t_to is not None and (
                    st is None or st > q.source_t_to):
                continue
            if q.event_types is not None and not matches_any(
                    e.type, q.event_types):
                continue
            r.append(e)
        if not limit:
            return r, False
        n = self.conf.ts_max if self.conf.ts_max is not None else 4096
        if q.max_results is not None:
            n = min(n, q.max_results)
        return r[:n], len(r) > n

    def q_server(self, q):
        held = dict(self.disk_held(q.server_id))
        if not q.persisted:
            held.update(self.mem_held(q.server_id))
        r = [held[i] for i in sorted(held)
             if q.last_event_id is None or i > q.last_event_id]
        n = 4096 if q.max_results is None else min(q.max_results, 4096)
        return r[:n], len(r) > n


_types = list(all_types(ALPHA + ['x'], 3))


def overlap(qs, subs):
    return any(matches_any(t, qs) and matches_any(t, subs) for t in _types)


class History:

    def __init__(self, ctx, path):
        from hat.event.backends.lmdb import common
        self.ctx = ctx
        self.rng = ctx.rng
        self.c = common
        self.path = path
        self.model = Model(common)
        self.backend = None
        self.log = []
        self.registered = []
        self.flushed = []
        self.batches = []
        self.seq = {}
        self.clock = 0

    def d(self, **kw):
        return dict(kw, history=self.log[-60:])

    async def open(self, conf):
        from hat.event.backends import lmdb
        self.log.append(('open', conf))
        self.backend = await lmdb.info.create(
            conf.data(self.path),
            lambda e: self.registered.append(list(e)),
            lambda e: self.flushed.append(list(e)))
        self.model.open(conf)

    async def close(self):
        self.log.append(('close',))
        await self.backend.async_close()
        self.model.flush()
        self.backend = None

    def ts(self, lo=0, hi=6):
        return self.c.Timestamp(self.rng.randint(lo, hi),
                                self.rng.choice([0, 0, 500000]))

    def payload(self):
        k = self.rng.randrange(10)
        if k == 0:
            return None
        if k == 1:
            return self.c.EventPayloadBinary('t', b'1')
        return self.c.EventPayloadJson(self.rng.choice(
            [1, 1, 1, 0, True, 2.5, 'a', None, {'a': 1}, {'a': True},
             [1]]))

    def event(self, invalid=0.15):
        rng = self.rng
        s = rng.choice(SERVERS)
        last = self.seq.get(s, self.c.EventId(s, 0, 0))
        if rng.random() < 0.3:
            i = self.c.EventId(s, last.session + 1, 1)
        else:
            i = self.c.EventId(s, max(last.session, 1), last.instance + 1)
        if rng.random() < 0.3:
            self.clock += rng.choice([0, 1])
        t = self.c.Timestamp(self.clock, rng.choice([0, 0, 500000]))
        t = max(t, self.model.last_ts.get(s, t))
        if rng.random() < invalid:
            k = rng.randrange(3)
            if k == 0:
                i = rng.choice([
                    last, self.c.EventId(s, 0, 1),
                    self.c.EventId(s, last.session, 0)])
            elif k == 1:
                t = self.c.Timestamp(t.s - 1, t.us)
            else:
                i = self.c.EventId(s, last.session + 2, 1)
        if i > last:
            self.seq[s] = i
        return self.c.Event(i, event_type(rng, 2, ALPHA), t,
                            rng.choice([None, self.ts(), self.ts(),
                                        self.ts(-3, 2)]), self.payload())

    async def register(self, n=None, invalid=0.15):
        batch = [self.event(invalid)
                 for _ in range(self.rng.randint(0, 4) if n is None else n)]
        return await self.register_batch(batch)

    async def register_batch(self, batch):
        self.log.append(('register', batch))
        r = await self.backend.register(batch)
        self.ctx.check(r is not None and list(r) == batch,
                       'register returns the events it was given', got=r,
                       **self.d())
        self.model.register(batch)
        self.batches.append(batch)
        return batch

    async def flush(self):
        self.log.append(('flush',))
        await self.backend.flush()
        self.model.flush()

    # -------------------------------------------------------------- checks

    async def check_last(self):
        for s in SERVERS + (9,):
            self.ctx.eq(await self.backend.get_last_event_id(s),
                        self.model.get_last(s), f'last event id of {s}',
                        **self.d())

    def rand_types(self, empty=0.3):
        if self.rng.random() < empty:
            return None
        return [query_type(self.rng, 2, ALPHA)
                for _ in range(self.rng.randint(0, 3))]

    async def check_latest(self, types):
        from hat.event import common
        r = await self.backend.query(common.QueryLatestParams(types))
        got = list(r.events)
        want = self.model.q_latest(types)
        self.ctx.case(repr((self.log[-8:], types)))
        d = self.d(types=types, got=got, want=list(want.values()))
        self.ctx.eq(len({e.type for e in got}), len(got),
                    'latest query: one event per type', **d)
        self.ctx.check({e.type: e for e in got} == want,
                       'latest query', **d)
        self.ctx.check(not r.more_follows, 'latest query: nothing follows',
                       **d)

    def rand_ts_query(self):
        rng = self.rng
        from hat.event import common

        def o(p):
            if rng.random() > p:
                return None
            return rng.choice([
                self.ts(-1, 7), self.c.Timestamp(self.clock, 0),
                self.c.Timestamp(self.clock, 1),
                self.c.Timestamp(rng.randint(0, max(self.clock, 0)),
                                 rng.choice([0, 499999, 500000, 500001]))])
        return common.QueryTimeseriesParams(
            event_types=self.rand_types(0.5), t_from=o(0.25), t_to=o(0.25),
            source_t_from=o(0.15), source_t_to=o(0.15),
            order=rng.choice(list(common.Order)),
            order_by=rng.choice(list(common.OrderBy)))

    async def check_timeseries(self, q, what='timeseries query'):
        r = await self.backend.query(q)
        want, more = self.model.q_timeseries(q)
        self.ctx.case(repr((self.log[-8:], q)))
        d = self.d(query=q, got=list(r.events), want=want,
                   conf=self.model.conf)
        self.ctx.check(list(r.events) == want, what, **d)
        self.ctx.check(bool(r.more_follows) == more, f'{what}: more follows',
                       got_more=r.more_follows, **d)
        return want

    async def check_server(self, q):
        r = await self.backend.query(q)
        want, more = self.model.q_server(q)
        self.ctx.case(repr((self.log[-8:], q)))
        d = self.d(query=q, got=list(r.events), want=want,
                   conf=self.model.conf)
        self.ctx.check(list(r.events) == want, 'server query', **d)
        self.ctx.check(bool(r.more_follows) == more,
                       'server query: more follows', got_more=r.more_follows,
                       **d)
        return want

    async def check_servers(self, full=True):
        from hat.event import common
        for s in SERVERS + (9,):
            for persisted in (False, True):
                await self.check_server(common.QueryServerParams(
                    s, persisted, None, None))
        if not full:
            return
        rng = self.rng
        s = rng.choice(SERVERS)
        ids = list(self.model.disk_held(s)) + list(self.model.mem_held(s))
        for _ in range(4):
            last = rng.choice(ids + [None, self.c.EventId(s, 0, 0),
                                     self.c.EventId(s, 1, 3),
                                     self.c.EventId(s, 99, 0)])
            for n in {0, 1, 2, len(ids), max(0, len(ids) - 1),
                      rng.randint(0, 9)}:
                await self.check_server(common.QueryServerParams(
                    s, rng.random() < 0.3, n, last))

    async def snapshot(self):
        """every answer, for comparing before and after"""
        from hat.event import common
        r = {}
        for s in SERVERS:
            r['last', s] = await self.backend.get_last_event_id(s)
            r['server', s] = list((await self.backend.query(
                common.QueryServerParams(s))).events)
        r['latest'] = sorted(
            (await self.backend.query(common.QueryLatestParams())).events,
            key=lambda e: e.type)
        for o in common.OrderBy:
            for t in (None, [('a', '*')], [('b', '*')], [('?',)]):
                r['ts', o, repr(t)] = list((await self.backend.query(
                    common.QueryTimeseriesParams(
                        t, order=common.Order.ASCENDING,
                        order_by=o))).events)
        return r


async def run_history(ctx, steps, check, conf=None, confs=None,
                      restart=0.08, reconf=0.5, flush=0.25, invalid=0.15,
                      batch=None):
    """random history; `check(h)` is awaited after every step"""
    rng = ctx.rng
    confs = confs or (lambda: rand_conf(rng))
    with ctx.tmp() as d:
        h = History(ctx, d / 'db')
        try:
            await h.open(conf or confs())
            for _ in range(steps):
                k = rng.random()
                if k < restart:
                    await h.close()
                    await h.open(confs() if rng.random() < reconf
                                 else h.model.conf)
                elif k < restart + flush:
                    await h.flush()
                else:
                    await h.register(batch, invalid)
                await check(h)
        finally:
            if h.backend is not None:
                await h.backend.async_close()
    return h


__all__ = ['History', 'run_history', 'rand_conf', 'Part', 'Conf', 'settle',
           'asyncio']
