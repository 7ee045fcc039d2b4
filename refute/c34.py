"""Random databases (<= 12 rows per table) queried by the real database
manager command line, with random filters, in a scratch directory; printed
results compared with the written rows."""

import contextlib
import io
import json as pyjson
import sys

from refute.common import (Violation, event_type, query_type, json_data,
                           timestamp, matches_any)


def run(ctx):
    import lmdb
    from hat.event.backends.lmdb import common as lc
    from hat.event.backends.lmdb.manager import main as mgr
    rng = ctx.rng
    ctx.rule = 'one case per query of a database'
    D = lc.DbType
    SERVERS = [0, 1, 2, 2 ** 40, 2 ** 63 - 1]

    def eid():
        return lc.EventId(rng.choice(SERVERS), rng.randint(0, 9),
                          rng.choice([0, 1, 2 ** 62, rng.randint(0, 99)]))

    def event():
        k = rng.randrange(4)
        p = None
        if k == 1:
            p = lc.EventPayloadBinary(rng.choice(['', 'a', 'é']), bytes(
                rng.randrange(256) for _ in range(rng.choice([0, 1, 9]))))
        elif k > 1:
            p = lc.EventPayloadJson(json_data(rng))
        return lc.Event(id=eid(), type=event_type(rng, 3),
                        timestamp=timestamp(rng, lc),
                        source_timestamp=timestamp(rng, lc)
                        if rng.random() < 0.5 else None, payload=p)

    def j_id(i):
        return {'server': i.server, 'session': i.session,
                'instance': i.instance}

    def j_ts(t):
        return {'s': t.s, 'us': t.us}

    def j_event(e):
        p = e.payload
        if isinstance(p, lc.EventPayloadBinary):
            p = {'type': 'BINARY', 'subtype': p.type,
                 'data': bytes(p.data).hex()}
        elif p is not None:
            p = {'type': 'JSON', 'data': p.data}
        return {'id': j_id(e.id), 'type': list(e.type),
                'timestamp': j_ts(e.timestamp),
                'source_timestamp': e.source_timestamp and
                j_ts(e.source_timestamp), 'payload': p}

    def database(path):
        t = {i: {} for i in D}
        t[D.SYSTEM_SETTINGS][lc.SettingsId.VERSION] = '0.9'
        for s in rng.sample(SERVERS, rng.randint(0, len(SERVERS))):
            t[D.SYSTEM_LAST_EVENT_ID][s] = eid()._replace(server=s)
            t[D.SYSTEM_LAST_TIMESTAMP][s] = timestamp(rng, lc)
        for p in rng.sample([0, 1, 2, 2 ** 50], rng.randint(0, 4)):
            t[D.TIMESERIES_PARTITION][p] = {'order': rng.choice([1, 2]),
                                            'subscriptions': [['*']]}
        for _ in range(rng.randint(0, 12)):
            e = event()
            refs = set()
            if rng.random() < 0.6:
                ref = rng.choice([0, 2 ** 60]) + len(t[D.LATEST_DATA])
                t[D.LATEST_DATA][ref] = e
                t[D.LATEST_TYPE][ref] = e.type
                refs.add(lc.LatestEventRef(ref))
            for p in t[D.TIMESERIES_PARTITION]:
                if rng.random() < 0.5:
                    k = p, rng.choice([e.timestamp, timestamp(rng, lc)]), e.id
                    t[D.TIMESERIES_DATA][k] = e
                    refs.add(lc.TimeseriesEventRef(k))
            if refs:
                t[D.REF][e.id] = refs
        raw = {}
        with lmdb.Environment(str(path), map_size=2 ** 28, subdir=False,
                              max_dbs=len(D)) as env:
            dbs = {i: env.open_db(i.name.encode()) for i in D}
            with env.begin(write=True) as txn:
                for i in D:
                    d = lc.db_defs[i]
                    raw[i] = sorted(((bytes(d.encode_key(k)), k, v)
                                     for k, v in t[i].items()),
                                    key=lambda x: x[0])
                    for kb, k, v in raw[i]:
                        txn.put(kb, bytes(d.encode_value(v)), db=dbs[i])
        return {i: [(k, v) for _, k, v in raw[i]] for i in D}

    def command(path, args):
        out, err = io.StringIO(), io.StringIO()
        argv = sys.argv
        sys.argv = ['hat-event-lmdb-manager', 'query', '--db', str(path),
                    *args]
        try:
            with contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(err):
                mgr.main()
        except SystemExit as e:
            raise Violation('query is refused', args=args,
                            error=err.getvalue(), code=e.code)
        except Exception as e:
            raise Violation('query fails', args=args, error=repr(e))
        finally:
            sys.argv = argv
        return [pyjson.loads(i) for i in out.getvalue().splitlines()]

    def maybe(vs):
        return rng.choice(vs) if rng.random() < 0.6 else None

    def query(t):
        k = rng.choice(['settings', 'last_event_id', 'last_timestamp', 'ref',
                        'latest', 'partition', 'timeseries'])
        args = [k]
        s = p = ts = None
        if k in ('last_event_id', 'last_timestamp', 'ref', 'timeseries'):
            s = maybe(SERVERS)
        if k in ('partition', 'timeseries'):
            p = maybe([0, 1, 2, 2 ** 50, 7])
        if k in ('latest', 'timeseries') and rng.random() < 0.7:
            ts = [q for q in (query_type(rng, 3) for _ in range(
                rng.randint(0, 2))) if q]
        if s is not None:
            args += ['--server-id', str(s)]
        if p is not None:
            args += ['--partition-id', str(p)]
        if ts is not None:
            args += ['--event-types', *['/'.join(q) for q in ts]]

        def ok(f, v):
            return f is None or f == v

        def typ(e):
            return ts is None or matches_any(e.type, ts)
        if k == 'settings':
            want = [{'settings_id': i.name, 'data': v}
                    for i, v in t[D.SYSTEM_SETTINGS]]
        elif k == 'last_event_id':
            want = [j_id(v) for i, v in t[D.SYSTEM_LAST_EVENT_ID]
                    if ok(s, i)]
        elif k == 'last_timestamp':
            want = [j_ts(v) for i, v in t[D.SYSTEM_LAST_TIMESTAMP]
                    if ok(s, i)]
        elif k == 'ref':
            lt = dict(t[D.LATEST_TYPE])
            want = []
            for i, refs in t[D.REF]:
                if not ok(s, i.server):
                    continue
                for r in refs:
                    if isinstance(r, lc.LatestEventRef):
                        want.append({'event_id': j_id(i),
                                     'ref_type': 'latest',
                                     'event_type': list(lt[r.key])})
                    else:
                        want.append({'event_id': j_id(i),
                                     'ref_type': 'timeseries',
                                     'partition_id': r.key[0],
                                     'timestamp': j_ts(r.key[1])})
        elif k == 'latest':
            want = [j_event(e) for _, e in t[D.LATEST_DATA] if typ(e)]
        elif k == 'partition':
            want = [{'partition_id': i, 'data': v}
                    for i, v in t[D.TIMESERIES_PARTITION] if ok(p, i)]
        else:
            want = [j_event(e) for (i, _, n), e in t[D.TIMESERIES_DATA]
                    if ok(p, i) and ok(s, n.server) and typ(e)]
        return args, want

    for _ in ctx.rounds(12):
        with ctx.tmp() as d:
            path = d / 'event.db'
            t = database(path)
            before = path.read_bytes() if path.stat().st_size < 2 ** 22 \
                else None
            for _ in range(12):
                args, want = query(t)
                got = command(path, args)
                if args[0] == 'ref':    # references of an event are a set
                    def key(i):
                        return (list(i['event_id'].values()), repr(i))
                    ids = [i['event_id'] for i in got]
                    ctx.eq(ids, [i['event_id'] for i in want],
                           'order of results', args=args)
                    got, want = sorted(got, key=key), sorted(want, key=key)
                ctx.eq(got, want, 'results of the query', args=args)
                ctx.case(repr((args, want)))
            if before is not None:
                ctx.check(path.read_bytes() == before,
                          'database is not changed')
