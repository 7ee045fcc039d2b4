"""Random 0.6 databases (<= 30 events of up to three servers, written by an
encoder of the frozen 0.6 format kept here) converted by the real conversion,
compared table by table with the expected contents in a scratch directory."""

import struct

from refute.common import event_type, json_data, timestamp

V06_SCHEMA = r"""
module HatEvent
Timestamp = Record { s: Integer  us: Integer }
EventId = Record { server: Integer  instance: Integer }
EventType = Array(String)
EventPayload = Choice {
    binary:  Bytes
    json:    String
    sbs:     Record { module: Optional(String)  type: String  data: Bytes }
}
Event = Record {
    id:               EventId
    type:             EventType
    timestamp:        Timestamp
    sourceTimestamp:  Optional(Timestamp)
    payload:          Optional(EventPayload)
}
"""


def u(v):
    return struct.pack('>Q', v)


def tsb(v):
    return struct.pack('>QI', v[0] + 2 ** 63, v[1])


def run(ctx):
    import lmdb
    from hat import json, sbs
    from hat.event.backends.lmdb import common as lc
    from hat.event.backends.lmdb.convert import main as conv
    from hat.event.backends.lmdb.convert import version as ver
    rng = ctx.rng
    repo = sbs.Repository(V06_SCHEMA)
    ctx.rule = 'one case per database contents'

    def opt(v):
        return ('none', None) if v is None else ('value', v)

    def ts(t):
        return {'s': t[0], 'us': t[1]}

    def rand_payload():
        k = rng.randrange(5)
        data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 9])))
        if k == 0:
            return None
        if k == 1:
            return ('binary', data)
        if k in (2, 3):
            return ('json', json_data(rng))
        return ('sbs', (rng.choice([None, 'Mod', 'A.B', '']),
                        rng.choice(['T', 'x', '']), data))

    def payload_sbs(p):
        if p is None:
            return ('none', None)
        k, d = p
        if k == 'json':
            d = json.encode(d)
        elif k == 'sbs':
            d = {'module': opt(d[0]), 'type': d[1], 'data': d[2]}
        return ('value', (k, d))

    def want_payload(p):
        if p is None:
            return None
        k, d = p
        if k == 'binary':
            return ('bin', '', d)
        if k == 'json':
            return ('json', repr(d))
        return ('bin', d[1] if d[0] is None else f'{d[0]}.{d[1]}', d[2])

    def got_payload(p):
        if p is None:
            return None
        if isinstance(p, lc.EventPayloadBinary):
            return ('bin', p.type, bytes(p.data))
        return ('json', repr(p.data))

    def plain(e):
        return (tuple(e.id), tuple(e.type), tuple(e.timestamp),
                None if e.source_timestamp is None
                else tuple(e.source_timestamp), got_payload(e.payload))

    def enc_event(e):
        return repo.encode('HatEvent.Event', {
            'id': dict(zip(['server', 'instance'], e['id'])),
            'type': list(e['type']), 'timestamp': ts(e['t']),
            'sourceTimestamp': opt(e['st'] and ts(e['st'])),
            'payload': payload_sbs(e['p'])})

    def read(path):
        with lmdb.Environment(str(path), map_size=2 ** 30, subdir=False,
                              max_dbs=9, readonly=True) as env:
            dbs = {t: env.open_db(t.name.encode(), create=False)
                   for t in lc.DbType}
            with env.begin() as txn:
                return {t: {lc.db_defs[t].decode_key(k):
                            lc.db_defs[t].decode_value(v)
                            for k, v in txn.cursor(db=dbs[t])}
                        for t in lc.DbType}

    def read06(path):
        with lmdb.Environment(str(path), map_size=2 ** 30, subdir=False,
                              max_dbs=5, readonly=True) as env:
            with env.begin() as txn:
                return {k: dict(txn.cursor(db=env.open_db(k, txn=txn,
                                                          create=False)))
                        for k in (b'system', b'latest', b'ordered_data',
                                  b'ordered_partition', b'ordered_count')}

    def conversion(d):
        src, dst = d / 'src.db', d / 'dst.db'
        local = rng.choice([0, 1, 1, 2, 7])
        others = [i for i in (2, 3, 2 ** 40) if i != local]
        rng.shuffle(others)
        others = others[:rng.choice([0, 0, 1, 2])]
        evs, n, now = [], {}, timestamp(rng, lc)
        now = now._replace(s=min(now.s, 2 ** 62))
        for _ in range(rng.choice([0, 1, 3, 8, 30])):
            s = rng.choice([local, local, *others])
            n[s] = n.get(s, rng.choice([0, 0, 5, 2 ** 33])) + rng.randint(
                1, 3)
            if rng.random() < 0.7:
                now = now._replace(s=now.s + rng.randint(0, 2),
                                   us=rng.choice([now.us, 999999]))
            evs.append({'id': (s, n[s]),
                        'type': event_type(rng, 2, ['a', 'b', '', 'é']),
                        't': tuple(now),
                        'st': (tuple(timestamp(rng, lc))
                               if rng.random() < 0.5 else None),
                        'p': rand_payload()})
        parts = {}
        for i in range(rng.randint(0, 3)):
            parts[i + 1] = {
                'order': rng.choice([1, 2]),
                'subscriptions': [rng.choice([['*'], ['a', '?'], []])
                                  for _ in range(rng.randint(0, 2))]}
        latest, data, counts = {}, {}, {}
        for e in evs:
            if rng.random() < 0.6:
                latest[e['type']] = e
            for p in parts:
                t = e['t'] if parts[p]['order'] == 1 else e['st']
                if t is not None and rng.random() < 0.6:
                    data[p, t, e['id']] = e
        # 0.6 keys have no server
        used = {}
        data = {k: e for k, e in data.items()
                if used.setdefault((k[0], k[1], k[2][1]), k) == k}
        for p, _, __ in data:
            counts[p] = counts.get(p, 0) + 1
        with lmdb.Environment(str(src), map_size=2 ** 30, subdir=False,
                              max_dbs=5) as env:
            dbs = {i: env.open_db(i.encode()) for i in (
                'system', 'latest', 'ordered_data', 'ordered_partition',
                'ordered_count')}
            with env.begin(write=True) as txn:
                def put(name, k, v):
                    txn.put(k, v, db=dbs[name])
                put('system', b'server_id', u(local))
                put('system', b'last_instance_id', u(n.get(local, 0)))
                put('system', b'last_timestamp', tsb(now))
                for t, e in latest.items():
                    put('latest', json.encode(list(t)).encode(),
                        enc_event(e))
                for (p, t, i), e in data.items():
                    put('ordered_data', u(p) + tsb(t) + u(i[1]),
                        enc_event(e))
                for p, v in parts.items():
                    put('ordered_partition', u(p), json.encode(v).encode())
                for p, v in counts.items():
                    put('ordered_count', u(p), json.encode(v).encode())
        before = read06(src)
        ctx.eq(ver.get_version(src), ver.Version.v06, 'version of a 0.6 '
               'database')
        conv.convert(src, dst)
        ctx.eq(read06(src), before, 'source stays')
        ctx.eq(sorted(i.name for i in d.iterdir() if '-lock' not in i.name),
               ['dst.db', 'src.db'], 'no intermediate database is left')
        own = local or 1

        def nid(i):
            return (i[0] or own, i[1], i[1])

        def want(e):
            return (nid(e['id']), e['type'], e['t'], e['st'],
                    want_payload(e['p']))
        T = lc.DbType
        got = read(dst)
        info = dict(local=local, events=evs, latest=sorted(latest),
                    timeseries=sorted(data))
        gl, gt = got[T.LATEST_DATA], got[T.LATEST_TYPE]
        ctx.eq(sorted(repr(plain(e)) for e in gl.values()),
               sorted(repr(want(e)) for e in latest.values()), 'latest',
               **info)
        ctx.eq(gt, {r: e.type for r, e in gl.items()},
               'types of latest events', **info)
        ctx.eq({(p, tuple(t), tuple(i)): plain(v) for (p, t, i), v in
                got[T.TIMESERIES_DATA].items()},
               {(p, t, nid(i)): want(e) for (p, t, i), e in data.items()},
               'timeseries', **info)
        name = {1: 'TIMESTAMP', 2: 'SOURCE_TIMESTAMP'}
        ctx.eq(got[T.TIMESERIES_PARTITION],
               {p: {'order': lc.OrderBy[name[v['order']]].value,
                    'subscriptions': v['subscriptions']}
                for p, v in parts.items()}, 'partitions', **info)
        ctx.eq(got[T.TIMESERIES_COUNT], counts, 'counts', **info)
        refs, last = {}, {}
        for r, e in gl.items():
            refs.setdefault(tuple(e.id), set()).add(('l', r))
        for p, t, i in data:
            refs.setdefault(nid(i), set()).add(('o', (p, t, nid(i))))
        ctx.eq({tuple(k): {('l', r.key) if isinstance(r, lc.LatestEventRef)
                           else ('o', (r.key[0], tuple(r.key[1]),
                                       tuple(r.key[2]))) for r in v}
                for k, v in got[T.REF].items()}, refs, 'references', **info)
        for e in [*latest.values(), *data.values()]:
            i = nid(e['id'])
            last[i[0]] = max(last.get(i[0], (i, e['t'])), (i, e['t']))
        ctx.eq({k: tuple(v) for k, v in got[T.SYSTEM_LAST_EVENT_ID].items()},
               {k: v[0] for k, v in last.items()}, 'last event ids', **info)
        ctx.eq({k: tuple(v) for k, v in
                got[T.SYSTEM_LAST_TIMESTAMP].items()},
               {k: v[1] for k, v in last.items()}, 'last timestamps', **info)
        ctx.case(repr((local, evs, parts)))

    for r in ctx.rounds(10):
        with ctx.tmp() as d:
            conversion(d)
