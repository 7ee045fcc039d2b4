"""Random 0.7 databases (<= 40 events, written by an encoder of the frozen 0.7
format kept here) converted by the real conversion, and random current
databases copied by the real copy with every combination of skips, compared
table by table in a scratch directory."""

import argparse
import struct

from refute.common import (event_type, json_data, timestamp)

V07_SCHEMA = r"""
module HatEventer
Timestamp = Record { s: Integer  us: Integer }
EventId = Record { server: Integer  session: Integer  instance: Integer }
EventType = Array(String)
EventPayload = Choice {
    binary:  Bytes
    json:    String
    sbs:     Record { module: Optional(String)  type: String  data: Bytes }
}
Event = Record {
    id:               EventId
    type:             EventType
    timestamp:        Timestamp
    sourceTimestamp:  Optional(Timestamp)
    payload:          Optional(EventPayload)
}
"""

V07_DBS = ['SYSTEM', 'LATEST_DATA', 'LATEST_TYPE', 'ORDERED_DATA',
           'ORDERED_PARTITION', 'ORDERED_COUNT', 'REF']


def u(v):
    return struct.pack('>Q', v)


def eid(v):
    return struct.pack('>QQQ', *v)


def tsb(v):
    return struct.pack('>QI', v[0] + 2 ** 63, v[1])


def run(ctx):
    import lmdb
    from hat import json, sbs
    from hat.event.backends.lmdb import common as lc
    from hat.event.backends.lmdb.convert import main as conv
    from hat.event.backends.lmdb.convert import version as ver
    from hat.event.backends.lmdb.manager import copy as cp
    from hat.event.backends.lmdb.manager import main as mgr
    rng = ctx.rng
    repo = sbs.Repository(V07_SCHEMA)
    ctx.rule = 'one case per database contents'

    def opt(v):
        return ('none', None) if v is None else ('value', v)

    def ts(t):
        return {'s': t[0], 'us': t[1]}

    def big(rng):
        return rng.choice([0, 1, 2, 255, 256, 2 ** 32, 2 ** 63 - 1,
                           rng.randint(0, 500)])

    def rand_payload():
        k = rng.randrange(5)
        data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 9])))
        if k == 0:
            return None
        if k == 1:
            return ('binary', data)
        if k in (2, 3):
            return ('json', json_data(rng))
        return ('sbs', (rng.choice([None, 'Mod', 'A.B', '']),
                        rng.choice(['T', 'x', '']), data))

    def payload_sbs(p):
        if p is None:
            return ('none', None)
        k, d = p
        if k == 'json':
            d = json.encode(d)
        elif k == 'sbs':
            d = {'module': opt(d[0]), 'type': d[1], 'data': d[2]}
        return ('value', (k, d))

    def want_payload(p):
        if p is None:
            return None
        k, d = p
        if k == 'binary':
            return ('bin', '', d)
        if k == 'json':
            return ('json', repr(d))
        return ('bin', d[1] if d[0] is None else f'{d[0]}.{d[1]}', d[2])

    def got_payload(p):
        if p is None:
            return None
        if isinstance(p, lc.EventPayloadBinary):
            return ('bin', p.type, bytes(p.data))
        return ('json', repr(p.data))

    def plain(e):
        return (tuple(e.id), tuple(e.type), tuple(e.timestamp),
                None if e.source_timestamp is None
                else tuple(e.source_timestamp), got_payload(e.payload))

    def rand_event():
        return {'id': (rng.choice([1, 2, 2 ** 40]), big(rng), big(rng)),
                'type': event_type(rng, 3, ['a', 'b', '', 'é']),
                't': tuple(timestamp(rng, lc)),
                'st': (tuple(timestamp(rng, lc))
                       if rng.random() < 0.5 else None),
                'p': rand_payload()}

    def enc_event(e):
        return repo.encode('HatEventer.Event', {
            'id': dict(zip(['server', 'session', 'instance'], e['id'])),
            'type': list(e['type']), 'timestamp': ts(e['t']),
            'sourceTimestamp': opt(e['st'] and ts(e['st'])),
            'payload': payload_sbs(e['p'])})

    def want_event(e):
        return (e['id'], e['type'], e['t'], e['st'], want_payload(e['p']))

    def read_all(path):
        out = {}
        with lmdb.Environment(str(path), map_size=2 ** 30, subdir=False,
                              max_dbs=9, readonly=True) as env:
            dbs = {t: env.open_db(t.name.encode(), create=False)
                   for t in lc.DbType}
            with env.begin() as txn:
                for t in lc.DbType:
                    out[t] = dict(txn.cursor(db=dbs[t]))
        return out

    def decoded(raw):
        return {t: {lc.db_defs[t].decode_key(k): lc.db_defs[t].decode_value(v)
                    for k, v in raw[t].items()} for t in lc.DbType}

    def conversion(d):
        src, dst = d / 'src.db', d / 'dst.db'
        evs = {}
        for _ in range(rng.choice([0, 1, 5, 20])):
            e = rand_event()
            evs[e['id']] = e
        evs = list(evs.values())
        parts = {}
        for i in range(rng.randint(0, 3)):
            parts[rng.choice([i + 1, big(rng)])] = {
                'order': rng.choice([1, 2]),
                'subscriptions': [rng.choice([['*'], ['a', '?'], []])
                                  for _ in range(rng.randint(0, 2))]}
        latest, ltypes, data, refs, last, counts = {}, {}, {}, {}, {}, {}
        for e in evs:
            refs_e = []
            if rng.random() < 0.5:
                ref = rng.choice([len(latest) + 1, 2 ** 40 + len(latest)])
                latest[ref] = e
                ltypes[ref] = e['type']
                refs_e.append(('l', ref))
            for p in parts:
                t = e['t'] if parts[p]['order'] == 1 else e['st']
                if t is not None and rng.random() < 0.7:
                    data[p, t, e['id']] = e
                    counts[p] = counts.get(p, 0) + 1
                    refs_e.append(('o', (p, t, e['id'])))
            if refs_e or rng.random() < 0.1:
                refs[e['id']] = refs_e
            s = e['id'][0]
            if s not in last or last[s][0] < e['id']:
                last[s] = e['id'], e['t']
        with lmdb.Environment(str(src), map_size=2 ** 30, subdir=False,
                              max_dbs=7) as env:
            dbs = {n: env.open_db(n.encode()) for n in V07_DBS}
            with env.begin(write=True) as txn:
                def put(n, k, v):
                    txn.put(k, v, db=dbs[n])
                for s, (i, t) in last.items():
                    put('SYSTEM', u(s), eid(i) + tsb(t))
                for r, e in latest.items():
                    put('LATEST_DATA', u(r), enc_event(e))
                for r, t in ltypes.items():
                    put('LATEST_TYPE', u(r), json.encode(
                        list(t)).encode())
                for (p, t, i), e in data.items():
                    put('ORDERED_DATA', u(p) + tsb(t) + eid(i),
                        enc_event(e))
                for p, v in parts.items():
                    put('ORDERED_PARTITION', u(p), json.encode(v).encode())
                for p, v in counts.items():
                    put('ORDERED_COUNT', u(p), u(v))
                for i, rs in refs.items():
                    put('REF', eid(i), b''.join(
                        bytes([1]) + u(r) if k == 'l' else
                        bytes([3]) + u(r[0]) + tsb(r[1]) + eid(r[2])
                        for k, r in rs))
        ctx.eq(ver.get_version(src), ver.Version.v07, 'version of a 0.7 '
               'database')
        conv.convert(src, dst)
        ctx.eq(ver.get_version(dst).value, '0.9', 'version of the result')
        raw = read_all(dst)
        got = decoded(raw)
        T = lc.DbType
        ctx.eq(got[T.SYSTEM_SETTINGS], {lc.SettingsId.VERSION: '0.9'},
               'settings')
        ctx.eq({k: tuple(v) for k, v in got[T.SYSTEM_LAST_EVENT_ID].items()},
               {k: v[0] for k, v in last.items()}, 'last event ids')
        ctx.eq({k: tuple(v) for k, v in
                got[T.SYSTEM_LAST_TIMESTAMP].items()},
               {k: v[1] for k, v in last.items()}, 'last timestamps')
        ctx.eq({k: plain(v) for k, v in got[T.LATEST_DATA].items()},
               {k: want_event(v) for k, v in latest.items()}, 'latest')
        ctx.eq(got[T.LATEST_TYPE], ltypes, 'latest types')
        ctx.eq({(p, tuple(t), tuple(i)): plain(v) for (p, t, i), v in
                got[T.TIMESERIES_DATA].items()},
               {k: want_event(v) for k, v in data.items()}, 'timeseries')
        name = {1: 'TIMESTAMP', 2: 'SOURCE_TIMESTAMP'}
        ctx.eq(got[T.TIMESERIES_PARTITION],
               {p: {'order': lc.OrderBy[name[v['order']]].value,
                    'subscriptions': v['subscriptions']}
                for p, v in parts.items()}, 'partitions')
        ctx.eq(got[T.TIMESERIES_COUNT], counts, 'counts')
        ctx.eq({tuple(k): {('l', r.key) if isinstance(r, lc.LatestEventRef)
                           else ('o', (r.key[0], tuple(r.key[1]),
                                       tuple(r.key[2]))) for r in v}
                for k, v in got[T.REF].items()},
               {k: set(v) for k, v in refs.items()}, 'references')
        ctx.case(repr((evs, parts)))

    def rand_v09():
        """contents of a current database"""
        out = {t: {} for t in lc.DbType}
        T = lc.DbType
        out[T.SYSTEM_SETTINGS][lc.SettingsId.VERSION] = '0.9'
        if rng.random() < 0.5:
            out[T.SYSTEM_SETTINGS][lc.SettingsId.IDENTIFIER] = rng.choice(
                [None, 'x'])
        for i in range(rng.randint(0, 4)):
            out[T.SYSTEM_LAST_EVENT_ID][i] = lc.EventId(i, big(rng),
                                                        big(rng))
            out[T.SYSTEM_LAST_TIMESTAMP][i] = timestamp(rng, lc)
        for i in range(rng.randint(0, 3)):
            out[T.TIMESERIES_PARTITION][i + 1] = {
                'order': rng.choice(list(lc.OrderBy)).value,
                'subscriptions': [['*']]}
        for _ in range(rng.choice([0, 1, 8, 30])):
            r = rand_event()
            p = want_payload(r['p'])
            e = lc.Event(lc.EventId(*r['id']), r['type'],
                         lc.Timestamp(*r['t']),
                         r['st'] and lc.Timestamp(*r['st']),
                         p and (lc.EventPayloadBinary(p[1], p[2])
                                if p[0] == 'bin' else
                                lc.EventPayloadJson(r['p'][1])))
            refs = set()
            if rng.random() < 0.5:
                k = len(out[T.LATEST_DATA]) + 1
                out[T.LATEST_DATA][k] = e
                out[T.LATEST_TYPE][k] = e.type
                refs.add(lc.LatestEventRef(k))
            for p in out[T.TIMESERIES_PARTITION]:
                if rng.random() < 0.6:
                    key = p, e.timestamp, e.id
                    out[T.TIMESERIES_DATA][key] = e
                    out[T.TIMESERIES_COUNT][p] = out[
                        T.TIMESERIES_COUNT].get(p, 0) + 1
                    refs.add(lc.TimeseriesEventRef(key))
            if refs:
                out[T.REF][e.id] = refs
        return out

    def copying(d):
        src = d / 'src.db'
        data = rand_v09()
        T = lc.DbType
        with lmdb.Environment(str(src), map_size=2 ** 30, subdir=False,
                              max_dbs=9) as env:
            dbs = {t: env.open_db(t.name.encode()) for t in lc.DbType}
            with env.begin(write=True) as txn:
                for t, kv in data.items():
                    for k, v in kv.items():
                        txn.put(lc.db_defs[t].encode_key(k),
                                lc.db_defs[t].encode_value(v), db=dbs[t])
        before = read_all(src)
        skips = [(a, b) for a in (False, True) for b in (False, True)]
        for i, (sl, st) in enumerate(skips):
            dst = d / f'dst{i}.db'
            cp.copy(argparse.Namespace(src_path=src, dst_path=dst,
                                       skip_latest=sl, skip_timeseries=st))
            raw = read_all(dst)
            skipped = set()
            if sl:
                skipped |= {T.LATEST_DATA, T.LATEST_TYPE}
            if st:
                skipped |= {T.TIMESERIES_DATA, T.TIMESERIES_PARTITION,
                            T.TIMESERIES_COUNT}
            for t in lc.DbType:
                if t in skipped:
                    ctx.eq(raw[t], {}, 'skipped table', table=t)
                elif t == T.REF and (sl or st):
                    want = {}
                    for k, v in data[t].items():
                        v = {r for r in v if not (
                            sl if isinstance(r, lc.LatestEventRef)
                            else st)}
                        if v:
                            want[k] = v
                    ctx.eq(decoded(raw)[t], want, 'references to what was '
                           'kept', skip_latest=sl, skip_timeseries=st)
                else:
                    ctx.eq(raw[t], before[t], 'table copied exactly',
                           table=t, skip_latest=sl, skip_timeseries=st)
            if i == 0:
                try:
                    cp.copy(argparse.Namespace(
                        src_path=src, dst_path=dst, skip_latest=sl,
                        skip_timeseries=st))
                except Exception:
                    pass
                ctx.eq(read_all(dst), raw, 'existing destination stays')
        ctx.eq(read_all(src), before, 'source stays')
        ctx.case(repr(data))

    def args():
        p = argparse.ArgumentParser()
        cp.create_argument_parser(p.add_subparsers(dest='action'))
        for sl in (False, True):
            for st in (False, True):
                a = p.parse_args(['copy'] + ['--skip-latest'] * sl +
                                 ['--skip-timeseries'] * st + ['a', 'b'])
                ctx.check(a.skip_latest is sl and a.skip_timeseries is st and
                          str(a.src_path) == 'a' and str(a.dst_path) == 'b',
                          'arguments of copy', got=a)
    def command():
        """the command line of the manager"""
        import sys
        argv = sys.argv
        with ctx.tmp() as d:
            with lmdb.Environment(str(d / 'a'), map_size=2 ** 20,
                                  subdir=False, max_dbs=9) as env:
                for t in lc.DbType:
                    db = env.open_db(t.name.encode())
                    if t == lc.DbType.SYSTEM_SETTINGS:
                        with env.begin(write=True, db=db) as txn:
                            txn.put(lc.db_defs[t].encode_key(
                                lc.SettingsId.VERSION),
                                lc.db_defs[t].encode_value('0.9'))
            try:
                sys.argv = ['manager', 'copy', str(d / 'a'), str(d / 'b')]
                mgr.main()
            finally:
                sys.argv = argv
            ctx.check((d / 'b').exists() and
                      read_all(d / 'b') == read_all(d / 'a'),
                      'copy command copies the database')

    args()
    command()
    for r in ctx.rounds(10):
        with ctx.tmp() as d:
            conversion(d)
        with ctx.tmp() as d:
            copying(d)
