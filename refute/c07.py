"""Stored keys and values of every table: roundtrip, order and injectivity on
boundary and random values (reference sets of up to 12 references)."""

from refute.common import event, event_id, event_type, json_data, timestamp

M = 2 ** 64 - 1


def run(ctx):
    from hat.event import common as ecommon
    from hat.event.backends.lmdb import common
    rng = ctx.rng
    D = common.DbType
    ctx.rule = 'random keys/values of each table; distinct keys'

    def uint():
        return rng.choice([0, 1, 255, 256, 65535, 2 ** 32 - 1, 2 ** 32,
                           2 ** 63, M, rng.randint(0, M),
                           rng.randint(0, 1000)])

    def eid():
        return common.EventId(uint(), uint(), uint())

    def ts():
        return timestamp(rng, common)

    def tskey():
        return (uint(), ts(), eid())

    def ev():
        m = 2 ** 63 - 1
        e = event(rng, common)
        return e._replace(id=common.EventId(*(min(i, m) for i in e.id)))

    def refs():
        s = set()
        for _ in range(rng.choice([0, 1, 1, 2, 3, 12])):
            s.add(common.LatestEventRef(uint()) if rng.random() < 0.5 else
                  common.TimeseriesEventRef(tskey()))
        return s

    def norm(v):
        if isinstance(v, common.Event):
            p = v.payload
            if isinstance(p, common.EventPayloadBinary):
                return v._replace(payload=p._replace(data=bytes(p.data)))
        return v

    keys = {D.SYSTEM_SETTINGS: lambda: rng.choice(list(common.SettingsId)),
            D.SYSTEM_LAST_EVENT_ID: uint, D.SYSTEM_LAST_TIMESTAMP: uint,
            D.REF: eid, D.LATEST_DATA: uint, D.LATEST_TYPE: uint,
            D.TIMESERIES_DATA: tskey, D.TIMESERIES_PARTITION: uint,
            D.TIMESERIES_COUNT: uint}
    values = {D.SYSTEM_SETTINGS: lambda: json_data(rng),
              D.SYSTEM_LAST_EVENT_ID: eid, D.SYSTEM_LAST_TIMESTAMP: ts,
              D.REF: refs, D.LATEST_DATA: ev,
              D.LATEST_TYPE: lambda: event_type(rng, 4, ['a', '', 'ž"\n']),
              D.TIMESERIES_DATA: ev,
              D.TIMESERIES_PARTITION: lambda: json_data(rng),
              D.TIMESERIES_COUNT: uint}
    ctx.eq(set(common.db_defs), set(D), 'every table is defined')
    ctx.eq(len({t.value for t in D}), len(list(D)), 'distinct table ids')

    def mutate(k):
        if isinstance(k, common.EventId):
            i = rng.randrange(3)
            return common.EventId(*(uint() if j == i else v
                                    for j, v in enumerate(k)))
        if isinstance(k, tuple):
            i = rng.randrange(3)
            return (uint() if i == 0 else k[0],
                    (common.Timestamp(k[1].s, rng.choice([0, 255, 256, 65536,
                                                          999999]))
                     if rng.random() < 0.5 else ts()) if i == 1 else k[1],
                    mutate(k[2]) if i == 2 else k[2])
        return uint()

    for r in ctx.rounds(700):
        for t in D:
            d = common.db_defs[t]
            a, b = keys[t](), keys[t]()
            if t != D.SYSTEM_SETTINGS and rng.random() < 0.6:
                b = mutate(a)
            ea, eb = bytes(d.encode_key(a)), bytes(d.encode_key(b))
            back = d.decode_key(memoryview(ea) if r % 2 else ea)
            ctx.case((t.name, ea))
            ctx.eq(back, a, f'{t.name} key roundtrip', key=a)
            ctx.eq(ea == eb, a == b, f'{t.name} keys distinct', a=a, b=b)
            if t != D.SYSTEM_SETTINGS:
                ctx.eq(ea < eb, a < b, f'{t.name} key order', a=a, b=b)
            v = values[t]()
            enc = bytes(d.encode_value(v))
            back = norm(d.decode_value(memoryview(enc) if r % 2 else enc))
            ctx.eq(back, v, f'{t.name} value roundtrip', value=v)
            ctx.eq(repr(back) if t != D.REF else 0,
                   repr(v) if t != D.REF else 0,
                   f'{t.name} value exact', value=v)
            if t == D.REF:
                ctx.eq({(type(i), i) for i in back}, {(type(i), i)
                                                      for i in v},
                       'REF reference kinds', value=v)
