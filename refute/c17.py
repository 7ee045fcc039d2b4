"""Random condition configurations (nesting depth <= 3) against random events,
through Conditions and through registration with the LMDB backend."""

from refute.common import (event_type, json_data, matches_any, payload,
                           query_type, run_async)

MISSING = object()


def get(data, path):
    if isinstance(path, list):
        for p in path:
            data = get(data, p)
            if data is MISSING:
                return MISSING
        return data
    if isinstance(path, str):
        return data.get(path, MISSING) if isinstance(data, dict) else MISSING
    if isinstance(data, list) and 0 <= path < len(data):
        return data[path]
    return MISSING


def jeq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(jeq(i, j) for i, j in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(jeq(v, b[k])
                                            for k, v in a.items())
    return a == b


def jtype(v):
    if v is None:
        return 'null'
    if isinstance(v, bool):
        return 'boolean'
    if isinstance(v, str):
        return 'string'
    if isinstance(v, (int, float)):
        return 'number'
    return 'array' if isinstance(v, list) else 'object'


def accepts(common, conf, event):
    if conf['type'] == 'all':
        return all([accepts(common, c, event) for c in conf['conditions']])
    if conf['type'] == 'any':
        return any([accepts(common, c, event) for c in conf['conditions']])
    if not isinstance(event.payload, common.EventPayloadJson):
        return False
    d = event.payload.data
    if 'data_path' in conf:
        d = get(d, conf['data_path'])
        if d is MISSING:
            d = None
    if 'data_type' in conf and jtype(d) != conf['data_type']:
        return False
    if 'data_value' in conf and not jeq(d, conf['data_value']):
        return False
    return True


def satisfied(common, conf, event):
    return all([accepts(common, c['condition'], event) for c in conf
                if matches_any(event.type, [tuple(s) for s in
                                            c['subscriptions']])])


def random_condition(rng, depth, pool):
    k = rng.random()
    if depth and k < 0.45:
        return {'type': rng.choice(['all', 'any']),
                'conditions': [random_condition(rng, depth - 1, pool)
                               for _ in range(rng.choice([0, 1, 2, 2, 3]))]}
    c = {'type': 'json'}
    if rng.random() < 0.6:
        c['data_path'] = rng.choice(['a', 'b', 0, 1, [], ['a'], ['a', 0],
                                     ['a', 'b'], ['a', ['b', 0]], [0, 'a']])
    if rng.random() < 0.5:
        c['data_type'] = rng.choice(['null', 'boolean', 'string', 'number',
                                     'array', 'object'])
    if rng.random() < 0.5:
        c['data_value'] = rng.choice(pool)
    return c


def random_conf(rng, depth=2):
    pool = [None, True, False, 0, 1, 1.0, 'a', '', [], {}, [1], [True],
            {'a': 1}, {'a': True}, json_data(rng)]
    return [{'subscriptions': [list(query_type(rng, 2, ['a', 'b']))
                               for _ in range(rng.choice([0, 1, 1, 2]))],
             'condition': random_condition(rng, depth, pool)}
            for _ in range(rng.choice([0, 1, 1, 2, 3]))]


def random_payload(rng, common):
    k = rng.randrange(10)
    if k == 0:
        return None
    if k == 1:
        return common.EventPayloadBinary('t', b'1')
    vals = [None, True, False, 0, 1, 1.0, 'a', '', [], {}, [1], [True],
            {'a': 1}, {'a': True}, {'a': None}, {'a': {'b': [1]}},
            {'a': [0]}, {'a': [True]}, [{'a': 1}], ['x', 2.5],
            json_data(rng, 3)]
    return common.EventPayloadJson(rng.choice(vals))


def run(ctx):
    from hat.event.backends.lmdb import common
    from hat.event.backends.lmdb.conditions import Conditions
    rng = ctx.rng
    ctx.rule = 'random (configuration, event) pairs; distinct pairs'

    def ev(i):
        return common.Event(common.EventId(1, 1, i),
                            event_type(rng, 2, ['a', 'b']),
                            common.Timestamp(i, 0), None,
                            random_payload(rng, common))

    kinds = ['null', 'boolean', 'string', 'number', 'array', 'object']
    for t in kinds:
        for v in (None, True, False, 0, 1, 1.5, -1, '', 'x', [], [1], {},
                  {'a': 1}):
            for w in (MISSING, None, True, 1, 'x', 0, False):
                c = {'type': 'json', 'data_type': t}
                if w is not MISSING:
                    c['data_value'] = w
                conf = [{'subscriptions': [['*']], 'condition': c}]
                e = ev(1)._replace(payload=common.EventPayloadJson(v))
                ctx.eq(bool(Conditions(conf).matches(e)),
                       satisfied(common, conf, e), 'typed condition',
                       conf=conf, event=e)
                ctx.case(('t', t, repr(v), repr(w)))
    for r in ctx.rounds(1500, 0.7):
        conf = random_conf(rng, rng.choice([0, 1, 2, 3]))
        c = Conditions(conf)
        for i in range(8):
            e = ev(i)
            ctx.case(repr((conf, e)))
            ctx.eq(bool(c.matches(e)), satisfied(common, conf, e),
                   'Conditions.matches', conf=conf, event=e)
            ctx.eq(bool(c.matches(e)), satisfied(common, conf, e),
                   'Conditions.matches repeated', conf=conf, event=e)

    async def backend():
        from hat.event.backends import lmdb
        with ctx.tmp() as d:
            conf = random_conf(rng)
            b = await lmdb.info.create(
                {'db_path': str(d / 'db'), 'identifier': None,
                 'flush_period': 1000, 'cleanup_period': 1000,
                 'conditions': conf, 'latest': {'subscriptions': []},
                 'timeseries': [{'order_by': 'TIMESTAMP',
                                 'subscriptions': [['*']]}]}, None, None)
            try:
                evs = [ev(i + 1) for i in range(12)]
                await b.register(evs)
                want = [e for e in evs if satisfied(common, conf, e)]
                for flushed in (False, True):
                    res = await b.query(common.QueryTimeseriesParams(
                        order=common.Order.ASCENDING))
                    ctx.eq([e.id for e in res.events], [e.id for e in want],
                           'events accepted by registration', conf=conf,
                           events=evs, flushed=flushed)
                    await b.flush()
                ctx.case(repr((conf, 'backend')))
            finally:
                await b.async_close()
    for r in ctx.rounds(4, 0.95):
        run_async(backend())
