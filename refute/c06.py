"""Random Eventer messages encoded, encoded/decoded by the published SBS
schema itself, and decoded."""

from refute.common import event, event_id, event_type, payload, timestamp


def run(ctx):
    from hat.event import common
    rng = ctx.rng
    repo = common.sbs_repo
    ctx.rule = ('random events, register events, queries with every optional '
                'field present or absent, results, statuses; distinct values')

    def through(name, data, what, value):
        raw = repo.encode(name, data)
        return repo.decode(name, raw)

    def norm(p):
        if isinstance(p, common.EventPayloadBinary):
            return p._replace(data=bytes(p.data))
        return p

    def norm_ev(e):
        return e._replace(payload=norm(e.payload))

    def same(got, want, what):
        ctx.eq(got, want, what, value=want)
        ctx.eq(type(got), type(want), what + ' type', value=want)
        # bool/int and 1/1.0 are equal in python, not on the wire
        ctx.eq(repr(got), repr(want), what + ' exact', value=want)

    def opt(f, p=0.5):
        return f() if rng.random() < p else None

    big = 2 ** 63 - 1

    def ev_id():
        return common.EventId(*(rng.choice([0, 1, 7, big, 2 ** 40,
                                            rng.randint(0, big)])
                                for _ in range(3)))

    def ev():
        return event(rng, common)._replace(id=ev_id())

    def types():
        return [tuple(event_type(rng, 3, ['a', 'b', '?', '*', '']))
                for _ in range(rng.choice([0, 1, 2, 5]))]

    for s in common.Status:
        d = common.status_to_sbs(s)
        same(common.status_from_sbs(d), s, 'status')
        same(common.status_from_sbs(through('HatEventer.Status', d, 's', s)),
             s, 'status over the wire')
        ctx.case(s)
    ts = lambda: timestamp(rng, common)         # noqa
    for r in ctx.rounds(1500):
        e = ev()
        d = common.event_to_sbs(e)
        same(norm_ev(common.event_from_sbs(d)), e, 'event')
        same(norm_ev(common.event_from_sbs(through('HatEventer.Event', d,
                                                   'event', e))), e,
             'event over the wire')
        g = common.RegisterEvent(e.type, opt(ts), e.payload)
        d = common.register_event_to_sbs(g)
        same(norm_ev(common.register_event_from_sbs(
            through('HatEventer.RegisterEvent', d, 'r', g))), g,
            'register event')
        if e.payload is not None:
            d = common.event_payload_to_sbs(e.payload)
            same(norm(common.event_payload_from_sbs(
                through('HatEventer.EventPayload', d, 'p', e.payload))),
                e.payload, 'payload')
        k = r % 3
        mr = opt(lambda: rng.choice([0, 1, 2, 1000, 2 ** 31]))
        if k == 0:
            q = common.QueryLatestParams(opt(types, 0.7))
        elif k == 1:
            q = common.QueryTimeseriesParams(
                opt(types), opt(ts), opt(ts), opt(ts), opt(ts),
                rng.choice(list(common.Order)),
                rng.choice(list(common.OrderBy)), mr, opt(ev_id))
        else:
            q = common.QueryServerParams(
                rng.choice([0, 1, big]), rng.random() < 0.5, mr, opt(ev_id))
        ctx.case(repr((e, q)), repr(q))
        d = common.query_params_to_sbs(q)
        same(common.query_params_from_sbs(
            through('HatEventer.QueryParams', d, 'q', q)), q, 'query params')
        same(common.query_params_from_sbs(d), q, 'query params direct')
        res = common.QueryResult([ev() for _ in range(rng.choice(
            [0, 1, 2, 4]))], rng.random() < 0.5)
        d = common.query_result_to_sbs(res)
        got = common.query_result_from_sbs(
            through('HatEventer.QueryResult', d, 'res', res))
        same(got._replace(events=[norm_ev(i) for i in got.events]), res,
             'query result')
