"""Natural order on random and near-equal pairs of events."""

from refute.common import SEGS, payload, timestamp, event_type


def run(ctx):
    from hat.event import common
    rng = ctx.rng
    ctx.rule = ('pairs of events with ids/timestamps drawn from small sets '
                '(ties likely) and from the full range; distinct pairs')
    m = 2 ** 64 - 1

    def ev(small):
        if small:
            i = common.EventId(*(rng.choice([0, 1, 2]) for _ in range(3)))
            t = common.Timestamp(rng.choice([-1, 0, 1]), rng.choice([0, 1]))
        else:
            i = common.EventId(*(rng.choice([0, m, rng.randint(0, m)])
                                 for _ in range(3)))
            t = timestamp(rng, common)
        return common.Event(i, event_type(rng, 2), t,
                            rng.choice([None, timestamp(rng, common)]),
                            rng.choice([None, payload(rng, common)]))
    for r in ctx.rounds(20000, 0.6):
        a, b = ev(r % 3 > 0), ev(r % 3 > 0)
        if rng.random() < 0.1:
            b = b._replace(id=a.id)
        if rng.random() < 0.1:
            b = b._replace(timestamp=a.timestamp)
        ctx.case((a.id, b.id, a.timestamp, b.timestamp))
        lt, gt = a < b, a > b
        if a.id == b.id:
            want = False, False
        elif a.id.server == b.id.server:
            want = a.id < b.id, a.id > b.id
        elif a.timestamp != b.timestamp:
            want = a.timestamp < b.timestamp, a.timestamp > b.timestamp
        else:
            want = True, False
        ctx.eq((lt, gt), want, 'order (a < b, a > b)', a=a, b=b)
        ctx.eq((a < a, a > a), (False, False), 'irreflexive', a=a)
