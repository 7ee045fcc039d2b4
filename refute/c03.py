"""Random add/remove histories (up to 25 steps, 5 values) on every python
event type collection implementation, lookups on all types up to length 3."""

from refute.common import all_types, event_type, matches_any, query_type

TYPES = list(all_types(['a', 'b', 'x'], 3))


def run(ctx):
    from hat.event import common
    from hat.event.common import collection
    rng = ctx.rng
    ctx.rule = 'random histories of additions and removals; distinct histories'
    makers = [common.create_event_type_collection]
    try:
        from hat.event.common.collection import pylist
        makers.append(pylist.PyListEventTypeCollection)
    except Exception:
        ctx.notes.append('no list implementation')
    try:
        from hat.event.common.collection import pytree
        makers.append(pytree.PyTreeEventTypeCollection)
    except Exception:
        ctx.notes.append('no tree implementation')

    for r in ctx.rounds(150):
        mk = makers[r % len(makers)]
        model = {}
        history = []

        def sub():
            qts = [query_type(rng, rng.choice([0, 1, 2, 3, 4]), ['a', 'b'])
                   for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            s = common.create_subscription(qts)
            if rng.random() < 0.2:
                q2 = [query_type(rng, 2, ['a', 'b'])]
                s = s.union(common.create_subscription(q2))
                qts = qts + q2
            return s, qts
        items = []
        for v in range(rng.choice([0, 0, 1, 3])):
            s, q = sub()
            val = rng.choice(range(3))
            items.append((s, val))
            model.setdefault(val, []).extend(q)
            history.append(('init', val, q))
        c = mk(iter(items)) if items else mk()

        def look(types):
            for t in types:
                got = list(c.get(t))
                ctx.eq(sorted(map(repr, got)),
                       sorted(repr(v) for v, q in model.items()
                              if matches_any(t, q)),
                       'lookup', event_type=t, history=history,
                       implementation=type(c).__name__)
        for _ in range(rng.randint(1, 25)):
            v = rng.choice([0, 1, 2, 'v', (1, 2)])
            if rng.random() < 0.65:
                s, q = sub()
                if rng.random() < 0.15 and model.get(v):
                    q = list(model[v])
                    s = common.create_subscription(q)
                c.add(s, v)
                model.setdefault(v, []).extend(q)
                history.append(('add', v, q))
            else:
                c.remove(v)
                model.pop(v, None)
                history.append(('remove', v))
            if rng.random() < 0.4:
                look(rng.sample(TYPES, 4))
        ctx.case(repr(history))
        look(TYPES)
        look(event_type(rng, 6, ['a', 'b', 'x']) for _ in range(6))
