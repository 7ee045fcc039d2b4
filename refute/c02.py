"""Set algebra against an oracle that evaluates the expression tree on all
event types up to length 4 over 3 segments (a segment outside the query
types included) and on random longer ones."""

from refute.common import all_types, event_type, matches_any, query_type

TYPES = list(all_types(['a', 'b', 'x'], 3)) + list(
    all_types(['a', 'b'], 5))


def run(ctx):
    from hat.event import common
    rng = ctx.rng
    ctx.rule = 'random trees of union/intersection over random subscriptions'

    def leaf(m):
        qts = [query_type(rng, m, ['a', 'b']) for _ in range(
            rng.choice([0, 1, 1, 2, 2, 3, 4]))]
        return (common.create_subscription(qts), qts,
                lambda t: matches_any(t, qts))

    def build(depth, m):
        if depth == 0 or rng.random() < 0.2:
            return leaf(m)
        k = rng.choice([1, 1, 1, 2, 3, 0])
        first = build(depth - 1, m)
        others = [build(depth - 1, m) for _ in range(k)]
        ops = [first, *others]
        fs = [i[2] for i in ops]
        if rng.random() < 0.4:
            return (first[0].union(*(i[0] for i in others)),
                    ('union', *(i[1] for i in ops)),
                    lambda t: any([f(t) for f in fs]))
        return (first[0].intersection(*(i[0] for i in others)),
                ('intersection', *(i[1] for i in ops)),
                lambda t: all([f(t) for f in fs]))

    for r in ctx.rounds(300):
        m = rng.choice([1, 2, 2, 3, 4])
        pool = [build(rng.choice([0, 1, 1, 2, 3]), m) for _ in range(3)]
        ctx.case(repr([p[1] for p in pool]))
        types = TYPES if r % 4 == 0 else rng.sample(TYPES, 25)
        types = types + [event_type(rng, 7, ['a', 'b', 'x', ''])
                         for _ in range(5)]
        want = []
        for s, d, f in pool:
            ext = set(t for t in TYPES if f(t))
            want.append(ext)
            for t in types:
                ctx.eq(bool(s.matches(t)), f(t), 'expression matches',
                       expression=d, event_type=t)
        for i, (s, d, f) in enumerate(pool):
            for j, (s2, d2, f2) in enumerate(pool):
                # query types of length <= 5: a common type exists exactly
                # when one of length <= 5 over {a, b, x} does; a witness in
                # TYPES proves overlap, its absence is checked exhaustively
                # for short query types only
                got = bool(s.isdisjoint(s2))
                common_t = want[i] & want[j]
                if common_t:
                    ctx.check(not got, 'isdisjoint but both match',
                              first=d, second=d2,
                              event_type=sorted(common_t)[0])
                elif m <= 2:
                    ctx.check(got, 'not isdisjoint but no common type',
                              first=d, second=d2)
        # operands unchanged
        for s, d, f in pool:
            for t in types:
                ctx.eq(bool(s.matches(t)), f(t), 'operand changed',
                       expression=d, event_type=t)
        a, b = pool[0], pool[1]
        u, n = a[0].union(b[0]), a[0].intersection(b[0])
        for t in types:
            ctx.eq(bool(u.matches(t)), a[2](t) or b[2](t), 'union',
                   first=a[1], second=b[1], event_type=t)
            ctx.eq(bool(n.matches(t)), a[2](t) and b[2](t), 'intersection',
                   first=a[1], second=b[1], event_type=t)
            ctx.eq(matches_any(t, [tuple(q) for q in n.get_query_types()]),
                   a[2](t) and b[2](t), 'query types of intersection',
                   first=a[1], second=b[1], event_type=t)
            ctx.eq(matches_any(t, [tuple(q) for q in u.get_query_types()]),
                   a[2](t) or b[2](t), 'query types of union',
                   first=a[1], second=b[1], event_type=t)
