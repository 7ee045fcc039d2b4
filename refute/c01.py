"""Matching rules on all event types up to length 5 over 3 segments for random
query types (length <= 5) and subscriptions of up to 6 query types."""

import itertools

from refute.common import (SEGS, all_types, event_type, matches, matches_any,
                           query_type)


def run(ctx):
    from hat.event import common
    rng = ctx.rng
    ctx.rule = ('random query type sets (duplicates, overlaps, any order); '
                'distinct sets')
    types = list(all_types(['a', 'b', 'x'], 4))
    for q in all_types(['a', 'b', '?'], 4):
        for star in (False, True):
            qt = q + ('*',) if star else q
            if len(qt) > 4:
                continue
            for t in types:
                ctx.eq(bool(common.matches_query_type(t, qt)), matches(t, qt),
                       'matches_query_type', event_type=t, query_type=qt)
            ctx.case(qt)
    alphabets = [['a', 'b'], SEGS, ['a', 'b', 'c', '', 'ž', 'aa'],
                 ['a', '?', '*']]
    for r in ctx.rounds(400):
        segs = alphabets[r % 4]
        qsegs = [s for s in segs if s != '*']
        n = rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
        qts = [query_type(rng, rng.choice([1, 2, 3, 5]), qsegs)
               for _ in range(n)]
        if qts and rng.random() < 0.2:
            qts.append(rng.choice(qts))
        given = rng.choice([lambda: list(qts), lambda: iter(qts),
                            lambda: set(qts)])()
        sub = common.create_subscription(given)
        reported = [tuple(i) for i in sub.get_query_types()]
        ctx.case(tuple(qts))
        for q in reported:
            ctx.check('*' not in q[:-1], 'reported query type is valid',
                      query_types=qts, reported=reported)
        again = common.create_subscription(reported)
        sample = [event_type(rng, 6, segs) for _ in range(15)]
        # instances of the query types themselves
        for q in qts:
            for _ in range(3):
                t = []
                for s in q:
                    if s == '*':
                        t.extend(rng.choices(segs, k=rng.randint(0, 3)))
                    elif s == '?':
                        t.append(rng.choice(segs))
                    else:
                        t.append(s)
                sample.append(tuple(t))
                sample.append(tuple(t[:-1]))
                sample.append(tuple(t) + (rng.choice(segs),))
        sample.extend(all_types(['a', 'b'], 3))
        for t in sample:
            want = matches_any(t, qts)
            ctx.eq(bool(sub.matches(t)), want, 'Subscription.matches',
                   event_type=t, query_types=qts)
            ctx.eq(matches_any(t, reported), want,
                   'reported query types describe the subscription',
                   event_type=t, query_types=qts, reported=reported)
            ctx.eq(bool(again.matches(t)), want,
                   'subscription rebuilt from reported query types',
                   event_type=t, query_types=qts, reported=reported)
            for q in qts:
                ctx.eq(bool(common.matches_query_type(t, q)), matches(t, q),
                       'matches_query_type', event_type=t, query_type=q)
        ctx.eq([tuple(i) for i in sub.get_query_types()], reported,
               'matching does not change the subscription', query_types=qts)
