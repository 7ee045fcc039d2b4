"""C11: pages of timeseries queries.

process   of all events in order, a query gives those asked for that are
          behind the last given one, the first `limit` of them (C10);
page      the limit of the filter is one more than that of the query, at
          most the limit of events is given, the first ones, and more follow
          exactly when there is one more;
lemma     with different identifiers, the events asked for behind the last
          one of a page are those left out of it, so pages follow each other
          without gaps or repeats."""

import z3

from vf import seqs
from vf.unit import unit, cover
from units.lib import *     # noqa
from units import c10
from vf.syms import IdC

F = c10.F


@unit('C11', [F + '_Filter.process'], timeout=120, bounds=())
def process(m):
    c10.process_unit(m)


@unit('C11', [F + 'TimeseriesDb._query_partition'], assumes=[
    'Environment.execute: calls are submitted at once and run in order of '
    'submission (one executor thread)',
    'contracts of _ext_query_partition_events and _query_partition_changes '
    '(C10)'], bounds=())
def page(m):
    c10.page_unit(m)


@unit('C11', [F + '_Filter.process'], assumes=[
    'identifiers of stored events are different (C08)',
    'contract of _Filter.process (unit process)'], bounds=())
def lemma(m):
    """OK(i): event i is asked for; RANK(i): number of those before i.  A
    page is given behind `last` (or from the start), ends with event e, and
    the next one is given behind e"""
    c = m.load('hat.event.common')
    sp = ('events',)
    n, M = X.fresh('n', I), X.fresh('limit', I)
    X.assume(z3.And(n >= 0, M >= 1))
    ID = fn(IdC(c), 'id')
    OK = z3.Function('asked', I, B)

    def different(i):
        g = z3.Const(X.name('g'), I)
        universal(g, z3.And(g >= 0, g < n), (g == i) == bool_term(
            eq(ID(g), ID(i))), sp)

    def behind(i, last):
        """contract of process: SEEN(i)"""
        if last is None:
            return T
        w = X.fresh('at', I)
        X.assume(z3.And(w >= 0, w < n, bool_term(eq(ID(w), ID(last)))))
        add_index(w, sp)
        return w < i
    start = X.fresh('start', I) if X.choose(2, 'first page') else None
    if start is not None:
        X.assume(z3.And(start >= 0, start < n))
        different(start)
    e, i = X.fresh('e', I), X.fresh('i', I)
    X.assume(z3.And(e >= 0, e < n, i >= 0, i < n))
    different(e)
    for x in (e, i):
        add_index(x, sp)
    this = lambda k: z3.And(OK(k), behind(k, start))
    follow = z3.And(OK(i), behind(i, e))
    X.assume(this(e))       # last event of the page
    # events of the page: those asked for up to e
    X.prove(z3.Not(z3.And(this(i), i <= e, follow)), 'no repeats')
    X.prove(z3.Implies(this(i), z3.Or(i <= e, follow)), 'no gaps')
    X.prove(z3.Implies(follow, this(i)), 'nothing else')


import units.lmdbb   # noqa
