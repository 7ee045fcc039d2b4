"""C04: order of events.

__lt__, __gt__   for all pairs: events of one server are ordered by
                 identifier, events of different servers by timestamp; never
                 both before and after, and one of both for different ones."""

from vf.unit import unit, cover
from vf.core import X, eq, lt, not_, and_, or_, implies, iff, cmp, bool_term
from vf.seqs import fresh
from vf.syms import EventC


@unit('C04', ['common.common:Event.__lt__', 'common.common:Event.__gt__'])
def order(m):
    c = m.load('hat.event.common.common')
    a = fresh(EventC(c), 'a')
    b = fresh(EventC(c), 'b')
    l, g = a < b, a > b
    same_server = eq(a.id.server, b.id.server)
    if eq(a, b):
        cover('equal')
        X.prove(not_(l), 'equal events: not before')
        X.prove(not_(g), 'equal events: not after')
        return
    cover('different')
    X.prove(not_(and_(l, g)), 'never both before and after')
    X.prove(or_(l, g), 'before or after') if not eq(a.id, b.id) else None
    if same_server:
        cover('same')
        X.prove(iff(l, cmp('<', a.id, b.id)), 'same server: id order')
        X.prove(iff(g, cmp('>', a.id, b.id)), 'same server: id order (>)')
    else:
        cover('other')
        X.prove(iff(l, cmp('<=', a.timestamp, b.timestamp)),
                'other server: timestamp order, ties left first')
        X.prove(iff(g, cmp('>', a.timestamp, b.timestamp)),
                'other server: timestamp order (>)')
