"""C22: notifications with acknowledgment.

notify_events      with acknowledgment: one task per client that is notified
                   (C21), and returns only after all of them ended;
_notify_events     (C21) ends without error, and only after the future of its
                   message is done;
_connection_loop   (C24) an acknowledgment ends exactly the wait of that
                   client and message; a disconnection ends exactly the waits
                   of that client;
client             (C21) acknowledges after its callback finished."""

import types

import z3

from vf import libs, seqs, aiom
from vf.unit import unit, cover
from units.lib import *     # noqa
from units import c21, c24      # noqa
from vf.syms import sym_bool

A = c21.A + ['asyncio.wait returns when all given tasks are done, unless '
             'told otherwise', 'aio.Group.spawn runs the function']

unit('C22', ['eventer.server:Server._notify_events'], assumes=A,
     bounds=())(c21.server_message)
unit('C22', ['eventer.client:Client._process_msg_events_notify'], assumes=A,
     bounds=())(c21.client_events)


@unit('C22', ['eventer.server:Server.notify_events'], assumes=A, timeout=120,
      bounds=())
def notify_ack(m):
    X.export = True
    w = c21.World(m)
    evs = w.events()
    persisted = sym_bool('persisted')
    task = ItemC('task', {})
    st = types.SimpleNamespace(waited=None)

    def notify(conn, events, with_ack):
        X.prove(with_ack is True, 'acknowledgment is requested')
        return task.build([conn.t])
    w.s._notify_events = notify

    class Group:
        def spawn(self, f, *a):
            return f(*a)

    def wait(tasks, *, timeout=None, return_when='ALL_COMPLETED'):
        def run():
            X.prove(st.waited is None, 'waits once')
            X.prove(timeout is None and return_when == 'ALL_COMPLETED',
                    'waits for all of them')
            st.waited = tasks
        return aiom.Now(run)
    asyncio = types.SimpleNamespace(
        wait=wait, ALL_COMPLETED='ALL_COMPLETED',
        FIRST_COMPLETED='FIRST_COMPLETED', FIRST_EXCEPTION='FIRST_EXCEPTION')
    with Patch(w.r, asyncio=asyncio), Patch(type(w.s), async_group=Group()):
        libs.await_(w.s.notify_events(evs, persisted, True))
    k = X.fresh('conn', I)
    add_index(k, w.sp)
    i = w.info_of(k)
    j = X.fresh('event', I)
    X.assume(z3.And(j >= 0, j < evs.n))
    add_index(j)
    add_index(j, evs.sp)
    if st.waited is not None and exists(st.waited,
                                        lambda x: mkbool(x.t == k)):
        cover('waited')
        return
    cover('not waited')
    X.prove(z3.Not(z3.And(
        w.base.dom(k), bool_term(eq(w.pers(i), persisted)), w.match(k, j))),
        'every client with a matching event is waited for')
