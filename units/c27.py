"""C27: selection of servers to connect to.

server_data     the connectable servers of a monitor state are exactly those
                of the group with valid data and the configured token, other
                than the own one;
active_server   the server of a component is one of those that are blessed,
                with valid data and token, and none only if there is none;
set_state       a client loop is started for every connectable server which
                has none, and all connectable ones are known;
client_loop     (C26) connects to its server while it is connectable;
component       (C31)."""

import types

import z3

from vf import libs, seqs
from vf.unit import unit, cover
from units.lib import *     # noqa
from vf.syms import StrC, sym_str, sym_int, sym_bool
from vf.core import SymReal

RUN = 'server.eventer_client_runner:'
COMP = 'component:'

# published JSON values of each path, by kind ('other': any value of no other
# kind of the path; booleans as server id or port are not considered)
Other = OpC('JsonOther', (list, dict, float, type(None)))
KINDS = {'server_id': {'other': Other, 'int': IntC()},
         ('eventer_server', 'host'): {'other': Other, 'str': StrC},
         ('eventer_server', 'port'): {'other': Other, 'int': IntC()},
         'server_token': {'other': OpC('JsonOther', (list, dict, float)),
                          'null': ConstC(None), 'str': StrC}}
PATHS = ['server_id', ('eventer_server', 'host'), ('eventer_server', 'port'),
         'server_token']


class World:
    """components of a monitor state, published data of any shape"""

    def __init__(self):
        self.vals = {p: fn(UnionC(*KINDS[p].values()), str(p))
                     for p in PATHS}
        tok = OptC(IntC())
        req, res = fn(tok, 'req'), fn(tok, 'res')
        self.req, self.res = req, res
        self.group = fn(StrC, 'group')
        self.f = {'data': lambda k: Item(k, 'data', {}),
                  'group': self.group, 'cid': lambda k: mkint(k),
                  'blessing_req': lambda k: Item(k, 'req', {
                      'token': req}),
                  'blessing_res': lambda k: Item(k, 'res', {
                      'token': res})}
        self.components = items('component', self.f, 'components')
        self.n = self.components.n
        self.me = X.fresh('me', I)      # position of the own component
        X.assume(z3.And(self.me >= -1, self.me < self.n))
        self.info = Item(self.me, 'component', self.f)
        self.state = types.SimpleNamespace(components=self.components,
                                           info=self.info)

    def get(self, data, path, default=None):
        if isinstance(path, (MList, list)):
            path = tuple(libs.native(path))
        if path not in self.vals or default is not None or \
                not isinstance(data, Item) or data.kind != 'data':
            raise Unsupported(f'json.get {path!r}')
        return self.vals[path](data.t)

    def is_(self, p, k, what):
        return self.vals[p].terms(k)[0] == list(KINDS[p]).index(what)

    def val(self, p, k, what):
        """value of alternative `what`"""
        off = 1
        for name, c in KINDS[p].items():
            if name == what:
                return c.build(self.vals[p].terms(k)[off:off + len(c.sorts)])
            off += len(c.sorts)

    def shape(self, k):
        """data holds a valid server id, address and token"""
        sid, host, port, tok = PATHS
        return z3.And(self.is_(sid, k, 'int'), self.is_(host, k, 'str'),
                      self.is_(port, k, 'int'),
                      z3.Or(self.is_(tok, k, 'null'),
                            self.is_(tok, k, 'str')))

    def token_ok(self, k, token):
        """configured token (SymOpt of string) equals the published one"""
        return z3.Or(bool_term(eq(token, None)),
                     z3.And(self.is_('server_token', k, 'str'), bool_term(
                         eq(token, self.val('server_token', k, 'str')))))


def tokens():
    return fresh(OptC(StrC), 'token')


def addr_parts(a):
    return a.host, a.port


@unit('C27', [RUN + '_get_eventer_server_data'],
      assumes=['hat.json.get(data, path) returns the value at path or None',
               'server id and port are not published as JSON booleans',
               'component infos of one monitor state are pairwise distinct'])
def server_data(m):
    r = m.load('hat.event.server.eventer_client_runner')
    w = World()
    token = tokens()
    group = sym_str('group')
    with Patch(r, json=types.SimpleNamespace(get=w.get)):
        out = r._get_eventer_server_data(group=group, server_token=token,
                                         state=w.state)
        out = libs.vc_list(out)

    def spec(k):
        return z3.And(w.shape(k), w.token_ok(k, token), k != w.me,
                      bool_term(eq(w.group(k), group)))

    def matches(v, k):
        h, p = addr_parts(v.addr)
        return z3.And(
            bool_term(eq(v.server_id, w.val(PATHS[0], k, 'int'))),
            bool_term(eq(h, w.val(PATHS[1], k, 'str'))),
            bool_term(eq(p, w.val(PATHS[2], k, 'int'))))
    # nothing else
    if X.choose(2, 'direction'):
        def body(v, j):
            if j is None:
                X.prove(z3.Or(*[z3.And(spec(z3.IntVal(k)),
                                       matches(v, z3.IntVal(k)))
                                for k in range(X.bound or 0)]),
                        'only valid servers of the group')
                return
            X.prove(spec(j), 'only valid servers of the group')
            X.prove(matches(v, j), 'published id and address')
        each(out, body)
        return
    # nothing missing
    k = X.fresh('k', I)
    X.assume(z3.And(k >= 0, k < w.n))
    add_index(k)
    X.assume(spec(k))
    want = r.EventerServerData(w.val(PATHS[0], k, 'int'),
                               r.tcp.Address(w.val(PATHS[1], k, 'str'),
                                             w.val(PATHS[2], k, 'int')))
    X.prove(has(out, want), 'every valid server of the group')


def _component(m):
    c = m.load('hat.event.component')
    o = c.Component()
    return c, o


@unit('C27', [COMP + 'Component._get_active_server_data',
              COMP + 'Component._active_server_filter'],
      assumes=['hat.json.get(data, path) returns the value at path or None',
               'hat.util.first returns the first match'])
def active_server(m):
    c, o = _component(m)
    w = World()
    token = tokens()
    has_token = X.choose(2, 'has')
    group = sym_str('group')
    o._server_group = group
    o._eventer_kwargs = MDict([('client_token', token)] if has_token else [])
    if not has_token:
        token = None
    with Patch(c, json=types.SimpleNamespace(get=w.get)):
        d = o._get_active_server_data(w.state)

    def active(k):
        return z3.And(bool_term(eq(w.group(k), group)),
                      bool_term(not_(eq(w.req(k), None))),
                      bool_term(eq(w.req(k), w.res(k))))

    def ok(k):
        return z3.And(w.shape(k), w.token_ok(k, token))
    if d is not None:
        cover('connect')
        # d belongs to an active server with valid data and token
        k = X.fresh('k', I)
        g = z3.Const(X.name('g'), I)

        def desc(k):
            return z3.And(
                k >= 0, k < w.n, active(k), ok(k),
                bool_term(eq(d.server_id, w.val(PATHS[0], k, 'int'))),
                bool_term(eq(d.addr.host, w.val(PATHS[1], k, 'str'))),
                bool_term(eq(d.addr.port, w.val(PATHS[2], k, 'int'))),
                z3.Or(z3.And(w.is_('server_token', k, 'null'),
                             bool_term(eq(d.server_token, None))),
                      z3.And(w.is_('server_token', k, 'str'),
                             bool_term(eq(d.server_token, w.val(
                                 'server_token', k, 'str'))))))
        universal(g, T, z3.Not(desc(g)))
        X.prove(False, 'data of an active, valid server with right token')
    else:
        cover('none')
        # no server is usable when there is at most one active server
        k = X.fresh('k', I)
        X.assume(z3.And(k >= 0, k < w.n))
        add_index(k)
        X.assume(z3.And(active(k), ok(k)))
        g = z3.Const(X.name('g'), I)
        universal(g, z3.And(g >= 0, g < w.n, g != k), z3.Not(active(g)))
        X.prove(False, 'the active valid server is used')


@unit('C27', [RUN + 'EventerClientRunner.set_monitor_state'],
      assumes=['hat.aio.Group.spawn runs the function once'], bounds=())
def set_state(m):
    r = m.load('hat.event.server.eventer_client_runner')
    o = object.__new__(r.EventerClientRunner)
    given = items('data', {}, 'given')
    state, group = object(), Val()
    token = [None, Val()][X.choose(2, 'token')]
    conf = {'monitor_component': MDict([('group', group)])}
    if token is not None:
        conf['server_token'] = token
    o._conf = MDict(list(conf.items()))
    w = types.SimpleNamespace(x=None, has=None, spawned=[], asked=0)

    def get(group=None, server_token=None, state=None):
        w.asked += 1
        X.prove(group is conf['monitor_component'][
            'group'] and server_token is token and state is w.state,
            'own group, token and given state')
        return given
    w.state = state

    class Connecting:
        def _same(self, v):
            return w.x is not None and X.decide(bool_term(eq(v, w.x)))

        def __contains__(self, v):
            if not self._same(v):
                raise Unsupported('other element')
            return X.decide(bool_term(w.has))
        _contains_ = __contains__

        def add(self, v):
            X.prove(self._same(v), 'only valid servers')
            w.has = True

        def remove(self, v):
            X.prove(False, 'loops remove themselves')
        discard = remove
    o._connecting_server_data = Connecting()
    o._valid_server_data = seqs.MSet(items('data', {}, 'earlier'))

    def loop(*a):
        raise Unsupported('called')
    o._client_loop = loop

    class Group:
        def spawn(self, f, *a):
            X.prove(f is loop and len(a) == 1 and w.x is not None and
                    eq(a[0], w.x), 'loop of a valid server')
            w.spawned.append(a)
    o._async_group = Group()

    def before(start, v, j):
        w.x, w.has, w.spawned = v, sym_bool('connecting'), []
        w.had = w.has

    def after(start, end, v, j):
        cover('server')
        X.prove(len(w.spawned) <= 1, 'one loop for a server')
        X.prove(iff(len(w.spawned) == 1, not_(w.had)),
                'every other valid server gets a loop')
        X.prove(w.has, 'connecting')

    def final(start):
        w.x = None
        w.all = True
    X.for_rule = ForRule(lambda src: isinstance(src, MSet), lambda: None,
                         before, after, final, anyorder=True)
    with Patch(r, _get_eventer_server_data=get):
        o.set_monitor_state(state)
    X.prove(w.asked == 1, 'servers of the state')
    valid = o._valid_server_data
    k = X.fresh('k', I)
    if X.choose(2, 'direction'):
        each(valid, lambda v, j: X.prove(has(given, v), 'valid server'))
        return
    X.assume(z3.And(k >= 0, k < given.n))
    add_index(k)
    X.prove(has(valid, given[mkint(k)]), 'every valid server is known')


import units.c26     # noqa
import units.comp    # noqa
