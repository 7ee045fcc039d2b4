"""C33: commands of the event manager.

register     registers exactly the given event with the payload read from the
             given place; fails exactly when the registration failed;
query        asks exactly the given query, prints its complete result;
subscribe    prints every notification of the given subscription;
             every command uses one connection as given, closed in the end;
events       events and results are printed with all their data."""

import types

import z3

from vf import libs, seqs, aiom
from vf.unit import unit, cover
from units.lib import *     # noqa
from units.c34 import (Parser, Json, EvJson, EType, event_json, fields, tup)
from vf.syms import IdC, TsC, sym_bool

MOD = 'hat.event.manager.main'
CMN = 'hat.event.manager.common'
F = 'manager.main:'
A = ['argparse: the value of an option is its converted argument, or its '
     'default; other values than the choices are refused',
     'Client.register with response returns None exactly when the '
     'registration failed (C24); Client.query returns the result of the '
     'query; notifications are given to the callback (C24)',
     'hat.json.decode_stream of TOML takes a binary stream']


class Str:
    """given argument"""

    def __init__(self, name, k=None):
        self.name, self.k = name, k

    def split(self, sep):
        if sep == ',':
            return MList([Str((self.name, i)) for i in range(3)])
        X.prove(sep == '/', 'separator of segments')
        return EType('arg.' + str(self.name), self.k if self.k is not None
                     else z3.IntVal(0))

    def __eq__(self, o):
        if o == 'now' and type(o) is str:
            return bool(X.choose(2, 'now'))
        return isinstance(o, Str) and (self.name, self.k) == (o.name, o.k)

    def __ne__(self, o):
        return not self == o

    __hash__ = object.__hash__

    def __bool__(self):
        return bool(X.choose(2, 'not empty'))

    def __repr__(self):
        return f'Str({self.name!r})'


def number(name):
    def f(x=0, *a):
        if isinstance(x, Str):
            return mkint(z3.Const(f'int({x.name})', I)) if name == 'int' \
                else (name, x.name)
        return {'int': libs.vc_int, 'float': libs.vc_float}[name](x)
    return f


class Path:
    """path of a file"""

    def __init__(self, x):
        self.x = x.x if isinstance(x, Path) else x

    def __eq__(self, o):
        return isinstance(o, Path) and self.x is o.x or self.x == o.x

    def __ne__(self, o):
        return not self == o

    __hash__ = object.__hash__

    def read_bytes(self):
        X.prove(isinstance(self.x, Str), 'given file')
        return 'bytes', self.x.name


class Std:
    """standard input"""

    def __init__(self, kind='text'):
        self.kind = kind

    buffer = property(lambda s: Std('binary'))

    def detach(self):
        return Std('binary')

    def read(self):
        X.prove(self.kind == 'binary', 'binary data')
        return 'bytes', 'stdin'


class Close:
    def __init__(self, w):
        self.w = w

    def _await_(self):
        if X.choose(2, 'cancelled while closing'):
            raise libs._asyncio.CancelledError()
        self.w.closed += 1


def seq(name):
    """any number of given arguments"""
    n = X.fresh(name, I)
    X.assume(n >= 0)
    g = z3.Const(X.name('g'), I)

    def conv(f):
        return MList.of([Seg(g, z3.IntVal(0), n, [(T, f(Str(name, g)))])])
    conv.n = n
    return conv


class World:

    def __init__(w, m, *command):
        w.r = r = m.load(MOD)
        w.c = r.common
        w.command = command
        w.conns, w.calls, w.out = [], [], []
        w.closed = 0
        w.parser = Parser()
        w.parser.parse = w.parse
        w.given = {}
        w.J = r.json.Format

    def parse(w):
        """arguments of the command with options given in w.given"""
        a, p = {}, w.parser
        for i, n in enumerate([*w.command, None]):
            for k in p.opts:
                v = w.given.get(k)
                a[k] = p.value(k, k in w.given, v)
                if not p.opts[k][1]['option'] and k not in w.given:
                    X.prove(p.opts[k][1].get('nargs') == '*',
                            'argument is required')
                    a[k] = MList()
            if n is None:
                break
            X.prove(p.sub is not None and n in p.sub.parsers, 'command')
            if p.sub.dest is not None:
                a[p.sub.dest] = n
            p = p.sub.parsers[n]
        X.prove(p.sub is None, 'command is complete')
        w.known = set(a)
        return types.SimpleNamespace(**a)

    def option(w, name, v=None):
        if X.choose(2, name):
            w.given[name] = Str(name) if v is None else v
            return True
        return False

    # contracts

    def connect(w, addr, client_name, **kw):
        def run():
            w.conns.append((addr, client_name, kw))
            if X.choose(2, 'connection'):
                raise ConnectionError()
            return w.client
        return aiom.Now(run)

    def call(w, name, result):
        def f(*a, **kw):
            def run():
                X.prove(len(w.conns) == 1 and not w.closed, 'connected')
                k = w.outcome = X.choose(3, 'call')
                w.calls.append((name, a, kw))
                if k:
                    raise [ConnectionError(),
                           libs._asyncio.CancelledError()][k - 1]
                return result(*a, **kw)
            return aiom.Now(run)
        return f

    def printed(w, *a, **kw):
        if kw.keys() - {'flush'} or len(a) != 1 or \
                not isinstance(a[0], Json):
            raise Unsupported('printed data')
        w.out.append(a[0].v)

    def from_float(w, x):
        return 'timestamp', x

    def uncancellable(w, f, raise_cancel=True):
        if not isinstance(f, Close):
            raise Unsupported('uncancellable call')

        def run():
            w.closed += 1
        return aiom.Now(run)

    def run(w, client):
        """main() with the given contract of the client"""
        r = w.r
        w.client = types.SimpleNamespace(
            async_close=lambda: Close(w), **client)
        w.stdin = Std()
        json = Over(r.json, encode=Json, decode_stream=w.decode_stream,
                    decode_file=w.decode_file,
                    get_file_format=w.file_format)
        argparse = types.SimpleNamespace(ArgumentParser=lambda *a, **kw:
                                         w.parser)
        with Patch(r, argparse=argparse, json=json, print=w.printed,
                   int=number('int'), float=number('float'), tuple=tup,
                   str=lambda x='': x if isinstance(x, Str) else
                   libs.vc_str(x),
                   Path=Path, sys=types.SimpleNamespace(stdin=w.stdin),
                   eventer=Over(r.eventer, connect=w.connect),
                   aio=Over(r.aio, init_asyncio=lambda *a: None,
                            uncancellable=w.uncancellable,
                            run_asyncio=lambda co, *a, **kw:
                            libs.await_(co))), \
                Patch(w.c, event_to_json=EvJson, now=lambda: 'now',
                      timestamp_from_float=w.from_float):
            out = r.main()
        X.prove(len(w.conns) == 1, 'connected')
        return out

    def decode_stream(w, stream, format=None):
        X.prove(isinstance(stream, Std), 'standard input')
        format = format or w.J.JSON
        X.prove((stream.kind == 'binary') == (format is w.J.TOML),
                'stream of the format')
        return 'stdin', format

    def decode_file(w, path, format=None):
        X.prove(isinstance(path, Path) and isinstance(path.x, Str),
                'given file')
        return path.x.name, format or w.file_format(path)

    def file_format(w, path):
        X.prove(isinstance(path, Path) and isinstance(path.x, Str),
                'given file')
        if not hasattr(w, 'fmt'):
            w.fmt = X.choose(4, 'format of the file')
            X.on_undo(lambda: delattr(w, 'fmt'))
        if w.fmt == 3:
            raise ValueError('unknown format')
        return list(w.J)[w.fmt]

    def base(w):
        """options of the connection"""
        i = X.choose(3, 'connection options')
        if i:
            w.given.update(port=Str('port'), client_name=Str('client_name'))
        if i > 1:
            w.given.update(host=Str('host'), client_token=Str('token'))

    def connected(w, **want):
        X.prove(len(w.conns) == 1, 'one connection')
        addr, name, kw = w.conns[0]
        g = w.given
        X.prove(addr.host == g.get('host', '127.0.0.1'), 'host')
        X.prove(eq(addr.port, number('int')(Str('port')) if 'port' in g
                   else 23012), 'port')
        X.prove(name == g.get('client_name', 'manager'), 'name of the client')
        X.prove(kw.pop('client_token', None) == g.get('client_token'),
                'token of the client')
        return kw

    def end(w, f):
        """f() ends; connection is closed in the end"""
        try:
            out = f()
        except (ConnectionError, NotImplementedError) as e:
            X.prove(type(e) is ConnectionError, 'implemented')
            out = e
        X.prove(w.closed == (1 if w.client_used() else 0),
                'connection is closed')
        return out

    def client_used(w):
        return bool(w.calls)

    def result_known(w):
        return w.outcome == 0


def is_int(w, v, name, label):
    if name not in w.given:
        X.prove(v is None, label)
    else:
        X.prove(v is not None and eq(v, number('int')(Str(name))), label)


def is_time(w, v, name):
    if name not in w.given:
        X.prove(v is None, name)
    else:
        X.prove(v == 'now' or v == ('timestamp', ('float', name)), name)


def is_event_id(w, v):
    n = 'last_event_id'
    if n not in w.given:
        X.prove(v is None, n)
        return
    X.prove(isinstance(v, w.c.EventId), n)
    for i in range(3):
        X.prove(eq(v[i], number('int')(Str((n, i)))), n)


def is_types(w, v, conv, label):
    """v has types of the given arguments"""
    def check(t, k):
        X.prove(isinstance(t, EType) and t.n == 'arg.event_types' and
                eq(mkint(t.t), mkint(k)), label)
    run_of(v, mkint(conv.n), check, label)


@unit('C33', [F + i for i in ('main', 'create_argument_parser', 'register',
                              '_read_payload', '_parse_timestamp',
                              '_parse_event_type')], assumes=A, bounds=())
def register(m):
    w = World(m, 'register')
    c, J = w.c, w.J
    k = X.choose(7, 'case')
    w.given['event_type'] = Str('event_type')
    pts = [None, 'json', 'yaml', 'toml', 'binary', 'none']
    pt = None
    if k == 6:      # options that do not change what is read
        w.base()
        w.option('source_timestamp')
    else:
        pt = pts[k]
        if pt is not None:
            w.given['payload_type'] = pt
        w.option('binary_type')
        if X.choose(2, 'file'):
            w.given['payload_path'] = Str('file')
    failed = X.choose(2, 'registration fails')

    def result(events, with_response=False):
        return None if failed or not with_response else list(events)
    out = w.end(lambda: w.run({'register': w.call('register', result)}))
    w.connected()
    if not w.calls:
        X.prove(isinstance(out, ConnectionError), 'event is registered')
        return
    X.prove(len(w.calls) == 1, 'event is registered once')
    _, (events, *_), _ = w.calls[0]
    events = libs.native(events)
    X.prove(len(events) == 1, 'one event')
    e = events[0]
    X.prove(isinstance(e.type, EType) and e.type.n == 'arg.event_type',
            'event type')
    is_time(w, e.source_timestamp, 'source_timestamp')
    fmt = {'json': J.JSON, 'yaml': J.YAML, 'toml': J.TOML}.get(pt)
    file = 'payload_path' in w.given
    if pt is None:
        if not file:
            fmt = J.JSON
        else:
            fmt = [*J, None][w.fmt] if hasattr(w, 'fmt') else X.prove(
                False, 'format of the file')
    p = e.payload
    if pt == 'none':
        X.prove(p is None, 'no payload')
    elif fmt is None:
        X.prove(isinstance(p, c.EventPayloadBinary), 'binary payload')
        X.prove(p.type == w.given.get('binary_type', ''), 'binary type')
        X.prove(p.data == ('bytes', 'file' if file else 'stdin'),
                'data of the payload')
    else:
        X.prove(isinstance(p, c.EventPayloadJson), 'json payload')
        X.prove(p.data == ('file' if file else 'stdin', fmt),
                'data of the payload')
    if not isinstance(out, ConnectionError) and w.result_known():
        cover('registered')
        X.prove(bool(out) == bool(failed), 'result of the registration')


@unit('C33', [F + i for i in ('main', 'create_argument_parser', 'query',
                              '_parse_event_type', '_parse_event_id',
                              '_parse_timestamp')] + [
    'manager.common:query_result_to_json'], assumes=A, bounds=(), timeout=120)
def query(m):
    i = X.choose(3, 'query')
    w = World(m, 'query', ['latest', 'timeseries', 'server'][i])
    c = w.c
    evs = items('event', {})
    more = sym_bool('more')
    g = w.given
    ts = None
    orders = None
    if i < 2 and X.choose(2, 'event types'):
        ts = g['event_types'] = seq('event_types')
    if i == 1:
        k = X.choose(5, 'options')
        if k == 0:
            w.base()
        elif k == 1:
            for n in ('t_from', 't_to'):
                w.option(n)
        elif k == 2:
            for n in ('source_t_from', 'source_t_to'):
                w.option(n)
        elif k == 3:
            w.option('max_results')
            w.option('last_event_id')
        elif k == 4:
            a = X.choose(2, 'order'), X.choose(2, 'order by')
            orders = list(c.Order)[a[0]], list(c.OrderBy)[a[1]]
            g['order'], g['order_by'] = (v.name for v in orders)
    elif i == 2:
        g['server_id'] = Str('server_id')
        w.option('max_results')
        w.option('last_event_id')
        if X.choose(2, 'persisted'):
            g['persisted'] = True
    else:
        w.base()

    def result(params):
        return c.QueryResult(events=evs, more_follows=more)
    out = w.end(lambda: w.run({'query': w.call('query', result)}))
    w.connected()
    if not w.calls:
        X.prove(isinstance(out, ConnectionError), 'query is asked')
        return
    X.prove(len(w.calls) == 1, 'query is asked once')
    _, (p,), kw = w.calls[0]
    X.prove(not kw, 'query')
    X.prove(type(p) is [c.QueryLatestParams, c.QueryTimeseriesParams,
                        c.QueryServerParams][i], 'kind of the query')
    goal = X.choose(3, 'goal')
    if goal == 0:
        if isinstance(out, ConnectionError) or not w.result_known():
            return
        cover('printed')
        X.prove(not out, 'success')
        X.prove(len(w.out) == 1, 'result is printed once')

        def printed(v):
            def check(e, k):
                X.prove(isinstance(e, EvJson) and isinstance(e.e, Item) and
                        e.e.kind == 'event' and eq(mkint(e.e.t), mkint(k)),
                        'printed events')
            run_of(v, mkint(evs.n), check, 'printed events')
        if X.choose(2, 'events'):
            X.prove(eq(w.out[0]['more_follows'], more), 'more follows')
            X.prove(set(libs.native(w.out[0].keys())) == {
                'events', 'more_follows'}, 'printed result')
        else:
            printed(w.out[0]['events'])
    elif goal == 1 and i < 2:
        if ts is None:
            X.prove(p.event_types is None, 'all types')
        else:
            is_types(w, p.event_types, ts, 'given event types')
    elif goal == 2 and i == 1:
        for n in ('t_from', 't_to', 'source_t_from', 'source_t_to'):
            is_time(w, getattr(p, n), n)
        if orders is None:
            orders = c.Order.DESCENDING, c.OrderBy.TIMESTAMP
        X.prove(p.order is orders[0] and p.order_by is orders[1], 'order')
    if goal == 2 and i:
        is_int(w, p.max_results, 'max_results', 'max results')
        is_event_id(w, p.last_event_id)
        if i == 2:
            is_int(w, p.server_id, 'server_id', 'server')
            X.prove(bool(p.persisted) == ('persisted' in g), 'persisted')


@unit('C33', [F + i for i in ('main', 'create_argument_parser',
                              'subscribe')], assumes=A, bounds=())
def subscribe(m):
    w = World(m, 'subscribe')
    g = w.given
    w.base()
    ts = None
    if X.choose(2, 'event types'):
        ts = g['event_types'] = seq('event_types')
    w.option('server_id')
    if X.choose(2, 'persisted'):
        g['persisted'] = True
    evs = items('event', {})
    sent = []

    def notify():
        cb = w.conns[0][2].get('events_cb')
        X.prove(cb is not None, 'notifications are handled')
        for _ in range(X.choose(3, 'notifications')):
            libs.await_(aiom.call(cb, w.client, evs))
            sent.append(1)
    out = w.end(lambda: w.run({
        'wait_closing': w.call('wait', notify), 'wait_closed':
        w.call('wait', notify)}))
    kw = w.connected()
    if not w.calls:
        X.prove(isinstance(out, ConnectionError), 'connection is kept')
        return
    goal = X.choose(3, 'goal')
    if goal == 0:
        is_int(w, kw.get('server_id'), 'server_id', 'server')
        X.prove(bool(kw.get('persisted')) == ('persisted' in g), 'persisted')
        X.prove(kw.keys() <= {'subscriptions', 'server_id', 'persisted',
                              'events_cb', 'status_cb'}, 'connection')
    elif goal == 1:
        s = kw.get('subscriptions')
        if ts is None:
            X.prove(libs.native(s) == [('*',)], 'all types')
        elif X.decide(ts.n == 0):
            X.prove(libs.native(s) == [('*',)], 'all types')
        else:
            is_types(w, s, ts, 'given event types')
    else:
        X.prove(len(w.out) == len(sent), 'every notification is printed')
        if sent:
            cover('notified')

            def check(e, k):
                X.prove(isinstance(e, EvJson) and isinstance(e.e, Item) and
                        e.e.kind == 'event' and eq(mkint(e.e.t), mkint(k)),
                        'printed events')
            run_of(w.out[-1], mkint(evs.n), check, 'printed events')


@unit('C33', ['manager.common:' + i for i in (
    'event_to_json', '_event_id_to_json', '_timestamp_to_json',
    '_event_payload_to_json')], bounds=())
def events(m):
    event_json(m, m.load(CMN), [
        lambda t: {'data_type': 'binary', 'binary_type': t, 'data': None},
        lambda t: {'data_type': 'json', 'data': None}])
