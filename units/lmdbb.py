"""LMDB backend: creation from its configuration, queries, cleanup loop
(C08, C09, C10, C12, C13, C14, C15, C16)."""

import types

import z3

from vf import libs, seqs, aiom
from vf.unit import unit, cover
from units.lib import *     # noqa
from vf.syms import sym_bool
from units.c16 import types_seq, types_id, etype

BE = 'hat.event.backends.lmdb.backend'
F = 'backends.lmdb.backend:'
Cancelled = libs._asyncio.CancelledError
A = ['contracts of hat.aio (Group.spawn, call_on_done, uncancellable) and of '
     'Environment.execute: calls the function in the executor']
LIMITS = ['min_entries', 'max_entries', 'duration', 'size']


def also(props, functions, **k):
    """one unit for several properties, each with its own obligations"""
    def deco(f):
        for p in props:
            def run(m, p=p):
                return f(m, p)
            run.__name__ = f.__name__
            unit(p, functions, bounds=(), name='backend_' + f.__name__,
                 **k)(run)
        return f
    return deco


class Conf(Item):
    """JSON object with some keys"""
    __slots__ = ()

    def _subst_(self, pairs):
        return type(self)(seqs.tsub(self.t, pairs), self.kind, self.f)

    def _contains_(self, n):
        return self.f['in'](self.t, n)

    __contains__ = _contains_


class Fail(Exception):
    pass


@also(['C08', 'C09', 'C10', 'C11', 'C13', 'C14', 'C15', 'C16'],
      [F + 'create'], assumes=A, timeout=120)
def create(m, prop):
    r = m.load(BE)
    tdb = r.timeseriesdb

    def prove(ps, cond, label):
        if prop in ps.split():
            X.prove(cond, label)
    ORD, SUBS, LSUB = (z3.Function(i, I, I) for i in (
        'conf.order', 'conf.subs', 'latest.subs'))
    HAS = z3.Function('conf.limit', I, B)
    LIM = {n: fn(OptC(IntC(0)), 'limit.' + n) for n in LIMITS}

    def limit_conf(t):
        return Conf(t, 'limit', {
            'get': lambda t: lambda n, d=None: LIM[n](t),
            '[]': lambda t, n: LIM[n](t)})

    def item(t, n):
        if n == 'order_by':
            return Item(ORD(t), 'order_name', {})
        if n == 'subscriptions':
            return types_seq(SUBS(t), 'jtype', list)
        if n == 'limit':
            X.prove(HAS(t), 'limit is configured')
            return limit_conf(t)
        raise KeyError(n)

    def get(t):
        def f(n, d=None):
            if n != 'limit':
                return item(t, n)
            return limit_conf(t) if X.decide(HAS(t)) else d
        return f
    n = X.fresh('partitions', I)
    X.assume(n >= 0)
    g = z3.Const(X.name('g'), I)
    cf = {'[]': item, 'get': get,
          'in': lambda t, n: mkbool(HAS(t)) if n == 'limit' else True}
    sg = Seg(g, z3.IntVal(0), n, [(T, Conf(g, 'pconf', cf))])
    sg.sp = seqs.new_space()
    pconf = MList.of([sg])
    conf = {'db_path': object(), 'identifier': Val(), 'conditions': object(),
            'flush_period': Val(), 'cleanup_period': Val(),
            'latest': MDict([('subscriptions', types_seq(
                LSUB(z3.IntVal(0)), 'jtype', list))]), 'timeseries': pconf}
    if X.choose(2, 'max_results'):
        conf['timeseries_max_results'] = Val()
    if X.choose(2, 'cache'):
        conf['timeseries_event_type_cache_size'] = Val()
    cbs = object(), object()
    w = types.SimpleNamespace(env=None, closed=0, spawned=[], done=[],
                              created=0, fail=None)
    path, cond, loop = object(), object(), object()

    class Group:
        def __init__(self):
            self.closes = 0
            w.group = self

        def spawn(self, f, *a):
            w.spawned.append((f, a))

        def close(self):
            self.closes += 1

    def fails(label):
        if X.choose(2, label):
            w.fail = [Fail, Cancelled][X.choose(2, 'how')]()
            raise w.fail

    class Env:
        def wait_closing(self):
            return ('closing', self)

        def async_close(self):
            def run():
                w.closed += 1
            return aiom.Now(run)

        def execute(self, f, *a):
            def run():
                if f is not r._ext_create_dbs or len(a) != 7:
                    raise Unsupported('creation of databases')
                prove('C14', a[0] is w.env, 'environment of the databases')
                prove('C16', a[1] is conf['identifier'], 'identifier')
                prove('C08', a[2] is cond, 'conditions of every table')
                w.latest, w.parts = a[3], a[4]
                prove('C11 C10', a[5] is conf.get(
                    'timeseries_max_results', r.default_timeseries_max_results
                ), 'limit of results')
                w.created += 1
                fails('creation fails')
                return w.dbs
            return aiom.Now(run)
    w.dbs = object()

    def create_env(p, *a, **k):
        def run():
            prove('C14', p is path, 'configured database')
            fails('environment fails')
            w.env = Env()
            return w.env
        return aiom.Now(run)

    def conditions(c):
        prove('C08', c is conf['conditions'], 'configured conditions')
        return cond

    def create_subscription(ts, *a):
        v = ts if isinstance(ts, (MList, SymTup)) else libs.vc_list(ts)
        k = types_id(v, 'etype', list)
        if k is None:
            raise Unsupported('subscription of other types')
        return Item(k[0], 'sub', {})

    class Order:
        def __getitem__(self, x):
            if isinstance(x, Item) and x.kind == 'order_name':
                return Item(x.t, 'order', {})
            raise Unsupported('order')

    def to_path(x):
        prove('C14', x is conf['db_path'], 'configured path')
        return path

    def _tuple(x=()):
        if isinstance(x, Item) and x.kind in ('etype', 'jtype'):
            return etype('etype', x.t)
        return libs.vc_tuple(x)

    def call_on_done(f, fun, *a):
        raise Unsupported('called')
    common = Over(r.common, create_subscription=create_subscription,
                  OrderBy=Order())
    exc = None
    with Patch(r, common=common, tuple=_tuple, Path=to_path,
               Conditions=conditions,
               asyncio=Over(r.asyncio, get_running_loop=lambda: loop),
               aio=Over(r.aio, Group=Group, Queue=lambda *a: ('queue', a),
                        uncancellable=aiom.uncancellable,
                        call_on_done=call_on_done),
               environment=types.SimpleNamespace(create=create_env)):
        try:
            b = libs.await_(r.create(MDict(list(conf.items())), *cbs))
        except Ctl:
            raise
        except (Fail, Cancelled) as e:
            exc = e
    if exc is not None:
        cover('failed')
        X.prove(exc is w.fail, 'error of the environment')
        prove('C14', w.env is None or w.closed == 1,
              'environment is closed when the creation fails')
        return
    cover('created')
    X.prove(w.fail is None, 'failed creation is reported')
    X.prove(w.created == 1 and b._dbs is w.dbs, 'databases')
    prove('C14', w.closed == 0 and b._env is w.env, 'environment')
    prove('C15', b._registered_events_cb is cbs[0] and
          b._flushed_events_cb is cbs[1], 'callbacks')
    prove('C15', eq(libs.vc_len(b._registered_queue), 0), 'nothing queued')
    prove('C08', b._conditions is cond, 'conditions of registration')
    prove('C15', b._loop is loop, 'loop')
    if any(f not in (b._flush_loop, b._cleanup_loop, call_on_done)
           for f, a in w.spawned):
        raise Unsupported('other task')
    fl = [a for f, a in w.spawned if f == b._flush_loop]
    cl = [a for f, a in w.spawned if f == b._cleanup_loop]
    prove('C14 C15', len(fl) == 1 and len(fl[0]) == 1 and
          fl[0][0] is conf['flush_period'], 'flushes with its period')
    prove('C13', len(cl) == 1 and len(cl[0]) == 1 and
          cl[0][0] is conf['cleanup_period'], 'cleans up with its period')
    dn = [a for f, a in w.spawned if f is call_on_done]
    X.prove(len(dn) == 1 and dn[0][0] == ('closing', w.env),
            'bound to the environment')
    k = w.group.closes
    dn[0][1](*dn[0][2:])
    X.prove(w.group.closes > k, 'closes with the environment')
    prove('C09', isinstance(w.latest, Item) and w.latest.kind == 'sub' and
          w.latest.t == LSUB(z3.IntVal(0)), 'latest subscription')
    if prop not in ('C10', 'C13'):
        return
    prove('C10 C13', eq(libs.vc_len(w.parts), mkint(n)),
          'every configured partition')
    parts = w.parts if isinstance(w.parts, MList) else libs.vc_list(w.parts)
    j = X.fresh('j', I)
    X.assume(z3.And(j >= 0, j < n))
    add_index(j)
    p = parts[mkint(j)]
    cover('partition')
    prove('C10', p.order_by.kind == 'order' and p.order_by.t == ORD(j),
          'ordering key of the partition')
    prove('C10', p.subscription.kind == 'sub' and
          p.subscription.t == SUBS(j), 'subscription of the partition')
    if prop == 'C13':
        if p.limit is None:
            X.prove(z3.Not(HAS(j)), 'configured limit is kept')
            return
        cover('limit')
        X.prove(HAS(j), 'no limit is not configured')
        for i in LIMITS:
            v = getattr(p.limit, i)
            want = LIM[i](j)
            X.prove(eq(v, want), f'limit {i}')


@also(['C09', 'C10', 'C12'], [F + 'LmdbBackend.query'], assumes=A)
def query(m, prop):
    r = m.load(BE)
    c = r.common
    b = object.__new__(r.LmdbBackend)
    kind = {'C09': 'QueryLatestParams', 'C10': 'QueryTimeseriesParams',
            'C12': 'QueryServerParams'}[prop]
    table = {'C09': 'latest', 'C10': 'timeseries', 'C12': 'ref'}[prop]
    params = getattr(c, kind)(**({'server_id': 1} if prop == 'C12' else {}))
    result = object()
    asked = []

    class Group:
        is_open = sym_bool('open')
    b._async_group = Group()

    def ask(p):
        X.prove(p is params, 'asked query')
        asked.append(1)
        return result if prop == 'C09' else aiom.Now(lambda: result)

    def db(n):
        def other(p):
            X.prove(False, 'table of the query')
        return types.SimpleNamespace(query=ask if n == table else other)
    b._dbs = types.SimpleNamespace(
        **{i: db(i) for i in ('system', 'latest', 'timeseries', 'ref')})
    try:
        res = libs.await_(b.query(params))
    except Ctl:
        raise
    except c.BackendClosedError:
        cover('closed')
        X.prove(not_(Group.is_open), 'open backend answers')
        X.prove(not asked, 'closed backend is not asked')
        return
    cover('answered')
    X.prove(Group.is_open, 'closed backend reports it')
    X.prove(res is result and len(asked) == 1, 'answer of the table')


@also(['C13'], [F + 'LmdbBackend._cleanup_loop'], assumes=A, timeout=120)
def cleanup_loop(m, prop):
    r = m.load(BE)
    b = object.__new__(r.LmdbBackend)
    w = types.SimpleNamespace(closes=0, now=None, state='start', exc=None,
                              repeat=False)
    period = Val()

    class Group:
        is_open = True

        def close(self):
            w.closes += 1
    b._async_group = Group()
    b._dbs = object()

    def interrupt():
        k = X.choose(2, 'cancelled')
        if k:
            w.exc = Cancelled()
            raise w.exc

    def now():
        w.now = Val()
        return w.now

    def execute(f, *a):
        def run():
            if f is not r._ext_cleanup or len(a) != 3:
                raise Unsupported('cleanup')
            X.prove(a[0] is b._env and a[1] is b._dbs, 'cleanup of tables')
            X.prove(w.now is not None and a[2] is w.now, 'current time')
            w.now = None
            w.state = 'cleaned'
            interrupt()
            if X.choose(2, 'fails'):
                w.exc = Fail()
                raise w.exc
            w.repeat = X.choose(2, 'repeat')
            return bool(w.repeat)
        return aiom.Now(run)
    b._env = types.SimpleNamespace(execute=execute)

    def sleep(t):
        def run():
            if t is period:
                X.prove(w.state == 'cleaned' and not w.repeat,
                        'waits after the last pass')
                w.state = 'sleep'
            elif type(t) is not int or t != 0:
                raise Unsupported('other delay')
            interrupt()
        return aiom.Now(run)

    def before(start):
        w.state, w.now, w.repeat = 'start', None, False

    def after(start, end):
        X.prove(w.state == ('cleaned' if w.repeat else 'sleep'),
                'waits only after the last pass')
        cover('round')
        X.prove(w.closes == 0, 'keeps running')
    try:
        with Patch(r, asyncio=Over(r.asyncio, sleep=sleep),
                   common=Over(r.common, now=now)):
            X.while_rule = WhileRule(lambda n, v: None, lambda ls: None,
                                     before, after, lambda ls: None,
                                     plain=True)
            libs.await_(b._cleanup_loop(period))
    except Cancelled as e:
        cover('cancelled')
        X.prove(e is w.exc, 'cancelled')
    else:
        cover('failed')
    X.prove(w.exc is not None, 'ends only when cancelled or failed')
    X.prove(w.closes > 0, 'closes the backend')


# ------------------------------------------------------------ environment

ENV = 'hat.event.backends.lmdb.environment'
E = 'backends.lmdb.environment:'
AX = ['contracts of hat.aio (Group.spawn, call_on_cancel, uncancellable, '
      'Executor with one worker: calls run one by one in order)']


@also(['C14'], [E + 'create', E + 'Environment._on_close',
                E + 'Environment.execute'], assumes=AX)
def environment(m, prop):
    r = m.load(ENV)
    w = types.SimpleNamespace(spawned=[], workers=None, log=[], fail=None,
                              closed=0, open=True)

    class Group:
        def spawn(self, f, *a):
            w.spawned.append((f, a))

        @property
        def is_open(self):
            return w.open

    class Executor:
        def __init__(self, n=None, *a, **k):
            X.prove(n == 1, 'calls run one by one')

        def spawn(self, f, *a):
            def run():
                w.log.append((f, a))
                if w.init and X.choose(2, 'fails'):
                    w.fail = [Fail, Cancelled][X.choose(2, 'how')]()
                    raise w.fail
                return w.result
            return aiom.Now(run)

        def async_close(self):
            return aiom.Now(lambda: w.log.append('closed'))
    w.init, w.result = True, None

    def on_cancel(f, *a):
        raise Unsupported('called')

    def init(self, *a):
        raise Unsupported('called')

    def async_close(self):
        def run():
            w.closed += 1
        return aiom.Now(run)
    path, size = object(), Val()
    with Patch(r, aio=Over(r.aio, Group=Group, Executor=Executor,
                           call_on_cancel=on_cancel,
                           uncancellable=aiom.uncancellable),
               asyncio=Over(r.asyncio, get_running_loop=object)), \
            Patch(r.Environment, _ext_init=init, async_close=async_close):
        try:
            e = libs.await_(r.create(path, size))
        except (Fail, Cancelled) as ex:
            cover('failed')
            X.prove(ex is w.fail, 'error of the creation')
            X.prove(w.closed == 1, 'closed when the creation fails')
            return
        cover('created')
        X.prove(w.fail is None and w.closed == 0, 'created')
        f, a = w.log[0]
        X.prove(len(w.log) == 1 and f == e._ext_init and
                a[0] is path and a[1] is size, 'configured database')
        X.prove(w.spawned == [(on_cancel, (e._on_close,))],
                'closed with its group')
        # calls
        w.init, w.log, w.result = False, [], object()
        fun, args = object(), (Val(), Val())
        if X.choose(2, 'closed'):
            w.open = False
            try:
                libs.await_(e.execute(fun, *args))
            except Ctl:
                raise
            except Exception:
                limit()
                cover('rejected')
                X.prove(not w.log, 'closed environment is not used')
            else:
                X.prove(False, 'closed environment reports it')
        else:
            res = libs.await_(e.execute(fun, *args))
            X.prove(res is w.result and len(w.log) == 1 and
                    w.log[0][0] is fun and all(
                        i is j for i, j in zip(w.log[0][1], args)) and
                    len(w.log[0][1]) == 2, 'runs in the executor')
        # closing
        w.log = []
        close = object()
        e._env = types.SimpleNamespace(close=close) \
            if X.choose(2, 'opened') else None
        libs.await_(e._on_close())
        X.prove(w.log == ([(close, ())] if e._env else []) + ['closed'],
                'closed after all calls before')


TDB = 'hat.event.backends.lmdb.timeseriesdb'


@also(['C10'], ['backends.lmdb.timeseriesdb:ext_create'], assumes=[
    'functools.lru_cache gives the values of the function',
    'contract of event type collections (C03)'])
def timeseries(m, prop):
    r = m.load(TDB)
    env, txn, cond, conf, limit_, cache = (object() for _ in range(6))
    SUB = z3.Function('partition.sub', I, I)
    parts = items('partition', {
        'subscription': lambda t: Item(SUB(t), 'sub', {})}, 'partitions')
    PID = z3.Function('partition.id', I, I)
    g = z3.Const(X.name('g'), I)
    sg = Seg(g, z3.IntVal(0), parts.n, [(T, (mkint(PID(g)), pick(
        parts.parts[0], g)))])
    sg.sp = parts.sp
    rows = MList.of([sg])
    w = types.SimpleNamespace(given=None)
    etype_, found = object(), items('found', {}, 'found')

    def init(e, t, p):
        X.prove(e is env and t is txn and p is conf, 'partitions')
        return rows

    class Coll:
        def get(self, t):
            X.prove(t is etype_, 'partitions of the type')
            return found

    def collection(x=()):
        X.prove(w.given is None, 'one collection')
        w.given = libs.vc_list(x)
        return Coll()

    def as_dict(x=()):
        if x is rows:
            return types.SimpleNamespace(items=lambda: rows, _rows=rows)
        return libs.vc_dict(x)

    def lru_cache(maxsize=None, typed=False):
        return lambda f: f
    with Patch(r, _ext_init_partitions=init, dict=as_dict,
               functools=types.SimpleNamespace(lru_cache=lru_cache),
               common=Over(r.common, create_event_type_collection=collection)):
        db = r.ext_create(env, txn, cond, conf, limit_, cache)
    X.prove(db._env is env and db._conditions is cond and
            db._max_results is limit_, 'arguments')
    X.prove(db._partitions.items() is rows, 'partitions in order')
    X.prove(eq(libs.vc_len(db._changes), 0), 'nothing is pending')
    res = db._get_event_type_partitions(etype_)

    def body(x, y):
        cover('same')
        X.prove(eq(x, y), 'partitions of a type')

    def pair(x, y):
        cover('partition')
        s, (i, p) = x
        X.prove(eq(i, y[0]) and eq(p, y[1]) and
                eq(s, y[1].subscription), 'partition and its subscription')
    if X.choose(2, 'what'):
        same(res, found, body, 'partitions of a type')
    else:
        same(w.given, rows, pair, 'partitions by subscription')
