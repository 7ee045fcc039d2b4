"""The real manager commands run in-process with random arguments against a
real eventer server on loopback, payloads read from files in a scratch
directory and from standard input; what the server gets, what is printed and
the exit code compared with the arguments."""

import asyncio
import contextlib
import io
import json as pyjson
import pathlib
import sys

from refute.common import (Violation, free_port, run_async, wait_until,
                           event_type, json_data, timestamp, matches_any)


def run(ctx):
    from hat import aio
    from hat.drivers import tcp
    from hat.event import common as ec
    from hat.event import eventer
    from hat.event.manager import main as mgr
    rng = ctx.rng
    ctx.rule = 'one case per command with its arguments'
    aio.init_asyncio = lambda *a, **kw: None
    aio.run_asyncio = lambda co, *a, **kw: co

    def arg_type(query=False):
        segs = ['a', 'b', 'é', 'x y'] + (['?'] if query else [])
        t = tuple(rng.choice(segs) for _ in range(rng.randint(1, 3)))
        return t + ('*',) if query and rng.random() < 0.3 else t

    def event():
        k = rng.randrange(3)
        p = None
        if k == 1:
            p = ec.EventPayloadBinary(rng.choice(['', 'a']), bytes(
                rng.randrange(256) for _ in range(rng.choice([0, 1, 9]))))
        elif k == 2:
            p = ec.EventPayloadJson(json_data(rng))
        return ec.Event(id=ec.EventId(rng.choice([0, 1, 2]),
                                      rng.randint(0, 9), rng.randint(0, 9)),
                        type=arg_type(), timestamp=timestamp(rng, ec),
                        source_timestamp=timestamp(rng, ec)
                        if rng.random() < 0.5 else None, payload=p)

    def j_ts(t):
        return None if t is None else {'s': t.s, 'us': t.us}

    def j_event(e):
        p = e.payload
        if isinstance(p, ec.EventPayloadBinary):
            p = {'data_type': 'binary', 'binary_type': p.type,
                 'data': bytes(p.data).hex()}
        elif p is not None:
            p = {'data_type': 'json', 'data': p.data}
        return {'id': e.id._asdict() and {
                    'server': e.id.server, 'session': e.id.session,
                    'instance': e.id.instance},
                'type': list(e.type), 'timestamp': j_ts(e.timestamp),
                'source_timestamp': j_ts(e.source_timestamp), 'payload': p}

    class Stdin(io.TextIOWrapper):
        pass

    @contextlib.contextmanager
    def process(args, stdin, out):
        saved = sys.argv, sys.stdin
        sys.argv = ['hat-event-manager', *args]
        sys.stdin = Stdin(io.BytesIO(stdin), encoding='utf-8')
        try:
            with contextlib.redirect_stdout(out):
                yield
        finally:
            sys.argv, sys.stdin = saved

    async def command(args, stdin=b''):
        out, err = io.StringIO(), io.StringIO()
        with process(args, stdin, out):
            try:
                with contextlib.redirect_stderr(err):
                    co = mgr.main()
                code = await asyncio.wait_for(co, 20)
            except SystemExit as e:
                raise Violation('command is refused', args=args,
                                error=err.getvalue(), code=e.code)
            except Exception as e:
                raise Violation('command fails', args=args, error=repr(e))
        try:
            return code, [pyjson.loads(i)
                          for i in out.getvalue().splitlines()]
        except ValueError:
            raise Violation('printed data', args=args, out=out.getvalue())

    def opt_time(args, name):
        if rng.random() < 0.5:
            return None
        v = rng.choice(['now', '0', '12.5', '1700000000.25'])
        args += [name, v]
        return v

    def same_time(got, v):
        if v is None or got is None:
            return got is None and v is None
        if v == 'now':
            return abs(ec.timestamp_to_float(got) -
                       ec.timestamp_to_float(ec.now())) < 60
        return ec.timestamp_to_float(got) == float(v)

    async def one(d):
        st = dict(infos=[], gone=[], registered=[], queries=[])
        answer = {}
        addr = tcp.Address('127.0.0.1', free_port())

        def register(info, events):
            st['registered'].append(list(events))
            return answer['register']

        async def query(info, params):
            st['queries'].append(params)
            if answer['query'] is None:
                await answer['release'].wait()
                return ec.QueryResult([], False)
            return answer['query']
        srv = await eventer.listen(
            addr, register_cb=register, query_cb=query,
            connected_cb=lambda i: st['infos'].append(i),
            disconnected_cb=lambda i: st['gone'].append(i))
        try:
            for _ in range(6):
                for v in st.values():
                    v.clear()
                args = ['--port', str(addr.port)]
                name = rng.choice([None, 'n1', ''])
                token = rng.choice([None, 'tok', ''])
                if name is not None:
                    args += ['--client-name', name]
                if token is not None:
                    args += ['--client-token', token]
                if rng.random() < 0.5:
                    args += ['--host', '127.0.0.1']
                await rng.choice([reg, que, que, sub, cancel])(srv, st, answer, args, d)
                ctx.eq(len(st['infos']), 1, 'one connection', args=args)
                i = st['infos'][0]
                ctx.eq((i.client_name, i.client_token),
                       ('manager' if name is None else name, token), 'client', args=args)
                ctx.check(await wait_until(lambda: st['gone']),
                          'connection is closed', args=args)
                ctx.case(repr(args))
        finally:
            await srv.async_close()

    async def reg(srv, st, answer, args, d):
        args.append('register')
        t = arg_type()
        sts = opt_time(args, '--source-timestamp')
        kind = rng.choice([None, 'json', 'yaml', 'toml', 'binary', 'none'])
        if kind:
            args += ['--payload-type', kind]
        bt = ''
        if rng.random() < 0.3:
            bt = rng.choice(['b', 'é'])
            args += ['--binary-type', bt]
        data = json_data(rng)
        raw = bytes(rng.randrange(256) for _ in range(rng.choice([0, 3])))
        ext = rng.choice(['json', 'yaml', 'yml', 'toml', 'bin'])
        file = rng.random() < 0.5
        fmt = kind
        if kind is None:
            fmt = 'json' if not file else {
                'yml': 'yaml', 'bin': 'binary'}.get(ext, ext)
        if fmt == 'toml':
            data = {'a': 1, 'b': {'c': 'é', 'd': [1, 2]}}
            content = 'a = 1\n[b]\nc = "é"\nd = [1, 2]\n'.encode()
        elif fmt == 'yaml' and rng.random() < 0.7:
            data = {'a': [1, 'b'], 'c': None}
            content = b'# data\na:\n- 1\n- b\nc: null\n'
        elif fmt in ('json', 'yaml'):
            content = pyjson.dumps(data).encode()
        else:
            content = raw
        if file:
            p = d / f'payload.{ext}'
            p.write_bytes(content)
            args += ['--payload-path', str(p)]
        args.append('/'.join(t))
        fails = rng.random() < 0.4
        answer['register'] = None if fails else [event()]
        code, out = await command(args, content)
        ctx.eq(len(st['registered']), 1, 'one registration', args=args)
        evs, = st['registered']
        ctx.eq(len(evs), 1, 'one event', args=args)
        e, = evs
        ctx.eq(tuple(e.type), t, 'event type', args=args)
        ctx.check(same_time(e.source_timestamp, sts), 'source timestamp',
                  args=args, got=e.source_timestamp)
        p = e.payload
        if fmt == 'none':
            ctx.eq(p, None, 'no payload', args=args)
        elif fmt == 'binary':
            ctx.check(isinstance(p, ec.EventPayloadBinary), 'payload',
                      args=args)
            ctx.eq((p.type, bytes(p.data)), (bt, raw), 'payload', args=args)
        else:
            ctx.check(isinstance(p, ec.EventPayloadJson), 'payload',
                      args=args)
            ctx.eq(repr(p.data), repr(data), 'payload', args=args)
        ctx.eq(bool(code), fails, 'result of the registration', args=args)

    async def que(srv, st, answer, args, d):
        k = rng.choice(['latest', 'timeseries', 'server'])
        args += ['query', k]
        want = {}
        if k != 'server':
            want['event_types'] = None
            if rng.random() < 0.6:
                ts = [arg_type(True) for _ in range(rng.randint(1, 3))]
                args += ['--event-types', *['/'.join(t) for t in ts]]
                want['event_types'] = ts
        times = {}
        if k == 'timeseries':
            for n in ('t_from', 't_to', 'source_t_from', 'source_t_to'):
                times[n] = opt_time(args, '--' + n.replace('_', '-'))
            o, b = ec.Order.DESCENDING, ec.OrderBy.TIMESTAMP
            if rng.random() < 0.5:
                o = rng.choice(list(ec.Order))
                args += ['--order', o.name]
            if rng.random() < 0.5:
                b = rng.choice(list(ec.OrderBy))
                args += ['--order-by', b.name]
            want.update(order=o, order_by=b)
        if k != 'latest':
            want.update(max_results=None, last_event_id=None)
            if rng.random() < 0.5:
                want['max_results'] = n = rng.choice([0, 1, 100])
                args += ['--max-results', str(n)]
            if rng.random() < 0.5:
                i = ec.EventId(rng.randint(0, 9), 2 ** 40, rng.randint(0, 9))
                want['last_event_id'] = i
                args += ['--last-event-id', ','.join(map(str, i))]
        if k == 'server':
            want.update(server_id=rng.choice([0, 3]),
                        persisted=rng.random() < 0.5)
            if want['persisted']:
                args.append('--persisted')
            args.append(str(want['server_id']))
        evs = [event() for _ in range(rng.randint(0, 3))]
        more = rng.random() < 0.5
        answer['query'] = ec.QueryResult(evs, more)
        code, out = await command(args)
        ctx.eq(len(st['queries']), 1, 'one query', args=args)
        p, = st['queries']
        ctx.check(isinstance(p, {'latest': ec.QueryLatestParams,
                                 'timeseries': ec.QueryTimeseriesParams,
                                 'server': ec.QueryServerParams}[k]),
                  'kind of the query', args=args, got=p)
        got = p._asdict()
        for n, v in times.items():
            ctx.check(same_time(got.pop(n), v), n, args=args, got=p)
        if got.get('event_types') is not None:
            got['event_types'] = [tuple(i) for i in got['event_types']]
        ctx.eq(got, want, 'query', args=args)
        ctx.check(not code, 'success', args=args)
        ctx.eq(out, [{'events': [j_event(e) for e in evs],
                      'more_follows': more}], 'printed result', args=args)

    async def cancel(srv, st, answer, args, d):
        args += ['query', 'latest']
        answer['query'] = None
        answer['release'] = asyncio.Event()
        task = asyncio.create_task(command(args))
        ctx.check(await wait_until(lambda: st['queries'] or task.done()),
                  'query', args=args)
        task.cancel()
        with contextlib.suppress(asyncio.CancelledError):
            await task
        ctx.check(await wait_until(lambda: not any(
            c.is_open for c in srv._conn_infos)),
                  'connection of a cancelled command is closed', args=args)
        answer['release'].set()

    async def sub(srv, st, answer, args, d):
        args.append('subscribe')
        server_id, persisted = rng.choice([None, 0, 1, 2]), rng.random() < 0.4
        if server_id is not None:
            args += ['--server-id', str(server_id)]
        if persisted:
            args.append('--persisted')
        ts = [arg_type(True) for _ in range(rng.randint(0, 2))]
        args += ['/'.join(t) for t in ts]
        sent = []

        async def serve():
            if not await wait_until(lambda: srv.get_conn_infos()):
                return
            # the connection is not closed while it is established
            await wait_until(ready.is_set, 3)
            for _ in range(rng.randint(0, 3)):
                evs = [event() for _ in range(rng.randint(1, 3))]
                p = rng.random() < 0.5
                sent.append((evs, p))
                await srv.notify_events(evs, p, True)
            for conn in list(srv._conn_infos):
                conn.close()
        task = asyncio.create_task(serve())
        connect, ready = eventer.connect, asyncio.Event()

        async def connected(*a, **kw):
            r = await connect(*a, **kw)
            ready.set()
            return r
        eventer.connect = connected
        try:
            code, out = await command(args)
        finally:
            eventer.connect = connect
            task.cancel()
        i, = st['infos'] or [None]
        ctx.check(i is not None, 'connection', args=args)
        ctx.eq((i.server_id, i.persisted), (server_id, persisted),
               'subscription', args=args)
        want = []
        for evs, p in sent:
            r = [j_event(e) for e in evs if p == persisted and
                 server_id in (None, e.id.server) and
                 matches_any(e.type, ts or [('*',)])]
            if r:
                want.append(r)
        ctx.eq(out, want, 'printed notifications', args=args)

    for _ in ctx.rounds(6):
        with ctx.tmp() as d:
            run_async(one(pathlib.Path(d)), 120)
