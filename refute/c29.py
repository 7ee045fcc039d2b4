"""Administration client against the real server (random callbacks, errors,
JSON confs) and against a scripted server that answers <= 8 concurrent calls
in random order, with cancelled calls, stray responses and closing; the
AdminerServer applies configurations through logging.config.dictConfig."""

import asyncio
import logging
import logging.config

from refute.common import (free_port, json_data, run_async, settle,
                           wait_until)


def run(ctx):
    from hat import json
    from hat.drivers import tcp, chatter
    from hat.event import adminer
    from hat.event.eventer import common as evc
    from hat.event.server.adminer_server import create_adminer_server
    rng = ctx.rng
    ctx.rule = 'one case per sequence of calls'

    async def real():
        addr = tcp.Address('127.0.0.1', free_port())
        state = {'get': None, 'fail': None}
        seen = []
        sync = rng.random() < 0.5

        def get_sync():
            seen.append('get')
            if state['fail'] is not None:
                raise Exception(state['fail'])
            return state['get']

        async def get_async():
            await asyncio.sleep(0)
            return get_sync()

        def set_sync(conf):
            seen.append(('set', conf))
            if state['fail'] is not None:
                raise Exception(state['fail'])

        async def set_async(conf):
            await asyncio.sleep(0)
            return set_sync(conf)
        have_get, have_set = rng.random() < 0.9, rng.random() < 0.9
        srv = await adminer.listen(
            addr,
            get_log_conf_cb=((get_sync if sync else get_async)
                             if have_get else None),
            set_log_conf_cb=((set_sync if sync else set_async)
                             if have_set else None))
        clients = [await adminer.connect(addr)
                   for _ in range(rng.randint(1, 3))]
        log = []
        try:
            for _ in range(rng.randint(2, 10)):
                cl = rng.choice(clients)
                state['get'] = json_data(rng)
                state['fail'] = rng.choice([None, None, 'bad thing',
                                            'žluť', ''])
                seen.clear()
                if rng.random() < 0.5:
                    log.append(('get', state['get'], state['fail']))
                    try:
                        r = await asyncio.wait_for(cl.get_log_conf(), 5)
                    except adminer.AdminerError as e:
                        if have_get:
                            ctx.check(state['fail'] is not None and
                                      e.args == (state['fail'],),
                                      'error of get', got=e.args, log=log)
                        continue
                    ctx.check(have_get and state['fail'] is None,
                              'failed get answered', log=log)
                    ctx.check(repr(r) == repr(state['get']),
                              'configuration returned', got=r, log=log)
                    ctx.eq(seen, ['get'], 'provider called once', log=log)
                else:
                    conf = json_data(rng)
                    log.append(('set', conf, state['fail']))
                    try:
                        r = await asyncio.wait_for(cl.set_log_conf(conf), 5)
                    except adminer.AdminerError as e:
                        if have_set:
                            ctx.check(state['fail'] is not None and
                                      e.args == (state['fail'],),
                                      'error of set', got=e.args, log=log)
                            ctx.check(repr(seen) == repr([('set', conf)]),
                                      'configuration applied', got=seen)
                        continue
                    ctx.check(have_set and state['fail'] is None,
                              'failed set answered', log=log)
                    ctx.check(repr(seen) == repr([('set', conf)]),
                              'configuration applied', got=seen, log=log)
            ctx.check(all(c.is_open for c in clients),
                      'connections stay usable', log=log)
            if have_get:
                state['fail'] = None
                n = rng.randint(2, 5)
                r = await asyncio.wait_for(asyncio.gather(
                    *[c.get_log_conf() for c in clients
                      for _ in range(n)]), 5)
                ctx.check(all(repr(i) == repr(state['get']) for i in r),
                          'concurrent calls', got=r)
            ctx.case(repr(log))
        finally:
            for c in clients:
                await c.async_close()
            await srv.async_close()

    async def scripted():
        addr = tcp.Address('127.0.0.1', free_port())
        inbox = []
        conns = []

        async def on_conn(conn):
            conns.append(conn)
            try:
                while True:
                    inbox.append(await evc.receive_msg(conn))
            except ConnectionError:
                pass
        srv = await chatter.listen(on_conn, addr)
        cl = await adminer.connect(addr)
        log = []
        try:
            await wait_until(lambda: conns)
            conn = conns[0]
            calls = []
            for i in range(rng.randint(1, 8)):
                n0 = len(inbox)
                kind = rng.choice(['get', 'set'])
                conf = json_data(rng)
                t = asyncio.create_task(cl.get_log_conf() if kind == 'get'
                                        else cl.set_log_conf(conf))
                ok = await wait_until(lambda: len(inbox) > n0, 5)
                ctx.check(ok, 'request sent', kind=kind)
                msg, mt, md = inbox[-1]
                if kind == 'get':
                    ctx.check(mt == 'HatEventAdminer.MsgGetLogConfReq',
                              'get request', got=mt)
                else:
                    ctx.check(mt == 'HatEventAdminer.MsgSetLogConfReq' and
                              repr(json.decode(md)) == repr(conf),
                              'set request', got=(mt, md), conf=conf)
                calls.append((kind, t, msg))
            order = list(calls)
            rng.shuffle(order)
            close_at = (rng.randint(0, len(order))
                        if rng.random() < 0.4 else None)
            cancelled = set()
            expect = {}
            for pos, (kind, t, msg) in enumerate(order):
                if pos == close_at:
                    break
                if rng.random() < 0.25:
                    victim = rng.choice(order)[1]
                    if not victim.done():
                        victim.cancel()
                        cancelled.add(victim)
                        log.append('cancel')
                        await settle(rng.choice([0, 3]))
                if rng.random() < 0.15:
                    log.append('stray')
                    await evc.send_msg(
                        conn, 'HatEventAdminer.MsgGetLogConfRes',
                        ('success', '1'), conv=chatter.Conversation(
                            owner=False, first_id=10 ** 6 + pos))
                name = ('HatEventAdminer.MsgGetLogConfRes' if kind == 'get'
                        else 'HatEventAdminer.MsgSetLogConfRes')
                if rng.random() < 0.3:
                    res = Exception(rng.choice(['', 'e1', 'e2']))
                    data = ('error', res.args[0])
                else:
                    res = json_data(rng) if kind == 'get' else None
                    data = ('success', json.encode(res)
                            if kind == 'get' else None)
                log.append((kind, repr(res)))
                expect[t] = res
                await evc.send_msg(conn, name, data, conv=msg.conv)
                if rng.random() < 0.6:
                    await wait_until(t.done, 5)
                    await settle(2)
                for k2, t2, _ in order:
                    ctx.check(not t2.done() or t2 in expect or
                              t2 in cancelled,
                              'answered without own response', log=log)
            live = [(k, t) for k, t, _ in order if t not in cancelled]
            answered = [t for _, t in live if t in expect]
            if answered:
                _, pending = await asyncio.wait(answered, timeout=5)
                ctx.check(not pending, 'response lost', log=log)
            for t in answered:
                want = expect[t]
                if isinstance(want, Exception):
                    ctx.check(isinstance(t.exception(),
                                         adminer.AdminerError) and
                              t.exception().args == want.args,
                              'error of own request',
                              got=repr(t.exception()), want=want, log=log)
                else:
                    ctx.check(t.exception() is None and
                              repr(t.result()) == repr(want),
                              'own response', got=repr(t.exception() or
                                                       t.result()),
                              want=want, log=log)
            if cl.is_open:
                # cancelled calls and errors leave the connection usable
                n0 = len(inbox)
                t = asyncio.create_task(cl.get_log_conf())
                ctx.check(await wait_until(lambda: len(inbox) > n0, 5),
                          'connection stays usable', log=log)
                await evc.send_msg(conn, 'HatEventAdminer.MsgGetLogConfRes',
                                   ('success', '[7]'), conv=inbox[-1][0].conv)
                try:
                    r = await asyncio.wait_for(t, 5)
                except Exception as e:
                    r = repr(e)
                ctx.eq(r, [7], 'connection stays usable', log=log)
            else:
                ctx.check(False, 'connection closed', log=log)
            rest = [t for _, t in live if t not in expect]
            if rng.random() < 0.5:
                cl.close()
            else:
                conn.close()
            if rest:
                _, pending = await asyncio.wait(rest, timeout=5)
                ctx.check(not pending, 'call hangs after closing', log=log)
                for t in rest:
                    ctx.check(isinstance(t.exception(), ConnectionError),
                              'waiting call fails on close',
                              got=repr(t.exception()), log=log)
            await asyncio.wait_for(cl.wait_closed(), 5)
            try:
                r = await asyncio.wait_for(cl.get_log_conf(), 3)
            except ConnectionError:
                r = None
            except Exception as e:
                r = e
            ctx.eq(r, None, 'call on a closed connection')
            ctx.case(repr(log))
        finally:
            await cl.async_close()
            await srv.async_close()

    async def server():
        addr = tcp.Address('127.0.0.1', free_port())
        applied = []
        orig = logging.config.dictConfig

        def stand_in(conf):
            if conf.get('version') != 1:
                raise ValueError('version')
            applied.append(conf)
        current = {'version': 1, 'x': json_data(rng)}
        srv = await create_adminer_server(addr, current)
        cl = await adminer.connect(addr)
        logging.config.dictConfig = stand_in
        try:
            for i in range(rng.randint(1, 6)):
                r = await asyncio.wait_for(cl.get_log_conf(), 5)
                ctx.check(repr(r) == repr(current),
                          'configuration of the server', got=r,
                          want=current)
                conf = {'version': rng.choice([1, 1, 2]), 'i': i,
                        'd': json_data(rng)}
                applied.clear()
                try:
                    await asyncio.wait_for(cl.set_log_conf(conf), 5)
                except adminer.AdminerError as e:
                    ctx.check(conf['version'] == 2 and e.args == (
                        'version',), 'refused configuration',
                        got=e.args, conf=conf)
                    continue
                ctx.check(conf['version'] == 1 and
                          repr(applied) == repr([conf]),
                          'configuration applied', got=applied, conf=conf)
                current = conf
                ctx.case(repr(conf))
        finally:
            logging.config.dictConfig = orig
            await cl.async_close()
            await srv.async_close()

    async def many():
        for _ in range(5):
            await scripted()
            await real()
        await server()
    for r in ctx.rounds(3):
        run_async(many())
