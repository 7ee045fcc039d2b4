"""Random sequences of reopenings (<= 8) with changing partitions and
identifiers; other versions and identifiers are rejected."""

from refute.common import run_async
from refute import lmdbh


def run(ctx):
    from hat.event.backends import lmdb
    from hat.event.backends.lmdb import common, environment
    rng = ctx.rng
    D = common.DbType
    ctx.rule = 'one case per (configuration sequence)'

    async def read(path, table):
        env = await environment.create(path)
        try:
            def ext():
                with env.ext_begin() as txn:
                    return list(env.ext_read(txn, table))
            return await env.execute(ext)
        finally:
            await env.async_close()

    async def opens(conf, path):
        try:
            b = await lmdb.info.create(conf.data(path), None, None)
        except Exception:
            return False
        await b.async_close()
        return True

    async def one():
        with ctx.tmp() as d:
            path = d / 'db'
            known = {}
            ident = None
            log = []
            h = lmdbh.History(ctx, path)
            for _ in range(rng.randint(2, 8)):
                specs = [rng.choice(lmdbh.PARTS)
                         for _ in range(rng.randint(0, 4))]
                if rng.random() < 0.7:
                    specs = list(dict.fromkeys(
                        (o, tuple(s)) for o, s in specs))
                parts = []
                for o, s in specs:
                    s = list(s)
                    rng.shuffle(s)
                    parts.append(lmdbh.Part(o, s, rng.choice(
                        [None, None, {'max_entries': 100}])))
                want_id = rng.choice([None, None, 'x', 'x', 'y', ''])
                conf = lmdbh.Conf([], [], parts, identifier=want_id)
                log.append(conf)
                ok = (want_id is None or ident is None or want_id == ident)
                if not ok:
                    before = await read(path, D.TIMESERIES_PARTITION)
                    ctx.check(not await opens(conf, path),
                              'different identifier rejected', log=log,
                              recorded=ident)
                    ctx.eq(await read(path, D.TIMESERIES_PARTITION), before,
                           'rejected open changes nothing', log=log)
                    continue
                await h.open(conf)
                ident = want_id if want_id is not None else ident
                for _ in range(rng.randint(0, 2)):
                    await h.register(None, 0)
                await h.close()
                rows = await read(path, D.TIMESERIES_PARTITION)
                got = {}
                for p, data in rows:
                    key = (data['order'], frozenset(
                        tuple(i) for i in data['subscriptions']))
                    ctx.check(key not in got,
                              'one number per partition', log=log,
                              rows=rows)
                    got[key] = p
                ctx.eq(len(set(got.values())), len(got),
                       'different partitions have different numbers',
                       log=log, rows=rows)
                for k, p in known.items():
                    ctx.eq(got.get(k), p, 'partition keeps its number',
                           log=log, rows=rows, partition=k)
                for p in parts:
                    k = (common.OrderBy[p.order_by].value,
                         frozenset(p.subs))
                    ctx.check(k in got, 'configured partition has a number',
                              log=log, rows=rows, partition=k)
                known = got
                st = dict(await read(path, D.SYSTEM_SETTINGS))
                ctx.eq(st.get(common.SettingsId.IDENTIFIER), ident,
                       'identifier recorded', log=log)
                ctx.check(st.get(common.SettingsId.VERSION) == '0.9',
                          'version recorded', settings=st)
                # data stays with its partition
                for p, t, i in [k for k, _ in await read(
                        path, D.TIMESERIES_DATA)]:
                    want = {known_key: n for known_key, n in got.items()}
                    ctx.check(p in want.values(), 'data of no partition',
                              log=log, partition=p)
                for k, n in got.items():
                    evs = {key[2] for key, _ in await read(
                        path, D.TIMESERIES_DATA) if key[0] == n}
                    order = next(o.name for o in common.OrderBy
                                 if o.value == k[0])
                    ctx.eq(evs, set(h.model.disk_parts.get(
                        (order, k[1]), {})), 'entries of a partition',
                        log=log, partition=k)
            # another version
            v = rng.choice(['0.8', '0.7', '', '0.10', '1'])

            async def set_version(v):
                env = await environment.create(path)

                def ext():
                    with env.ext_begin(write=True) as txn:
                        env.ext_write(txn, D.SYSTEM_SETTINGS,
                                      [(common.SettingsId.VERSION, v)])
                await env.execute(ext)
                await env.async_close()
            await set_version(v)
            ctx.check(not await opens(
                lmdbh.Conf([], [], [], identifier=ident), path),
                'other version rejected', version=v)
            ctx.eq(dict(await read(path, D.SYSTEM_SETTINGS))[
                common.SettingsId.VERSION], v, 'version kept')
            await set_version('0.9')
            ctx.check(await opens(
                lmdbh.Conf([], [], [], identifier=ident), path),
                'same version accepted')
            ctx.case(repr(log))

    for r in ctx.rounds(6):
        run_async(one())
