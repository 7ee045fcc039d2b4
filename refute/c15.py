"""Random interleavings of registrations, concurrent flushes and closing, with
plain and asynchronous callbacks (<= 20 batches)."""

import asyncio
import shutil

from refute.common import run_async, settle
from refute import lmdbh


def run(ctx):
    from hat.event.backends import lmdb
    from hat.event.backends.lmdb import common
    rng = ctx.rng
    ctx.rule = 'one case per interleaving'

    async def one():
        with ctx.tmp() as d:
            h = lmdbh.History(ctx, d / 'db')
            conf = lmdbh.rand_conf(rng, 0.2)
            conf.flush_period = rng.choice([0.005, 0.02, 1000, 1000])
            registered, flushed, log = [], [], []
            slow = rng.random() < 0.4
            b = None
            n_copy = [0]

            def persisted_ids(copy):
                import lmdb as rawlmdb
                env = rawlmdb.Environment(str(copy), subdir=False,
                                          readonly=True, lock=False,
                                          max_dbs=32)
                try:
                    dd = common.db_defs[common.DbType.REF]
                    dbi = common.ext_open_db(env, common.DbType.REF, False)
                    with env.begin(buffers=True) as txn:
                        ids = set()
                        with txn.cursor(dbi) as c:
                            for k, _ in c:
                                ids.add(dd.decode_key(k))
                        return ids
                finally:
                    env.close()

            held = {}

            cb_errors = []

            def on_flushed(events):
                flushed.append(events)
                log.append('f')
                if n_copy[0] >= 3 or not events:
                    return
                n_copy[0] += 1
                try:
                    # committed: visible in the file itself
                    copy = d / f'copy{n_copy[0]}'
                    shutil.copy(d / 'db', copy)
                    ids = persisted_ids(copy)
                    missing = ({e.id for e in events if e.id in held} &
                               m_ref()) - ids
                    if missing:
                        cb_errors.append(('not committed', missing))
                except Exception as e:
                    cb_errors.append(('harness', repr(e)))

            def m_ref():
                r = set()
                for s in lmdbh.SERVERS:
                    r |= set(h.model.disk_held(s))
                    r |= set(h.model.mem_held(s))
                return r

            async def aflushed(events):
                await asyncio.sleep(0)
                on_flushed(events)

            async def aregistered(events):
                registered.append(events)
                await asyncio.sleep(0)

            b = await lmdb.info.create(
                conf.data(d / 'db'),
                aregistered if slow else registered.append,
                aflushed if slow else on_flushed)
            h.model.open(conf)
            batches = []
            tasks = []
            closed = False
            errors = []

            async def flush(n):
                try:
                    await b.flush()
                except common.BackendClosedError:
                    if not closed:
                        errors.append('flush failed on open backend')
                    return
                # same objects, in order, everything before the call
                if [id(i) for i in flushed[:n]] != [
                        id(i) for i in batches[:n]]:
                    errors.append(f'flush returned before its {n} batches '
                                  f'were notified ({len(flushed)})')

            try:
                for _ in range(rng.randint(2, 20)):
                    k = rng.random()
                    if k < 0.55:
                        batch = [h.event(0.1)
                                 for _ in range(rng.randint(0, 3))]
                        batches.append(batch)
                        h.model.register(batch)
                        for e in batch:
                            if e.id in m_ref():
                                held[e.id] = e
                        r = await b.register(batch)
                        ctx.check(r is not None and list(r) == batch,
                                  'register returns its events', got=r)
                        log.append('r')
                    elif k < 0.75:
                        log.append('F')
                        tasks.append(asyncio.create_task(
                            flush(len(batches))))
                        if rng.random() < 0.5:
                            await settle(rng.randint(1, 5))
                    elif k < 0.9:
                        log.append('W')
                        await flush(len(batches))
                    else:
                        await asyncio.sleep(rng.choice([0, 0.001, 0.01]))
                    ctx.eq([id(i) for i in registered],
                           [id(i) for i in batches],
                           'registered callback once per batch, in order')
                    ctx.eq([id(i) for i in flushed],
                           [id(i) for i in batches[:len(flushed)]],
                           'flushed callback in registration order',
                           log=log)
                if rng.random() < 0.5:
                    await asyncio.gather(*tasks)
                closed = True
                if rng.random() < 0.3:
                    tasks.append(asyncio.create_task(flush(len(batches))))
                    await settle(rng.randint(0, 3))
            finally:
                closed = True
                await b.async_close()
            done, pending = (await asyncio.wait(tasks, timeout=5)
                             if tasks else ([], []))
            ctx.check(not pending, 'flush does not hang on close', log=log)
            if any(e[0] == 'harness' for e in cb_errors):
                raise RuntimeError(repr(cb_errors))
            ctx.check(not cb_errors, 'flushed callback before commit',
                      errors=cb_errors, log=log, conf=conf)
            ctx.check(not errors, 'flush', errors=errors, log=log,
                      conf=conf)
            ctx.eq([id(i) for i in flushed], [id(i) for i in batches],
                   'every batch flushed exactly once, in order', log=log)
            try:
                await asyncio.wait_for(b.flush(), 5)
            except common.BackendClosedError:
                pass
            except Exception as e:
                ctx.check(False, 'flush on a closed backend', error=repr(e))
            else:
                ctx.check(False, 'flush on a closed backend succeeds')
            ctx.case(repr((log, [len(i) for i in batches], slow)))

    for r in ctx.rounds(15):
        run_async(one())
