import asyncio

from .common import *


class CreateError(Exception):
    pass


class Inst:
    def __init__(self, n, h=0):
        self.n = n
        self.h = h

    def __hash__(self):
        # the order of sets of instances comes from the seed, not from addresses
        return (self.n * 2654435761 ^ self.h) & 0x7fffffff

    def __repr__(self):
        return f'inst{self.n}'


class P:
    ID = 'C05'
    LISTS = ('users', 'creates', 'checks', 'destroys')
    REAL = ['aiomisc.pool', 'asyncio (pure Python)']
    STUB = ['pooled instances (create/check/destroy user hooks)', 'clock', 'selector', 'random']
    RULE = ('users acquiring and releasing instances of a PoolBase whose create/check/destroy hooks take time, fail or '
            'report a dead instance; users are cancelled at simulated times or before the n-th loop callback; '
            'non-trivial: contention (more users than maxsize), a failing hook or a cancellation')

    def gen(self, rng, tier):
        maxsize = rng.choice((1, 1, 2, 3))
        n = rng.choice((1, 2, 4, 6, 10))
        pf = rng.choice((0, 0, 0.25))
        users = []
        for i in range(n):
            op = dict(t=grid(rng, rng.choice((0, 0.3, 4)), 0.05), hold=rng.choice((0, 0.05, 0.2, 0.5)),
                      n=rng.choice((1, 1, 2, 3)), gap=rng.choice((0, 0, 0.1, 1.5)), err=rng.choice((0, 0, 0, 1)))
            maybe_cancel(rng, op, rng.choice((0, 0.4)), 0.6, 15 + 8 * n, 0.05)
            users.append(op)
        mk = lambda bad: dict(d=rng.choice((0, 0, 0.05, 0.15)), o=bad if rng.random() < pf else 'ok')
        return dict(maxsize=maxsize, recycle=rng.choice((None, None, 1, 1)), users=users,
                    creates=[mk('raise') for _ in range(3 * n)],
                    checks=[mk(rng.choice(('dead', 'raise'))) for _ in range(4 * n)],
                    destroys=[mk(rng.choice(('raise', 'cancelled'))) for _ in range(3 * n)], close=rng.choice(('idle', 'idle', 'held', 'held', 'timeout')),
                    sched=sched_async(rng))

    def run(self, w, plan):
        from aiomisc import PoolBase
        maxsize, recycle = plan['maxsize'], plan['recycle']
        st = {}          # inst -> dict(created, destroyed, user, bad)
        cnt = dict(creates=0, checks=0, destroys=0)

        def spec(kind):
            l = plan[kind]
            k = cnt[kind]
            cnt[kind] += 1
            return l[k] if k < len(l) else dict(d=0, o='ok')

        class Pool(PoolBase):
            async def _create_instance(self):
                s = spec('creates')
                if s['d']:
                    await asyncio.sleep(s['d'])
                if s['o'] != 'ok':
                    w.fault('create-fails')
                    raise CreateError(cnt['creates'])
                i = Inst(len(st), plan['sched'].get('hash', 0))
                st[i] = dict(created=w.elapsed(), destroyed=None, user=None, bad=None, ends=0)
                w.trace('create', i.n)
                if recycle is None and not anybad:
                    live = [x for x in st.values() if x['destroyed'] is None]
                    check(len(live) <= maxsize, 'too-many-instances', f'{len(live)} instances exist, maxsize {maxsize}')
                return i

            async def _destroy_instance(self, i):
                check(st[i]['destroyed'] is None, 'double-destroy', f'{i} destroyed twice')
                if st[i]['user'] is not None:
                    check(closing, 'destroyed-in-use', f'{i} destroyed while user {st[i]["user"]} holds it')
                if not closing and st[i]['bad'] is None:
                    check(recycle is not None and w.elapsed() >= st[i]['created'] + recycle - 1e-3, 'destroyed-healthy',
                          f'{i} destroyed although healthy, age {w.elapsed() - st[i]["created"]}')
                st[i]['destroyed'] = w.elapsed()
                w.trace('destroy', i.n)
                s = spec('destroys')
                if s['d']:
                    await asyncio.sleep(s['d'])
                st[i]['ends'] += 1
                if s['o'] != 'ok':
                    w.fault('destroy-fails')
                    if s['o'] == 'cancelled':
                        # something it waits for was cancelled
                        raise asyncio.CancelledError
                    raise RuntimeError('destroy')

            async def _check_instance(self, i):
                s = spec('checks')
                st[i]['checking'] = True
                try:
                    if s['d']:
                        await asyncio.sleep(s['d'])
                except asyncio.CancelledError:
                    st[i]['bad'] = 'check-cancelled'
                    w.probe('check-cancelled')
                    raise
                finally:
                    st[i]['checking'] = False
                if s['o'] == 'dead':
                    st[i]['bad'] = 'dead'
                    w.fault('check-dead')
                    return False
                if s['o'] == 'raise':
                    st[i]['bad'] = 'raise'
                    w.fault('check-raises')
                    raise RuntimeError('check')
                return True

        anybad = any(c['o'] != 'ok' for c in plan['checks']) or any(
            'cancel_at' in u or 'cancel_step' in u for u in plan['users'])
        closing = False
        errors = []

        async def user(i, pool, op):
            for k in range(op['n']):
                if k and op['gap']:
                    await asyncio.sleep(op['gap'])
                try:
                    async with pool.acquire() as inst:
                        s = st[inst]
                        w.trace('acquire', i, inst.n)
                        check(s['user'] is None, 'shared-instance', f'{inst} given to {i} while {s["user"]} holds it')
                        check(s['destroyed'] is None, 'dead-instance', f'{inst} given to {i} after it was destroyed')
                        check(s['bad'] is None, 'bad-instance', f'{inst} given to {i} although its check said {s["bad"]}')
                        check(not s.get('retired'), 'expired-instance', f'{inst} reused although it was past its recycle time')
                        s['user'] = i
                        used = sum(1 for x in st.values() if x['user'] is not None)
                        check(used <= maxsize, 'too-many-users', f'{used} instances in use, maxsize {maxsize}')
                        check(0 <= len(pool) <= maxsize, 'pool-size', f'len(pool) = {len(pool)}, maxsize {maxsize}')
                        try:
                            if op['hold']:
                                await asyncio.sleep(op['hold'])
                            if op['err']:
                                raise KeyError('user')
                        finally:
                            s['user'] = None
                            if recycle is not None and w.elapsed() > s['created'] + 2 * recycle + slack(plan, w) + 0.05:
                                s['retired'] = True
                                w.probe('recycled')
                            w.trace('release', i, inst.n)
                except KeyError:
                    check(op['err'], 'unexpected-exception', 'KeyError')
                except CreateError as e:
                    errors.append((i, e))

        async def main():
            nonlocal closing
            loop = asyncio.get_running_loop()
            pool = Pool(maxsize=maxsize, recycle=recycle)
            ts = []
            for i, op in sorted(enumerate(plan['users']), key=lambda x: (x[1]['t'], x[0])):
                if op['t'] > w.elapsed():
                    await asyncio.sleep(op['t'] - w.elapsed())
                t = asyncio.ensure_future(user(i, pool, op))
                ts.append((i, op, t))
                schedule_cancel(w, loop, t, op, i)
            if ts:
                done, pend = await asyncio.wait([t for _, _, t in ts], timeout=300)
                check(not pend, 'acquire-starved',
                      f'users {[i for i, _, t in ts if not t.done()]} never got an instance; '
                      f'instances {st}, len(pool) {len(pool)}, maxsize {maxsize}')
            for i, op, t in ts:
                if t.cancelled():
                    check('cancel_at' in op or 'cancel_step' in op, 'spurious-cancel', f'user {i} was cancelled')
                elif t.exception():
                    raise t.exception()
            # afterwards the full capacity is still there
            plan['creates'] = plan['checks'] = []
            left = w.elapsed()
            got = []
            async with asyncio.timeout(60):
                cms = [pool.acquire() for _ in range(maxsize)]
                try:
                    for cm in cms:
                        inst = await cm.__aenter__()
                        check(inst not in got and st[inst]['destroyed'] is None, 'shared-instance', f'{inst}')
                        got.append(inst)
                except TimeoutError:
                    pass
                except asyncio.CancelledError:
                    violate('capacity-lost', f'after all users finished only {len(got)} of {maxsize} instances can be '
                                             f'acquired; len(pool) {len(pool)}')
                keep = 0
                if plan.get('close', 'idle') != 'idle':
                    keep = 1 + plan['sched'].get('hash', 0) % maxsize
                    w.probe('closed-in-use')
                for cm in cms[keep:]:
                    await cm.__aexit__(None, None, None)
                try:
                    await cms[0].__aenter__()
                    violate('reused-manager', 'a used acquire() context manager gave another instance')
                except RuntimeError:
                    pass
            if plan['sched'].get('hash', 0) % 2:
                await settle(1)
            closing = True
            if plan.get('close') == 'timeout':
                # a destruction which never ends cannot hold close(timeout)
                plan['destroys'] = [dict(d=1000, o='ok')] * (cnt['destroys'] + maxsize)
                t0 = w.elapsed()
                try:
                    await pool.close(timeout=0.7)
                    violate('close-timeout', 'close(timeout) succeeded although destructions have not ended')
                except TimeoutError:
                    check(abs(w.elapsed() - t0 - 0.7) < slack(plan, w) + 0.05, 'close-timeout', f'close(timeout=0.7) took {w.elapsed() - t0}')
                return
            await pool.close()
            for i, s in st.items():
                check(s['destroyed'] is not None, 'instance-leaked', f'{i} {s} was never destroyed by close()')
                check(s['ends'] == 1, 'destroy-interrupted', f'{i}: destruction was not completed by close()')
            await settle(2)
            left = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
            check(not left, 'task-left', f'close() left {left}')

        run_async(w, main, 'acquire-starved')
        if len(plan['users']) > maxsize or w.fault_counts:
            w.probe('nontrivial')


PROP = P()
