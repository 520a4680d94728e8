import asyncio
import os
import signal
import socket

from .common import *

PATH = '/run/systemd/notify'


class P:
    ID = 'C23'
    LISTS = ('svcs', 'stalls', 'fails')
    REAL = ['aiomisc.service.sdwatchdog', 'aiomisc.entrypoint', 'aiomisc.signal', 'aiomisc.periodic', 'aiomisc.recurring', 'aiomisc.thread_pool']
    STUB = ['the service manager', 'datagram socket', 'user services', 'clock', 'schedulers']
    RULE = ('an application with slow or failing services under a service manager which reads its notifications, stalls for a while '
            '(with a short queue) or refuses datagrams, stopped by the end of the program or a signal; non-trivial: '
            'several keep-alive notifications were due')
    RUNS = (6000, 150000)
    IMPORTS = ('aiomisc.service.sdwatchdog',)

    def gen(self, rng, tier):
        return dict(svcs=[dict(start=rng.choice((0, 0, 0.1, 0.5, 2)), stop=rng.choice((0, 0, 0.1, 1)), efail=rng.random() < 0.15, ev=rng.random() < 0.3)
                          for _ in range(rng.choice((0, 1, 2, 3)))],
                    sfail=rng.random() < 0.1, interval=rng.choice((0.1, 0.5, 1, 2, 10, None)), body=grid(rng, rng.choice((1, 4, 12)), 0.05),
                    abstract=rng.random() < 0.3, how=rng.choice(('with', 'with', 'raise', 'signal')),
                    stalls=[dict(t=grid(rng, 6, 0.1), d=rng.choice((0.1, 0.5, 1, 3))) for _ in range(rng.choice((0, 0, 1, 2)))], qlen=rng.choice((1, 2, 10)),
                    fails=[dict(t=grid(rng, 6, 0.1), d=rng.choice((0.01, 0.3, 1))) for _ in range(rng.choice((0, 0, 1, 2)))],
                    errno=rng.choice((105, 111, 107, 32)), none=rng.random() < 0.06, sched=sched_threads(rng))

    def run(self, w, plan):
        from aiomisc import Service, entrypoint
        from aiomisc.service import sdwatchdog
        sdwatchdog.setup()
        addr = '\0systemd' if plan['abstract'] else PATH
        net = w.net
        net.dgram_qlen = plan['qlen']
        mgr = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
        mgr.bind(addr)
        got = []            # (arrival, payload)
        ev = {}
        S = []
        box = {'stalled': 0, 'refuse': 0, 'lost': []}

        class Queue(list):
            def append(self, x):
                super().append(x)
                got.append((w.elapsed(), x[0].decode()))
                w.trace('notify', x[0].decode())
                if not box['stalled']:
                    w.after(0.00001, drain)
        mgr._dq = Queue()

        def drain():
            w.kernel += 1
            try:
                while mgr._dq and not box['stalled']:
                    mgr.recvfrom(1000)
            finally:
                w.kernel -= 1

        def change(key, d):
            box[key] += d
            if not box['stalled']:
                drain()
        for s in plan['stalls']:
            w.after(s['t'], lambda: (w.fault('manager-stalls'), change('stalled', 1)))
            w.after(s['t'] + s['d'], lambda: change('stalled', -1))
        for s in plan['fails']:
            w.after(s['t'], lambda: change('refuse', 1))
            w.after(s['t'] + s['d'], lambda: change('refuse', -1))

        def fails(sock, to):
            if box['refuse']:
                w.fault('send-error')
                box['lost'].append(w.elapsed())
                return plan['errno']
        net.dgram_fail = fails

        class Svc(Service):
            async def start(self):
                r = self.r
                r['start'] = w.elapsed()
                try:
                    await asyncio.sleep(self.op['start'])
                    if self.boom:
                        w.fault('start-fails')
                        raise ValueError('start')
                    if self.op['ev']:
                        self.start_event.set()
                        r['ready'] = w.elapsed()
                        await asyncio.sleep(1e6)
                finally:
                    r['ready'] = r['ready'] or w.elapsed()

            async def stop(self, exception=None):
                r = self.r
                r['stop'] = w.elapsed()
                await asyncio.sleep(self.op['stop'])
                r['stopped'] = w.elapsed()
                if self.op['efail']:
                    w.fault('stop-fails')
                    raise ValueError('stop')
        svcs = []
        for i, op in enumerate(plan['svcs']):
            r = dict(start=None, ready=None, stop=None, stopped=None)
            S.append(r)
            svcs.append(Svc(op=op, r=r, boom=plan['sfail'] and i == 0))
        os.environ['NOTIFY_SOCKET'] = '@systemd' if plan['abstract'] else PATH
        if plan['none']:
            del os.environ['NOTIFY_SOCKET']
        wd = sdwatchdog.SDWatchdogService(watchdog_interval=plan['interval'])
        boom = plan['sfail'] and bool(svcs)

        def info():
            return f'{got} {ev} {S} lost={box["lost"]}'
        w.on_deadlock = lambda: violate('hang', '; '.join(w.describe_threads()) + info())
        w.on_limit = lambda what: violate('hang', f'{what} {info()}')

        async def main():
            ev['body'] = w.elapsed()
            hb = asyncio.ensure_future(heartbeat(w, plan, info))
            hb.add_done_callback(lambda t: t.cancelled() or box.__setitem__('hb', t.exception()))
            if plan['how'] == 'signal':
                w.after(plan['body'], lambda: (ev.__setitem__('end', w.elapsed()), w.deliver_signal(signal.SIGTERM)))
                await asyncio.sleep(1e5)
            await asyncio.sleep(plan['body'])
            ev['end'] = w.elapsed()
            if plan['how'] == 'raise':
                raise KeyError('body')
        failed = None
        try:
            with entrypoint(wd, *svcs, log_config=False, shutdown_timeout=1e5) as loop:
                loop.run_until_complete(main())
        except BaseException as e:
            if isinstance(e, Violation):
                raise
            failed = e
        ev['over'] = w.elapsed()
        ok = failed is None
        if box.get('hb') is not None:
            raise box['hb']
        if boom:
            check('body' not in ev and isinstance(failed, ValueError), 'wrong-outcome', lambda: f'{failed!r} {info()}')
        else:
            check('body' in ev and 'end' in ev, 'wrong-outcome', lambda: f'{failed!r} {info()}')
            check(ok or plan['how'] != 'with' or isinstance(failed, ValueError) and any(o['efail'] for o in plan['svcs']),
                  'wrong-outcome', lambda: f'{failed!r} {info()}')
        if not boom:
            left = [s for s in net.fds.values() if s is not mgr and s._fd != -1 and s._typ == socket.SOCK_DGRAM]
            check(not left, 'socket-left', lambda: f'{left}')
        if plan['none']:
            check(not got, 'unexpected-message', info)
            return
        L = lag(plan, w)
        msgs = [m for _, m in got]
        at = lambda m: [t for t, x in got if x == m]
        stall = sum(s['d'] for s in plan['stalls'])
        lossy = bool(box['lost'])
        n = len(svcs) + 1
        for m in msgs:
            check(m.split('=')[0] in ('STATUS', 'READY', 'WATCHDOG', 'WATCHDOG_USEC', 'STOPPING'), 'unexpected-message', lambda: f'{m!r} {info()}')
        order = ['STATUS=Starting %d services' % n]
        if plan['interval'] is not None:
            order.append('WATCHDOG_USEC=%d' % round(plan['interval'] * 1e6))
        if boom:
            check(not at('STOPPING=1') or 'over' in ev, 'unexpected-message', info)
            return
        once = ['STATUS=Starting %d services' % n, 'READY=1', 'STOPPING=1', 'STATUS=Started %d services' % n, 'STATUS=Stopping %d services' % n]
        once += order[1:]
        for m in once:
            k = msgs.count(m)
            check(k <= 1, 'repeated-message', lambda: f'{m!r} {k} times; {info()}')
            check(k == 1 or lossy, 'lost-message', lambda: f'{m!r}; {info()}')
        check(all(m in once or m == 'WATCHDOG=1' for m in msgs), 'unexpected-message', info)
        readys = [r['ready'] for r in S]
        starts = [r['start'] for r in S]
        stops = [r['stop'] for r in S]
        stopped = [r['stopped'] for r in S]
        check(None not in readys + stops + stopped, 'services', info)
        for m, lo, hi in (('STATUS=Starting %d services' % n, [], starts + [ev['body']]),
                          (order[-1], [], [ev['body']]),
                          ('STATUS=Started %d services' % n, readys, [ev['body']]),
                          ('READY=1', readys, [ev['body']]),
                          ('STATUS=Stopping %d services' % n, [ev['end']], stops),
                          ('STOPPING=1', [ev['end']] + stopped, [ev['over']])):
            for t in at(m):
                check(all(t >= x for x in lo), 'message-early', lambda: f'{m!r} at {t}: {lo} {info()}')
                check(all(t <= x for x in hi), 'message-late', lambda: f'{m!r} at {t}: {hi} {info()}')
        pos = [msgs.index(m) for m in ('STATUS=Starting %d services' % n, 'STATUS=Started %d services' % n, 'READY=1', 'STATUS=Stopping %d services' % n,
                                      'STOPPING=1') if m in msgs]
        check(pos == sorted(pos), 'wrong-order', info)
        check(not at('STOPPING=1') or msgs[-1] == 'STOPPING=1', 'wrong-order', lambda: 'a notification follows STOPPING=1: ' + info())
        pings = at('WATCHDOG=1')
        iv = plan['interval']
        if iv is None:
            check(not pings, 'unexpected-message', info)
            return
        usec = at(order[-1])
        check(not usec or not pings or usec[0] <= pings[0], 'wrong-order', info)
        # sends may be held up by the manager, and refused ones are gone
        lost = sorted(box['lost'])
        seq = sorted([ev['body']] + pings + [t for t in lost if ev['body'] < t < ev['end']] + [ev['end']])
        seq = [t for t in seq if ev['body'] <= t <= ev['end']]
        if len(seq) > 4:
            w.probe('nontrivial')
        # the bound of a gap is half the interval, plus the time the manager or the schedule held it up
        for a, b in zip(seq, seq[1:]):
            held = sum(max(0, min(b, s['t'] + s['d']) - max(a, s['t'])) for s in plan['stalls'])
            check(b - a <= iv / 2 + held + 0.001 + L, 'watchdog-late', lambda: f'no keep-alive between {a} and {b}: {info()}')
        # and there is no reason to send more often
        dur = ev['end'] - ev['body'] + max([r['ready'] for r in S] + [0])
        check(len(pings) <= dur / (iv / 2) + 3 + (ev['over'] - ev['end']) / (iv / 2), 'watchdog-flood', info)


PROP = P()
