import asyncio
import errno
import socket

from .common import *


class P:
    ID = 'C19'
    LISTS = ('grams',)
    REAL = ['aiomisc.service.udp.UDPServer', 'aiomisc.service.base', 'aiomisc.utils.bind_socket', 'aiomisc.entrypoint',
            'asyncio datagram transport']
    STUB = ['kernel sockets and network', 'clients', 'clock', 'selector']
    RULE = ('datagrams of several clients, lost, duplicated, reordered and delayed by the network, to a UDP service whose '
            'handlers (coroutine or plain function) reply, fail, take time or resist cancellation; sends which fail; the service '
            'stopped at a seeded time or just after an arrival; non-trivial: handlers overlapped or were running at stop')
    RUNS = (10000, 200000)

    def gen(self, rng, tier):
        n = rng.choice((1, 3, 8, 20))
        grams = [dict(t=grid(rng, 0.5, 0.01), c=rng.randrange(3), size=rng.choice((1, 1, 50, 1400)), d=rng.choice((0, 0, 0, 0.02, 0.2, 1.0)),
                      o=rng.choice(('reply', 'reply', 'none', 'fail', 'sendfail')), slow=rng.choice((0, 0, 0, 0.1)),
                      bye=rng.random() < 0.1) for _ in range(n)]
        return dict(grams=grams, sync=rng.random() < 0.15, how=rng.choice(('port', 'sock')), stop=rng.choice((0.1, 0.3, 0.6, 2.0)),
                    step=rng.choice((0, 0, rng.randrange(1, 20))), direct=rng.random() < 0.5,
                    net=dict(lat=rng.choice((0.0005, 0.01)), jit=rng.choice((0, 0.05)), drop=rng.choice((0, 0.2)), dup=rng.choice((0, 0.2)),
                             perm=rng.choice((0, 0.3))),
                    sched=sched_async(rng))

    def run(self, w, plan):
        from contextlib import asynccontextmanager
        from aiomisc import entrypoint
        from aiomisc.service import UDPServer
        G = plan['grams']
        H = []
        marks = {}
        arrived = {i: [] for i in range(len(G))}
        sent = {}
        replies = {i: [] for i in range(len(G))}
        expect = {i: 0 for i in range(len(G))}

        class Boom(Exception):
            pass

        def payload(i):
            return b'%04d' % i + b'x' * G[i]['size']

        def begin(data, addr):
            rec = dict(i=int(data[:4]), start=w.elapsed(), end=None, how=None)
            i = rec['i']
            H.append(rec)
            w.trace('handle', i)
            check('stopped' not in marks, 'handler-after-stop', f'{rec} {marks}')
            check(data == payload(i), 'data-wrong', f'{data[:20]!r}')
            check(addr[1] == ports[G[i]['c']], 'address-wrong', f'{addr} {ports}')
            check(sum(1 for h in H if h['i'] == i) <= len(arrived[i]), 'handled-twice', f'{i}: {H} arrivals {arrived[i]}')
            if len([h for h in H if h['end'] is None]) > 1:
                w.probe('nontrivial')
            return rec, G[i]

        def finish(self, rec, op, addr):
            if op['o'] == 'fail':
                w.fault('handler-fails')
                raise Boom
            if op['o'] == 'reply':
                self.sendto(b'r%04d' % rec['i'], addr)
                expect[rec['i']] += 1
            elif op['o'] == 'sendfail':
                fail.append(1)
                try:
                    self.sendto(b'r%04d' % rec['i'], addr)
                finally:
                    fail.clear()
        fail = []

        async def ahandle(self, data, addr):
            rec, op = begin(data, addr)
            try:
                await asyncio.sleep(op['d'])
                finish(self, rec, op, addr)
                rec['how'] = 'ok'
            except asyncio.CancelledError:
                rec['how'] = 'cancelled'
                if op['slow']:
                    w.fault('slow-cancel')
                    await asyncio.sleep(op['slow'])
                if op['bye'] and not plan['step']:
                    self.sendto(b'r%04d' % rec['i'], addr)
                    expect[rec['i']] += 1
                raise
            finally:
                rec['end'] = w.elapsed()
                check('stopped' not in marks, 'handler-after-stop', f'{rec} {marks}')

        def shandle(self, data, addr):
            rec, op = begin(data, addr)
            try:
                finish(self, rec, op, addr)
                rec['how'] = 'ok'
            finally:
                rec['end'] = w.elapsed()

        class Server(UDPServer):
            handle_datagram = shandle if plan['sync'] else ahandle

            async def stop(self, exc=None):
                marks['stop'] = w.elapsed()
                if any(h['end'] is None for h in H):
                    w.probe('stop-while-handling')
                    w.probe('nontrivial')
                await super().stop(exc)
                marks['stopped'] = w.elapsed()
                left = [h for h in H if h['end'] is None]
                check(not left, 'handler-after-stop', f'stop() returned while handlers run: {left}')

        if plan['how'] == 'port':
            srv = Server(address='127.0.0.1', port=8700)
        else:
            sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            sock.bind(('127.0.0.1', 8700))
            sock.setblocking(False)
            srv = Server(sock=sock)

        def dgram_fail(s, addr):
            if fail and s is srv.socket:
                w.fault('send-fails')
                return errno.ENOBUFS
        w.net.dgram_fail = dgram_fail
        cs = []
        for k in range(3):
            c = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            c.bind(('127.0.0.1', 9100 + k))
            c.setblocking(False)
            cs.append(c)
        ports = [9100 + k for k in range(3)]
        nrep = [0]

        class Dq(list):
            """the receive queue of the server socket: what really arrived, and when"""

            def append(self, item):
                i = int(item[0][:4])
                arrived[i].append(w.elapsed())
                if plan['step'] and len(arrived[i]) and not marks.get('armed') and w.elapsed() > plan['stop'] / 2:
                    marks['armed'] = 1
                    w.at_handle(w.handles + plan['step'], ev.set)
                list.append(self, item)

        ev = asyncio.Event()

        async def amain():
            @asynccontextmanager
            async def direct():
                srv.set_loop(asyncio.get_running_loop())
                await srv.start()
                yield
                await srv.stop()

            def recv(c):
                try:
                    data, addr = c.recvfrom(2000)
                except BlockingIOError:
                    return
                check(addr == ('127.0.0.1', 8700), 'address-wrong', f'reply from {addr}')
                i = int(data[1:5])
                check(c is cs[G[i]['c']], 'reply-misrouted', f'{data}')
                replies[i].append(w.elapsed())

            loop = asyncio.get_running_loop()
            for c in cs:
                loop.add_reader(c, recv, c)
            async with (direct() if plan['direct'] else entrypoint(srv, log_config=False)):
                srv.socket._dq = Dq(srv.socket._dq)
                check(srv.port == 8700, 'wrong-address', f'{srv.port}')
                for i, op in enumerate(G):
                    loop.call_later(op['t'], lambda i=i, op=op: cs[op['c']].sendto(payload(i), ('127.0.0.1', 8700)))
                if plan['step']:
                    await asyncio.wait([asyncio.ensure_future(ev.wait())], timeout=plan['stop'])
                else:
                    await asyncio.sleep(plan['stop'])
            n = len(H)
            await settle(5)
            check(len(H) == n, 'handler-after-stop', f'{H[n:]} {marks}')
            check(not srv.tasks, 'task-leaked', f'{len(srv.tasks)}')
            check(srv.socket.fileno() == -1, 'socket-open', 'the server socket is still open')
            for c in cs:
                loop.remove_reader(c)
                c.close()

        w.on_limit = lambda what: violate('hang', f'{what} {marks} {H}')
        run_async(w, amain, 'hang', lambda: f'the service never stops {marks} {H}')
        sl = slack(plan, w) + 0.01
        slow = max([op['slow'] for op in G] + [0])
        check(marks['stopped'] - marks['stop'] <= 2 * slow + sl, 'stop-late', f'{marks} {H}')
        for i, op in enumerate(G):
            hs = [h for h in H if h['i'] == i]
            due = [t for t in arrived[i] if t + sl < marks['stop']]
            check(len(hs) >= len(due), 'datagram-lost', f'datagram {i} arrived {arrived[i]}, handled {hs}; {marks}')
            for h in hs:
                if h['how'] == 'cancelled':
                    check(h['end'] >= marks['stop'], 'spurious-cancel', f'{h} {marks}')
            for t, h in zip(arrived[i], hs):
                check(h['start'] <= t + sl, 'handled-late', f'datagram {i} arrived {arrived[i]}, handled {hs}')
            if not plan['net']['drop'] and not plan['net']['dup']:
                check(len(replies[i]) == expect[i], 'reply-lost', f'{i}: {expect[i]} replies sent, {replies[i]} received; {hs}')


PROP = P()
