import asyncio
import gc
import os
import ssl
from contextlib import asynccontextmanager

from .common import *

CERTS = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'certs')


def client_ssl():
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    ctx.check_hostname = False
    ctx.load_verify_locations(cafile=CERTS + '/ca.pem')
    ctx.load_cert_chain(CERTS + '/client.pem', CERTS + '/client.key')
    return ctx


class B(bytes):
    def __repr__(self):
        return f'<{len(self)}>'


class P:
    ID = 'C17'
    LISTS = ('clients', 'parts')
    REAL = ['aiomisc.service.tcp.TCPServer', 'aiomisc.service.tls.TLSServer', 'aiomisc.service.base', 'aiomisc.utils.bind_socket',
            'aiomisc.entrypoint', 'asyncio streams, transports and sslproto', 'OpenSSL']
    STUB = ['kernel sockets and network', 'clients', 'clock', 'selector', 'thread scheduler']
    RULE = ('TCP and TLS servers with handlers which echo, fail, hang, resist cancellation, or return leaving the connection '
            'open; clients connecting, sending chunks, resetting and vanishing at seeded times over a network which delays, '
            'splits, partitions and shortens; the service stopped at a seeded time, also within a connect; non-trivial: '
            'several connections or a stop with open connections')
    RUNS = (6000, 150000)

    def gen(self, rng, tier):
        clients = []
        tls = rng.random() < 0.4
        for i in range(rng.choice((1, 2, 3, 5, 8))):
            clients.append(dict(t=grid(rng, 1.0, 0.01), b=rng.choice(('echo', 'echo', 'echo', 'fail', 'hang', 'open', 'slow', 'close', 'big')),
                                n=rng.choice((0, 1, 3, 6)), size=rng.choice((1, 10, 300, 2000)), gap=rng.choice((0, 0, 0.02, 0.1)),
                                d=rng.choice((0, 0, 0.05, 0.3)), c=rng.choice((0, 0, 0.1, 0.5)),
                                end=rng.choice(('close', 'close', 'eof', 'rst', 'stay')), sync=rng.random() < 0.05))
        stop = rng.choice((0.01, 0.3, 0.8, 1.5, 4.0))
        if rng.random() < 0.5 and clients:
            stop = max(0.005, round(rng.choice(clients)['t'] + rng.choice((0, 0.001, 0.002, 0.003, 0.02, -0.002) + ((0.004, 0.006, 0.008, 0.012, 0.016) if tls else ())), 6))
        parts = [dict(t=grid(rng, 1.0, 0.1), d=rng.choice((0.05, 0.3, 1.0))) for _ in range(rng.choice((0, 0, 0, 1, 2)))]
        return dict(tls=tls, clients=clients, stop=stop, parts=parts, how=rng.choice(('port', 'port', 'sock')), step=rng.choice((0, rng.randrange(1, 16), rng.randrange(1, 40))), direct=rng.random() < 0.5,
                    net=dict(lat=rng.choice((0.0005, 0.001, 0.02)), jit=rng.choice((0, 0, 0.02)), chunk=rng.choice((0, 0.2, 0.6)),
                             short=rng.choice((0, 0.2)), perm=rng.choice((0, 0.3)), window=rng.choice((4096, 65536))),
                    sched=sched_async(rng), limits=dict(time=4000))

    def run(self, w, plan):
        from aiomisc import entrypoint
        from aiomisc.service import TCPServer, TLSServer
        import socket
        base = TLSServer if plan['tls'] else TCPServer
        H = []                  # handler records
        C = []
        marks = {}

        class Boom(Exception):
            pass

        async def handler(self, reader, writer):
            rec = dict(id=None, got=B(), start=w.elapsed(), end=None, how=None, sent=B())
            H.append(rec)
            check('stopped' not in marks, 'handler-after-stop', f'a handler starts at {w.elapsed():.4f}, stop() ended at {marks.get("stopped")}')
            try:
                b = await reader.readexactly(2)
                rec['id'] = i = int.from_bytes(b, 'big')
                op = plan['clients'][i]
                w.trace('handler', i)
                twins = [h for h in H if h['id'] == i]
                check(len(twins) == 1, 'handled-twice', f'{twins}')
                if op['b'] == 'fail':
                    await asyncio.sleep(op['d'])
                    w.fault('handler-fails')
                    raise Boom(i)
                if op['b'] == 'hang':
                    await asyncio.sleep(1e6)
                if op['b'] == 'close':
                    writer.close()
                    return
                if op['b'] == 'big':
                    rec['sent'] = B(10) * op['size']
                    writer.write(rec['sent'])
                while True:
                    data = await reader.read(1000)
                    if not data:
                        break
                    rec['got'] = B(rec['got'] + data)
                    if op['b'] == 'slow':
                        await asyncio.sleep(op['d'])
                    rec['sent'] = B(rec['sent'] + data)
                    writer.write(data)
                    await writer.drain()
                if op['b'] != 'open':
                    writer.close()
            except asyncio.CancelledError:
                rec['how'] = 'cancelled'
                if rec['id'] is not None and plan['clients'][rec['id']]['c']:
                    w.fault('slow-cancel')
                    await asyncio.sleep(plan['clients'][rec['id']]['c'])
                raise
            except (ConnectionError, asyncio.IncompleteReadError) as e:
                rec['how'] = type(e).__name__
            except Boom:
                rec['how'] = 'boom'
                raise
            finally:
                rec['end'] = w.elapsed()
                w.trace('handled', rec['id'], rec['how'])
                check('stopped' not in marks, 'handler-after-stop', f'handler {rec} ends only after stop()')

        class Server(base):
            async def handle_client(self, reader, writer):
                await handler(self, reader, writer)

            async def stop(self, exc=None):
                marks['stop'] = w.elapsed()
                w.trace('stop')
                await super().stop(exc)
                marks['stopped'] = w.elapsed()
                w.trace('stopped')
                left = [h for h in H if h['end'] is None]
                check(not left, 'handler-after-stop', f'stop() returned while handlers run: {left}')

        kw = dict(ca=CERTS + '/ca.pem', key=CERTS + '/server.key', cert=CERTS + '/server.pem') if plan['tls'] else {}
        if plan['how'] == 'port':
            srv = Server(address='127.0.0.1', port=8500, **kw)
        else:
            sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            sock.bind(('127.0.0.1', 8500))
            srv = Server(sock=sock, **kw)
        cssl = client_ssl() if plan['tls'] else None

        async def client(i, op):
            rec = dict(i=i, how=None, got=B(), sent=B(), conn=None, at=None)
            C.append(rec)
            await asyncio.sleep(op['t'])
            rec['t'] = w.elapsed()
            late = 'stopped' in marks
            try:
                r, wr = await asyncio.open_connection('127.0.0.1', 8500, ssl=cssl)
                check(not late, 'listening-after-stop', 'a connection was accepted after stop()')
                rec['conn'] = w.elapsed()
                rec['writer'] = wr
                wr.write(i.to_bytes(2, 'big'))

                async def pump():
                    for k in range(op['n']):
                        d = bytes([i]) * op['size'] + b'%d;' % k
                        rec['sent'] = B(rec['sent'] + d)
                        wr.write(d)
                        await wr.drain()
                        if op['gap']:
                            await asyncio.sleep(op['gap'])
                    if op['end'] == 'eof' and not plan['tls']:
                        wr.write_eof()
                        rec['eof'] = 1
                    elif op['end'] == 'rst':
                        await asyncio.sleep(0.01)
                        rec['rst'] = 1
                        w.fault('client-reset')
                        wr.transport.abort()
                p = asyncio.ensure_future(pump())
                try:
                    while True:
                        d = await r.read(2000)
                        if not d:
                            break
                        rec['got'] = B(rec['got'] + d)
                        if op['end'] == 'close' and p.done() and len(rec['got']) >= len(rec['sent']) and op['b'] in ('echo', 'slow'):
                            rec['closed'] = 1
                            break
                    rec['how'] = 'eof'
                finally:
                    p.cancel()
                    await asyncio.wait([p])
            except (ConnectionError, ssl.SSLError, asyncio.IncompleteReadError) as e:
                rec['how'] = type(e).__name__
            finally:
                rec['at'] = w.elapsed()
                rec['held'] = sum(p['d'] for p in plan['parts'])
                if 'writer' in rec:
                    rec['writer'].close()
                w.trace('client', i, rec['how'] if rec['conn'] else 'refused')

        @asynccontextmanager
        async def direct():
            srv.set_loop(asyncio.get_running_loop())
            await srv.start()
            yield
            await srv.stop()

        def prt(op):
            loop = asyncio.get_running_loop()
            loop.call_later(op['t'], lambda: w.net.partition(True))

            def heal():
                if not any(o is not op and o['t'] <= w.elapsed() < o['t'] + o['d'] for o in plan['parts']):
                    w.net.partition(False)
            loop.call_later(op['t'] + op['d'], heal)

        async def amain():
            loop = asyncio.get_running_loop()
            async with (direct() if plan['direct'] else entrypoint(srv, log_config=False)):
                check(srv.port == 8500 and srv.address in ('127.0.0.1', '0.0.0.0'), 'wrong-address', f'{srv.address} {srv.port}')
                for op in plan['parts']:
                    prt(op)
                marks['t0'] = w.elapsed()
                ts = [asyncio.ensure_future(client(i, op)) for i, op in enumerate(plan['clients'])]
                if plan['step']:
                    ev = asyncio.Event()
                    seen = []

                    def on_connect(s, addr):
                        seen.append(1)
                        if len(seen) == 1 + len(plan['clients']) // 2:
                            w.at_handle(w.handles + plan['step'], ev.set)
                    w.net.on_connect = on_connect
                    await asyncio.wait([asyncio.ensure_future(ev.wait())], timeout=plan['stop'] + 1)
                    w.net.on_connect = None
                else:
                    await asyncio.sleep(plan['stop'])
                if any(c['conn'] and c['at'] is None for c in C):
                    w.probe('stop-with-connections')
            marks['left'] = w.elapsed()
            for _ in range(4):
                await settle(5)
                gc.collect()        # asyncio drops a connection accepted within server.close() without closing it
            slow = [t for t in ts if not t.done()]
            check(not slow, 'client-abandoned', f'clients hang although the server stopped: {[c for c in C if c["at"] is None]} handlers {H}')
            check(not srv.tasks, 'task-leaked', f'{srv.tasks}')
            for t in ts:
                t.result()

        w.on_limit = lambda what: violate('hang', f'{what} {marks} {C} {H}')
        run_async(w, amain, 'hang', lambda: f'the server never stops or a client hangs: {marks} clients {C} handlers {H}')
        sl = slack(plan, w) + 0.05
        held = sum(p['d'] for p in plan['parts'])
        cs = max([op['c'] for op in plan['clients']] + [0])
        lat = plan['net']['lat'] * 10 + plan['net']['jit'] * 20
        stuck = held + (3.0 if plan['tls'] else 0) + 400 * lat * (plan['net']['window'] < 65536)
        check(marks['stopped'] - marks['stop'] <= cs + sl + stuck, 'stop-late', f'stop() took {marks["stopped"] - marks["stop"]:.3f}s; {C} {H}')
        for c in C:
            op = plan['clients'][c['i']]
            hs = [h for h in H if h['id'] == c['i']]
            h = hs[0] if hs else None
            what = f'client {c} handler {h} stop {marks["stop"]}'
            before = c['conn'] is not None and c['conn'] + lat + sl + held + 0.05 < marks['stop']
            if c['conn'] is None:
                check(c['t'] + lat + sl + held > marks['stop'], 'connect-failed', what)
                continue
            if h is None:
                check(not before or 'rst' in c, 'never-handled', what)
                continue
            check((h['got'] if op['b'] != 'hang' else b'') == c['sent'][:len(h['got'])], 'bytes-wrong', what)
            check(c['got'] == h['sent'][:len(c['got'])], 'bytes-wrong', what)
            done = h['end'] is not None and h['how'] is None and h['end'] + lat + held + 1 + sl < marks['stop']
            if op['b'] == 'fail':
                if h['how'] == 'boom':
                    check(c['at'] <= h['end'] + lat + sl + held + stuck, 'failed-handler-keeps-client', what)
            elif c.get('closed') and op['b'] in ('echo', 'slow'):
                check(c['got'] == c['sent'], 'bytes-lost', what)
            elif 'eof' in c and done and op['b'] == 'echo':
                check(c['got'] == c['sent'] == h['got'], 'bytes-lost', what)
        if len(C) > 1 or w.probes.get('stop-with-connections'):
            w.probe('nontrivial')
        if plan['tls']:
            w.probe('tls')


PROP = P()
