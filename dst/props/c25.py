import asyncio
import signal
import socket

from .common import *


class P:
    ID = 'C25'
    LISTS = ('conns',)
    REAL = ['aiomisc.service.aiohttp', 'aiomisc.service.asgi', 'aiomisc.service.uvicorn', 'aiomisc.entrypoint', 'aiohttp server', 'aiohttp-asgi', 'uvicorn', 'asyncio']
    STUB = ['kernel sockets and network', 'clients', 'user applications', 'clock', 'selector', 'thread scheduler']
    RULE = ('aiohttp, ASGI and uvicorn services whose application answers, streams, fails, is slow or hangs; clients which send requests over kept, '
            'pipelined, closed, reset or idle connections; the service is stopped by the end of the program or a signal at any moment, started with the '
            'entrypoint or later; non-trivial: requests were running or connections were idle when the service stopped')
    RUNS = (4000, 100000)
    IMPORTS = ('aiomisc.service.aiohttp', 'aiomisc.service.asgi', 'aiomisc.service.uvicorn', 'uvicorn.protocols.http.auto', 'uvicorn.lifespan.on', 'aiohttp.web')

    def gen(self, rng, tier):
        kind = rng.choice(('aiohttp', 'aiohttp', 'asgi', 'uvicorn'))
        to = rng.choice((1, 3))
        conns = []
        stop = rng.choice((0.01, 0.3, 0.8, 1.5, 4.0, grid(rng, 3, 0.05)))
        for _ in range(rng.choice((0, 1, 2, 4, 6))):
            conns.append(dict(t=grid(rng, 1.2, 0.05), pipe=rng.random() < 0.25, end=rng.choice(('close', 'close', 'stay', 'stay', 'reset')),
                              reqs=[dict(b=rng.choice(('ok', 'ok', 'ok', 'stream', 'fail', 'hang' if kind == 'aiohttp' else 'ok')), size=rng.choice((0, 10, 2000, 70000)),
                                         d=rng.choice((0, 0, 0.05, 0.3, 0.9, 2)), gap=rng.choice((0, 0, 0.1, 0.5))) for _ in range(rng.choice((0, 1, 1, 2, 3)))]))
        bad = rng.choice(('create', 'startup') if kind == 'uvicorn' else ('create',)) if rng.random() < 0.05 else None
        return dict(bad=bad, kind=kind, conns=conns, to=to, stop=stop, how=rng.choice(('with', 'with', 'signal', 'later', 'later-signal')), own=rng.random() < 0.4, hc=rng.random() < 0.5,
                    boot=rng.choice((0, 0, 0.2)),
                    net=dict(lat=rng.choice((0.0005, 0.001, 0.02)), jit=rng.choice((0, 0, 0.02)), chunk=rng.choice((0, 0.2)), short=rng.choice((0, 0.2)), perm=rng.choice((0, 0.3))),
                    sched=sched_async(rng))

    def run(self, w, plan):
        from aiomisc import entrypoint
        R = {}                  # request id -> record
        C = []
        marks = dict(created=0, boots=0, downs=0)
        kind = plan['kind']

        def info():
            return f'{marks} {kind} requests {list(R.values())} connections {[{k: v for k, v in c.items() if k != "w"} for c in C]}'

        class Boom(Exception):
            pass

        async def serve(i, body, send):
            """The user's part of a handler."""
            r = R[i]
            check('stopped' not in marks or racing(next(c for c in C if c['k'] == r['k'])), 'handler-after-stop', lambda: f'request {i} {info()}')
            check(r['start'] is None, 'called-twice', lambda: f'request {i} {info()}')
            check(body == r['body'], 'wrong-request', lambda: f'request {i}: {len(body)} bytes {info()}')
            r['start'] = w.elapsed()
            w.trace('handler', i)
            op = r['op']
            try:
                if op['b'] == 'hang':
                    await asyncio.sleep(1e6)
                await asyncio.sleep(op['d'])
                if op['b'] == 'fail':
                    w.fault('handler-fails')
                    raise Boom(i)
                return await send()
            except asyncio.CancelledError:
                r['how'] = 'cancelled'
                raise
            finally:
                r['end'] = w.elapsed()
                check('stopped' not in marks or 'reset' in r and not plan['hc'] or racing(next(c for c in C if c['k'] == r['k'])), 'handler-after-stop', lambda: f'request {i} {info()}')

        def orphans():
            return not plan['hc'] and any('reset' in r and r['start'] is not None for r in R.values())

        def racing(c):
            # accepted while the server was being closed (asyncio gives such connections to nobody)
            d = slack(plan, w) + 12 * plan['net']['lat'] + 40 * plan['net']['jit'] + 0.05
            return c['conn'] is not None and marks['stop'] - d <= c['conn'] <= marks.get('stopped', 1e9) + d

        def reply(i):
            return b'r%d:' % i + R[i]['body'][::-1]

        def parts(i):
            b = reply(i)
            n = len(b) // 3
            return [b[:n], b[n:2 * n], b[2 * n:]]

        svc = self.service(w, plan, marks, R, serve, reply, parts, Boom)

        async def client(k, op):
            c = dict(k=k, t=None, conn=None, how=None, n=0, w=None)
            C.append(c)
            await asyncio.sleep(op['t'])
            c['t'] = w.elapsed()
            ids = []
            for q in op['reqs']:
                i = len(R)
                R[i] = dict(i=i, k=k, op=q, body=bytes([97 + i % 26]) * q['size'], sent=None, start=None, end=None, how=None, got=None, status=None)
                ids.append(i)

            class Bytes(bytes):
                def __repr__(self):
                    return f'<{len(self)}>'
            for i in ids:
                R[i]['body'] = Bytes(R[i]['body'])
            after = 'stopped' in marks
            try:
                r, wr = await asyncio.open_connection('127.0.0.1', 8500)
                check(not after, 'listening-after-stop', info)
                c['conn'] = w.elapsed()
                c['w'] = wr

                def put(i):
                    q = R[i]
                    q['sent'] = w.elapsed()
                    wr.write(b'POST /x HTTP/1.1\r\nHost: a\r\nX-Id: %d\r\nContent-Length: %d\r\n\r\n' % (i, len(q['body'])) + q['body'])
                if op['pipe']:
                    for i in ids:
                        put(i)
                for j, i in enumerate(ids):
                    if not op['pipe']:
                        put(i)
                    if op['end'] == 'reset' and j == len(ids) - 1:
                        await asyncio.sleep(0.1)
                        w.fault('client-reset')
                        R[i]['reset'] = w.elapsed()
                        wr.transport.abort()
                        c['how'] = 'reset'
                        return
                    R[i]['read'] = w.elapsed()
                    head = (await r.readuntil(b'\r\n\r\n')).decode().split('\r\n')
                    hd = dict(x.lower().split(': ', 1) for x in head[1:] if ': ' in x)
                    R[i]['status'] = int(head[0].split()[1])
                    if 'content-length' in hd:
                        got = await r.readexactly(int(hd['content-length']))
                    elif hd.get('transfer-encoding') == 'chunked':
                        got = b''
                        while True:
                            n = int(await r.readuntil(b'\r\n'), 16)
                            got += (await r.readexactly(n + 2))[:-2]
                            if not n:
                                break
                    else:
                        got = await r.read(-1)
                    R[i]['got'] = Bytes(got)
                    R[i]['at'] = w.elapsed()
                    c['n'] += 1
                    if hd.get('connection') == 'close':
                        break
                    await asyncio.sleep(R[i]['op']['gap'])
                if op['end'] == 'stay':
                    c['idle'] = w.elapsed()
                    extra = await r.read(100)
                    check(extra == b'', 'wrong-response', lambda: f'{extra!r} {info()}')
                c['how'] = 'end'
            except (ConnectionError, asyncio.IncompleteReadError) as e:
                c['how'] = type(e).__name__
            finally:
                c['at'] = w.elapsed()
                if c['w'] is not None:
                    c['w'].close()

        loop = new_loop()
        clients = []
        w.on_deadlock = lambda: violate('hang', '; '.join(w.describe_threads()) + describe_tasks(loop) + info())
        w.on_limit = lambda what: violate('hang', f'{what} {describe_tasks(loop)} {info()}')
        before = set()

        def go():
            marks['started'] = w.elapsed()
            for k, op in enumerate(plan['conns']):
                clients.append(loop.create_task(client(k, op)))

        async def main(ep):
            if 'later' in plan['how']:
                await asyncio.sleep(0.05)
                await ep.start_services(svc)
            check('ready' in marks, 'not-started', info)
            # the service is up: it accepts a connection and answers at once
            r, wr = await asyncio.open_connection('127.0.0.1', 8500)
            wr.close()
            go()
            if 'signal' in plan['how']:
                def sig():
                    if 'stop' not in marks:
                        marks['end'] = w.elapsed()
                        w.deliver_signal(signal.SIGINT)
                w.after(plan['stop'], sig)
                w.after(plan['stop'] + 300, lambda: check('stop' in marks, 'signal-lost', info))
                await asyncio.sleep(1e5)
            await asyncio.sleep(plan['stop'])
            marks['end'] = w.elapsed()
        if plan['bad']:
            return self.failing(w, plan, svc, loop, marks, info, Boom)
        try:
            with entrypoint(*([] if 'later' in plan['how'] else [svc]), log_config=False, loop=loop, shutdown_timeout=1e5):
                loop.run_until_complete(main(entrypoint.get_current()))
        except asyncio.CancelledError:
            check('signal' in plan['how'], 'wrong-outcome', info)
        except RuntimeError as e:
            check('signal' in plan['how'] and 'Event loop stopped' in str(e), 'wrong-outcome', lambda: f'{e!r} {info()}')
        check('stopped' in marks, 'not-stopped', info)

        async def rest():
            # connections in the backlog are reset by the kernel; the rest must have been closed by the service
            for _ in range(60):
                if all(t.done() for t in clients):
                    break
                await asyncio.sleep(0.5)
            slow = [c for c, t in zip(C, clients) if not t.done() and not racing(c)]
            for t in clients:
                if not t.done():
                    t.cancel()
            check(not slow, 'connection-left', lambda: f'clients are kept although the service stopped: {info()}')
            await asyncio.gather(*clients, return_exceptions=True)
            for t in clients:
                if not t.cancelled():
                    t.result()
            await asyncio.sleep(1)
            names = ('rest', 'client', 'main')
            left = [t for t in asyncio.all_tasks() if t.get_coro().__qualname__.rpartition('.')[2] not in names]
            # (aiohttp forgets handlers of lost connections which it must not cancel)
            check(not left or orphans() or any(map(racing, C)), 'task-left', lambda: f'{left} {info()}')
        loop.run_until_complete(rest())
        self.judge(w, plan, R, C, marks, reply, info, racing)

    def failing(self, w, plan, svc, loop, marks, info, Boom):
        from aiomisc import entrypoint
        got = []

        async def main(ep):
            if 'later' in plan['how']:
                try:
                    await ep.start_services(svc)
                except Exception as e:
                    got.append(e)
        w.fault('application-fails')
        w.probe('nontrivial')
        try:
            with entrypoint(*([] if 'later' in plan['how'] else [svc]), log_config=False, loop=loop, shutdown_timeout=1e5):
                loop.run_until_complete(main(entrypoint.get_current()))
        except Exception as e:
            got.append(e)
        what = lambda: f'{plan["bad"]}: {got} {info()}'
        check(got and 'ready' not in marks, 'failure-ignored', what)
        check(plan['bad'] != 'create' or isinstance(got[0], Boom), 'wrong-exception', what)
        check(marks['created'] == 1, 'created-twice', what)

        async def rest():
            await settle(1)
            try:
                r, wr = await asyncio.open_connection('127.0.0.1', 8500)
            except ConnectionError:
                pass
            else:
                violate('listening-after-stop', what())
            left = asyncio.all_tasks() - {asyncio.current_task()}
            check(not left, 'task-left', lambda: f'{left} {info()}')
        loop.run_until_complete(rest())

    def judge(self, w, plan, R, C, marks, reply, info, racing):
        L = slack(plan, w) + 0.05
        net = 12 * plan['net']['lat'] + 40 * plan['net']['jit'] + 0.01
        kind = plan['kind']
        stop = marks['stop']
        check(marks['created'] == 1, 'created-twice', info)
        if kind != 'aiohttp':
            check(marks['boots'] == 1 and marks['downs'] == 1, 'lifespan', info)
        running = [r for r in R.values() if r['start'] is not None and r['start'] < stop and (r['end'] or 1e9) > stop]
        idle = [c for c in C if c.get('idle') is not None and c['idle'] < stop]
        if running or idle:
            w.probe('nontrivial')
        bound = {'uvicorn': 23 if any(map(racing, C)) else 9}.get(kind, 2 * plan['to'])
        if kind == 'uvicorn':
            bound += sum(4 * r['op']['d'] for r in R.values())
        elif not running and not any(r['start'] is not None and r['start'] >= stop for r in R.values()) and not any(r['sent'] is not None and r['got'] is None and r['start'] is None for r in R.values()):
            bound = 0.3
        busy = [r for r in R.values() if r['sent'] is not None and r['got'] is None]
        check(marks['stopped'] - stop <= bound + L + net + plan['boot'], 'stop-late', lambda: f'{marks["stopped"] - stop} {info()}')
        for c in C:
            if c['conn'] is None and c['t'] is not None:
                check(c['t'] + net + L >= stop, 'connect-failed', lambda: f'{c["k"]} {info()}')
        for c in C:
            mine = [r for r in R.values() if r['k'] == c['k']]
            op = plan['conns'][c['k']]
            done = c['conn']
            for r in mine:
                q = r['op']
                what = lambda: f'request {r["i"]}: {info()}'
                if r['sent'] is None:
                    continue
                # answered rightly
                if r['got'] is not None:
                    if q['b'] == 'fail':
                        check(r['status'] == 500, 'wrong-response', what)
                    elif q['b'] == 'hang':
                        check(False, 'wrong-response', what)
                    elif r['how'] == 'cancelled' or r['start'] is None:
                        check(r['status'] >= 400, 'wrong-response', what)
                    else:
                        check(r['status'] == 200 and r['got'] == reply(r['i']), 'wrong-response', what)
                due = max(r['sent'], done or 0)
                size = 1 + q['size'] / 65536
                # called in time
                if due + (net + L) * size < stop and not (op['end'] == 'reset'):
                    check(r['start'] is not None and r['start'] <= due + (net + L) * size, 'not-called', what)
                if r['start'] is None:
                    break
                if q['b'] == 'hang':
                    if 'reset' in r and plan['hc'] and r['reset'] + net + L < stop:
                        check(r['end'] is not None and r['end'] <= r['reset'] + net + L, 'not-cancelled', what)
                    break
                dur = q['d'] * (4 if q['b'] == 'stream' else 1)
                if 'reset' in r:
                    if kind == 'aiohttp' and not plan['hc'] and r['start'] + q['d'] + L < stop:
                        check(r['end'] is not None and r['how'] is None, 'cancelled-needlessly', what)
                    if kind == 'aiohttp' and plan['hc'] and r['reset'] + net + L < min(r['start'] + q['d'], stop):
                        check(r['how'] == 'cancelled' and r['end'] <= r['reset'] + net + L, 'not-cancelled', what)
                    break
                # running requests may finish while the service stops
                if r['start'] + dur + (net + L) * size < stop + plan['to'] and r['start'] < stop:
                    check(r['how'] is None, 'cancelled-early', what)
                    # (a connection closed with unread requests is reset, which may lose the response)
                    if not (op['pipe'] and (any(x['b'] == 'fail' for x in op['reqs']) or r['start'] + dur + 2 * (net + L) * size >= stop)):
                        check(r['got'] is not None and r['at'] <= max(r['start'] + dur, r['read']) + 2 * (net + L) * size, 'no-response', what)
                if r['got'] is None:
                    break
                if q['b'] == 'fail':
                    break           # the connection may be closed after a failure
                done = r['at']

    def service(self, w, plan, marks, R, serve, reply, parts, Boom):
        kind = plan['kind']

        class Marks:
            async def start(self):
                await super().start()
                marks['ready'] = w.elapsed()
                w.trace('started')

            async def stop(self, exception=None):
                marks['stop'] = w.elapsed()
                w.trace('stop')
                await super().stop(exception)
                marks['stopped'] = w.elapsed()
                w.trace('stopped')

        if kind == 'aiohttp':
            from aiohttp import web
            from aiomisc.service.aiohttp import AIOHTTPService

            async def handle(req):
                i = int(req.headers['X-Id'])
                body = await req.read()

                async def send():
                    if R[i]['op']['b'] != 'stream':
                        return web.Response(body=reply(i))
                    resp = web.StreamResponse()
                    await resp.prepare(req)
                    for p in parts(i):
                        await resp.write(p)
                        await asyncio.sleep(R[i]['op']['d'])
                    await resp.write_eof()
                    return resp
                return await serve(i, body, send)

            class Svc(Marks, AIOHTTPService):
                async def create_application(self):
                    marks['created'] += 1
                    await asyncio.sleep(plan['boot'])
                    if plan['bad']:
                        raise Boom('create')
                    app = web.Application()
                    app.router.add_post('/x', handle)
                    return app
        else:
            async def app(scope, receive, send):
                if scope['type'] == 'lifespan':
                    while True:
                        m = await receive()
                        if m['type'] == 'lifespan.startup':
                            marks['boots'] += 1
                            await asyncio.sleep(plan['boot'])
                            if plan['bad']:
                                await send({'type': 'lifespan.startup.failed', 'message': 'bad'})
                                return
                            await send({'type': 'lifespan.startup.complete'})
                        else:
                            marks['downs'] += 1
                            await send({'type': 'lifespan.shutdown.complete'})
                            return
                i = int(dict(scope['headers'])[b'x-id'])
                body = b''
                while True:
                    m = await receive()
                    if m['type'] == 'http.disconnect':
                        return
                    body += m['body']
                    if not m.get('more_body'):
                        break

                async def answer():
                    stream = R[i]['op']['b'] == 'stream'
                    b = reply(i)
                    await send({'type': 'http.response.start', 'status': 200, 'headers': [] if stream else [(b'content-length', b'%d' % len(b))]})
                    if not stream:
                        await send({'type': 'http.response.body', 'body': b})
                        return
                    for k, p in enumerate(parts(i)):
                        await send({'type': 'http.response.body', 'body': p, 'more_body': True})
                        await asyncio.sleep(R[i]['op']['d'])
                    await send({'type': 'http.response.body', 'body': b''})
                await serve(i, body, answer)

            if kind == 'asgi':
                from aiomisc.service.asgi import ASGIHTTPService

                class Svc(Marks, ASGIHTTPService):
                    async def create_asgi_app(self):
                        marks['created'] += 1
                        if plan['bad'] == 'create':
                            raise Boom('create')
                        return app
            else:
                from aiomisc.service.uvicorn import UvicornService

                class Svc(Marks, UvicornService):
                    async def create_application(self):
                        marks['created'] += 1
                        if plan['bad'] == 'create':
                            raise Boom('create')
                        return app
        kw = {}
        if kind == 'uvicorn':
            kw['timeout_graceful_shutdown'] = 20
            kw['http'] = 'h11'
            kw['interface'] = 'asgi3'
            kw['ws'] = 'none'
        else:
            kw.update(shutdown_timeout=plan['to'], handler_cancellation=plan['hc'])
        if plan['own']:
            s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            s.bind(('127.0.0.1', 8500))
            return Svc(sock=s, **kw)
        return Svc(**{'host' if kind == 'uvicorn' else 'address': '127.0.0.1'}, port=8500, **kw)


PROP = P()
