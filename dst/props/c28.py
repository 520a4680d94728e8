import asyncio
import errno
import socket
import ssl

from .common import *
from .c17 import CERTS, B

MORE = CERTS + '/tls'
SECRET = b'this-never-travels-in-the-clear'
V = {2: ssl.TLSVersion.TLSv1_2, 3: ssl.TLSVersion.TLSv1_3}
STRONG = ('ECDHE-RSA-AES256-GCM-SHA384', 'ECDHE-RSA-CHACHA20-POLY1305', 'ECDHE-RSA-AES128-GCM-SHA256')
WEAK = 'AES256-GCM-SHA384'              # no forward secrecy
SERVERS = dict(good=CERTS + '/server', old=CERTS + '/server', evil=MORE + '/evilserver', self=MORE + '/selfserver',
               wrongname=MORE + '/wrongname', expired=MORE + '/expserver')
CLIENTS = dict(good=CERTS + '/client', evil=MORE + '/evilclient', self=MORE + '/selfclient', expired=MORE + '/expclient')


class P:
    ID = 'C28'
    LISTS = ('clients', 'conns')
    REAL = ['aiomisc.service.tls.TLSServer/TLSClient/RobustTLSClient', 'aiomisc.service.aiohttp.AIOHTTPSSLService', 'aiomisc.service.base',
            'aiomisc.entrypoint', 'asyncio streams and sslproto', 'OpenSSL', 'aiohttp server']
    STUB = ['kernel sockets and network', 'peers, impostors and the man in the middle', 'clock', 'selector', 'thread scheduler']
    RULE = ('(server) TLS and HTTPS servers with and without required client certificates, versions and ciphers; clients with the right, a foreign, '
            'self-signed, expired or no certificate, other versions and ciphers, plaintext, silent, resetting or tampered connections; (client) plain '
            'and robust TLS clients which meet the right server, impostors (foreign CA, self-signed, expired, other name, old version), plaintext, '
            'silent, resetting, refusing or tampered ones in seeded order; non-trivial: a peer which must be refused was met')
    RUNS = (2400, 60000)
    IMPORTS = ('aiomisc.service.aiohttp', 'aiohttp.web')

    def gen(self, rng, tier):
        mode = rng.choice(('server', 'client'))
        net = dict(lat=rng.choice((0.0005, 0.001, 0.02)), jit=rng.choice((0, 0, 0.02)), chunk=rng.choice((0, 0, 0.3)), short=rng.choice((0, 0.2)))
        p = dict(mode=mode, net=net, sched=sched_async(rng), limits=dict(time=8000))
        if mode == 'server':
            kind = rng.choice(('tls', 'tls', 'http'))
            p.update(kind=kind, req=rng.random() < 0.6, vers=rng.choice((None, None, (2, 3), (2, 2))) if kind == 'tls' else None,
                     ciphers=rng.choice((None, None, 0, 1)) if kind == 'tls' else None,
                     clients=[dict(t=grid(rng, 0.6, 0.02), cert=rng.choice(('good', 'good', 'good', 'none', 'evil', 'self', 'expired')),
                                   ver=rng.choice(((2, 3), (2, 3), (3, 3), (2, 2))), cipher=rng.choice((None, None, None, 0, 1, 2, WEAK)),
                                   act=rng.choice(('ok', 'ok', 'ok', 'ok', 'ok', 'plain', 'stall', 'tamper', 'reset')), k=rng.randrange(0, 8),
                                   bit=rng.randrange(0, 1 << 14), n=rng.choice((1, 30, 3000)))
                              for _ in range(rng.choice((1, 2, 4, 6)))])
        else:
            verify = rng.random() < 0.75
            ca = 'good' if verify else rng.choice(('good', None))
            robust = rng.random() < 0.6
            if not robust and rng.random() < 0.1:
                ca = None
            p.update(robust=robust, verify=verify, ca=ca, att=rng.choice((1, 2, 4)), retry=rng.choice((0, 0.1, 1)), rec=rng.choice((0.1, 1, 5)),
                     address=rng.choice(('127.0.0.1', 'localhost')), wait=rng.choice((1.0, 3.0)),
                     conns=[dict(who=rng.choice(('good', 'evil', 'self', 'wrongname', 'expired', 'old', 'garbage', 'silent', 'reset', 'refuse',
                                                 'good', 'evil') if rng.random() < 0.9 else ('tamper',)),
                                 k=rng.randrange(0, 8), bit=rng.randrange(0, 1 << 14)) for _ in range(rng.choice((0, 1, 1, 2, 3, 5)))])
        return p

    def run(self, w, plan):
        def sniff(sock, data):
            check(SECRET not in data, 'plaintext-on-wire', 'bytes of the application travel in the clear')
            return tamper(sock, data)

        def tamper(sock, data):
            m = self.mitm.get(sock._fd) or (sock._peer is not None and self.mitm.get(sock._peer._fd))
            if m and data:
                m['n'] += 1
                if m['n'] == m['k'] + 1:
                    w.fault('tamper')
                    b = bytearray(data)
                    b[m['bit'] // 8 % len(b)] ^= 1 << m['bit'] % 8
                    return bytes(b)
            return data
        self.mitm = {}
        w.net.on_push = sniff
        (self.server if plan['mode'] == 'server' else self.client)(w, plan)

    @staticmethod
    def cut(sock):
        if sock._state == 'connected':
            sock._send_rst()
            sock._reset(errno.ECONNRESET)

    # ---------------------------------------------------------------- servers
    def server(self, w, plan):
        from aiomisc import entrypoint
        from aiomisc.service import TLSServer
        H, C = [], []
        marks = {}
        lo, hi = plan['vers'] or (3, 3)
        ciphers = STRONG if plan['ciphers'] is None else (STRONG[plan['ciphers']],)

        def allowed(op):
            vs = set(range(lo, hi + 1)) & set(range(op['ver'][0], op['ver'][1] + 1))
            if not vs or op['act'] in ('plain', 'stall'):
                return False
            if max(vs) == 2 and op['cipher'] is not None:
                c = STRONG[op['cipher']] if isinstance(op['cipher'], int) else op['cipher']
                if c not in ciphers:
                    return False
            return not plan['req'] or op['cert'] == 'good'

        def admit(i, so, cert):
            op = plan['clients'][i]
            rec = dict(i=i, t=w.elapsed(), ver=so.version(), cipher=so.cipher()[0])
            check(not any(h['i'] == i for h in H), 'handled-twice', f'{rec} {H}')
            H.append(rec)
            w.trace('handled', i)
            check(allowed(op), 'served-stranger', f'client {i} {op} was served: {rec}; certificates required: {plan["req"]}, versions {plan["vers"]}')
            v = {'TLSv1.2': 2, 'TLSv1.3': 3}.get(rec['ver'], 0)
            check(lo <= v <= hi, 'wrong-version', f'{rec} {plan["vers"]}')
            if v == 2:
                check(rec['cipher'] in ciphers, 'wrong-cipher', f'{rec}')
            if plan['req']:
                names = [v for rdn in (cert or {}).get('subject', ()) for k, v in rdn if k == 'commonName']
                check(names == ['client'], 'certificate-lost', f'the handler of client {i} sees {cert}')

        class Server(TLSServer):
            async def handle_client(self, reader, writer):
                try:
                    i = int.from_bytes(await reader.readexactly(2), 'big')
                    admit(i, writer.get_extra_info('ssl_object'), writer.get_extra_info('peercert'))
                    n = int.from_bytes(await reader.readexactly(4), 'big')
                    writer.write(await reader.readexactly(n))
                    await writer.drain()
                except (asyncio.IncompleteReadError, ConnectionError, ssl.SSLError):
                    pass
                finally:
                    writer.close()

            async def stop(self, exc=None):
                marks['stop'] = w.elapsed()
                await super().stop(exc)
                marks['stopped'] = w.elapsed()

        kw = dict(address='127.0.0.1', port=8500, cert=CERTS + '/server.pem', key=CERTS + '/server.key', ca=CERTS + '/ca.pem',
                  require_client_cert=plan['req'])
        if plan['kind'] == 'http':
            from aiohttp import web
            from aiomisc.service.aiohttp import AIOHTTPSSLService

            class Http(AIOHTTPSSLService):
                async def create_application(self):
                    async def handle(request):
                        admit(int(request.match_info['i']), request.transport.get_extra_info('ssl_object'), request.transport.get_extra_info('peercert'))
                        return web.Response(body=await request.read())
                    app = web.Application()
                    app.router.add_post('/{i}', handle)
                    return app
            svc = Http(**kw)
        else:
            if plan['vers']:
                kw.update(minimum_version=V[lo], maximum_version=V[hi])
            if plan['ciphers'] is not None:
                kw['ciphers'] = ciphers
            svc = Server(**kw)

        async def client(i, op):
            rec = dict(i=i, how=None, got=B(), at=None)
            C.append(rec)
            await asyncio.sleep(op['t'])
            rec['t'] = w.elapsed()
            data = (SECRET * 100)[:op['n']] if op['n'] < 100 else SECRET * (op['n'] // len(SECRET))
            rec['data'] = B(data)
            if plan['kind'] == 'http':
                msg = b'POST /%d HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: %d\r\n\r\n' % (i, len(data)) + data
            else:
                msg = i.to_bytes(2, 'big') + len(data).to_bytes(4, 'big') + data
            wr = None
            try:
                if op['act'] in ('plain', 'stall'):
                    w.fault('plain-client' if op['act'] == 'plain' else 'stalled-handshake')
                    r, wr = await asyncio.open_connection('127.0.0.1', 8500)
                    if op['act'] == 'plain':
                        wr.write(msg.replace(SECRET, b'x'))
                    rec['got'] = B(await r.read())
                    return
                ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
                ctx.load_verify_locations(cafile=CERTS + '/ca.pem')
                ctx.minimum_version, ctx.maximum_version = V[op['ver'][0]], V[op['ver'][1]]
                if op['cipher'] is not None:
                    ctx.set_ciphers(STRONG[op['cipher']] if isinstance(op['cipher'], int) else op['cipher'])
                if op['cert'] != 'none':
                    ctx.load_cert_chain(CLIENTS[op['cert']] + '.pem', CLIENTS[op['cert']] + '.key')
                if plan['req'] and op['cert'] != 'good':
                    w.fault('stranger')
                sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
                sock.setblocking(False)
                await asyncio.get_running_loop().sock_connect(sock, ('127.0.0.1', 8500))
                if op['act'] in ('tamper', 'reset'):
                    self.mitm[sock._fd] = m = dict(n=0, k=op['k'], bit=op['bit'])
                    if op['act'] == 'reset':
                        m['k'] = 1 << 30
                        w.fault('client-reset')
                        asyncio.get_running_loop().call_later(op['k'] * (plan['net']['lat'] + 0.0001), self.cut, sock)
                r, wr = await asyncio.open_connection(sock=sock, ssl=ctx, server_hostname='127.0.0.1')
                wr.write(msg)
                rec['got'] = B(await r.read())
                rec['how'] = 'eof'
            except (OSError, asyncio.IncompleteReadError) as e:
                rec['how'] = type(e).__name__
            finally:
                rec['at'] = w.elapsed()
                w.trace('client', i, rec['how'])
                if wr is not None:
                    wr.close()

        async def amain():
            async with entrypoint(svc, log_config=False):
                ts = [asyncio.ensure_future(client(i, op)) for i, op in enumerate(plan['clients'])]
                await asyncio.wait(ts, timeout=20)
                marks['end'] = w.elapsed()
            marks['out'] = w.elapsed()
            done, pend = await asyncio.wait(ts, timeout=65)      # a handshake may last 60 s
            check(not pend, 'client-abandoned', f'{[c for c in C if c["at"] is None]}')
            for t in ts:
                t.result()

        w.on_limit = lambda what: violate('hang', f'{what} {marks} {C} {H}')
        run_async(w, amain, 'hang', lambda: f'{marks} clients {C} handlers {H}')
        sl = slack(plan, w) + 0.6 + plan['net']['lat'] * 40 + plan['net']['jit'] * 40
        tampered = 31 * any(op['act'] == 'tamper' for op in plan['clients'])       # a peer which does not answer the TLS shutdown
        check(marks['out'] - marks['end'] < sl + 5 * (plan['kind'] == 'http') + tampered, 'stop-late', f'stopping took {marks["out"] - marks["end"]:.3f} s; {C} {H}')
        for c in C:
            op = plan['clients'][c['i']]
            what = f'client {op} {c}; handlers {[h for h in H if h["i"] == c["i"]]}; certificates required: {plan["req"]}, versions {plan["vers"]}, ciphers {plan["ciphers"]}'
            body = c['got']
            if plan['kind'] == 'http' and op['act'] != 'plain':
                head, _, body = bytes(body).partition(b'\r\n\r\n')
                body = B(body)
                ok = head.startswith(b'HTTP/1.1 200 ')
            else:
                ok = True
            if allowed(op) and op['act'] == 'ok':
                check(ok and body == c['data'], 'not-served', f'{what} {bytes(c["got"])[:80]}')
                check(c['at'] - c['t'] < sl, 'served-late', what)
            else:
                w.probe('nontrivial')
                if op['act'] in ('tamper', 'reset') and allowed(op):
                    check(c['data'].startswith(body), 'bytes-wrong', what) if ok else None
                    continue
                if op['act'] == 'plain' and plan['kind'] == 'http':
                    check(b' 200 ' not in bytes(c['got'])[:40], 'served-plaintext', f'{what} {bytes(c["got"])[:80]}')
                elif op['act'] not in ('plain', 'stall'):
                    check(not c['got'], 'served-stranger', f'{what} {bytes(c["got"])[:80]}')
                if op['act'] == 'ok':
                    check(c['at'] - c['t'] < sl, 'refused-late', what)

    # ---------------------------------------------------------------- clients
    def client(self, w, plan):
        from aiomisc import entrypoint
        from aiomisc.service import RobustTLSClient, TLSClient
        base = RobustTLSClient if plan['robust'] else TLSClient
        tries, H, PEER = [], [], []
        marks = {}
        trusted = ('good',) if plan['verify'] else ('good', 'evil', 'self', 'wrongname', 'expired')
        if plan['verify'] and plan['ca'] is None:
            trusted = ()

        def conn(k):
            return plan['conns'][k] if k < len(plan['conns']) else dict(who='good', k=0, bit=0)

        def who(k):
            return conn(k)['who']

        def on_connect(sock, addr):
            k = len(tries)
            tries.append((w.elapsed(), who(k)))
            w.trace('try', k, who(k))
            if k > len(plan['conns']) + 6:
                violate('never-connected', f'the right server is dialled again and again: {what()}')
            if who(k) == 'refuse':
                w.fault('conn-refused')
                return True
            if who(k) == 'tamper':
                self.mitm[sock._fd] = dict(n=0, k=conn(k)['k'], bit=conn(k)['bit'])
                w.at(w.now + 20 * 10 ** 9, lambda: self.cut(sock))      # a changed length may leave both sides waiting
        w.net.on_connect = on_connect

        class Boom(Exception):
            pass

        class Client(base):
            connect_attempts = plan['att']
            connect_retry_timeout = plan['retry']
            reconnect_timeout = plan['rec']

            async def handle_connection(self, reader, writer):
                k = len(tries) - 1
                rec = dict(k=k, who=who(k), t=w.elapsed(), got=B(), ver=writer.get_extra_info('ssl_object') and writer.get_extra_info('ssl_object').version())
                H.append(rec)
                w.trace('handler', k)
                check(rec['who'] in trusted or rec['who'] == 'tamper' and trusted, 'trusted-impostor', f'handle_connection runs on a connection to {rec}; verify={plan["verify"]} ca={plan["ca"]}')
                check(rec['ver'] == 'TLSv1.3', 'wrong-version', f'{rec}')
                try:
                    writer.write(SECRET + b'%d\n' % k)
                    line = await reader.readline()
                    rec['got'] = B(line)
                    check((b'<' + SECRET + b'%d\n' % k).startswith(line), 'bytes-wrong', f'{line} {k}')
                    if not line.endswith(b'\n'):
                        raise Boom
                    rec['ok'] = 1
                    await asyncio.sleep(1e6)
                finally:
                    writer.close()

        kw = dict(ca=CERTS + '/ca.pem' if plan['ca'] else None, key=CERTS + '/client.key', cert=CERTS + '/client.pem', verify=plan['verify'])

        def context(name):
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            ctx.load_cert_chain(SERVERS[name] + '.pem', SERVERS[name] + '.key')
            if name == 'old':
                ctx.maximum_version = V[2]
            ctx.load_verify_locations(cafile=CERTS + '/ca.pem')
            ctx.verify_mode = ssl.CERT_REQUIRED
            return ctx

        n_acc = [0]

        async def peer(reader, writer):
            ks = [k for k, t in enumerate(tries) if t[1] != 'refuse']
            k = ks[n_acc[0]]
            n_acc[0] += 1
            me = who(k)
            try:
                if me == 'garbage':
                    writer.write(b'220 smtp.example.net ESMTP\r\n')
                    await reader.read()
                    return
                if me == 'silent':
                    await reader.read(1 << 20)
                    await asyncio.sleep(1e5)
                if me == 'reset':
                    await asyncio.sleep(conn(k)['k'] * 0.01)
                    writer.transport.abort()
                    return
                name = 'good' if me == 'tamper' else me
                if me not in ('good', 'tamper'):
                    w.fault('impostor')
                await writer.start_tls(context(name))
                line = await reader.readline()
                PEER.append((k, B(line)))
                if line:
                    check(me in trusted or me == 'tamper', 'sent-to-impostor', f'{me} received {line}')
                    cert = writer.get_extra_info('peercert')
                    check(cert, 'certificate-not-sent', 'the client did not show its certificate')
                if line.endswith(b'\n'):
                    check(line == SECRET + b'%d\n' % k, 'bytes-wrong', f'{line}')
                    writer.write(b'<' + line)
                    await writer.drain()
                await asyncio.sleep(1e5)
            except (OSError, asyncio.IncompleteReadError):
                pass
            finally:
                writer.close()

        async def amain():
            server = await asyncio.start_server(peer, '127.0.0.1', 8600)
            c = Client(address=plan['address'], port=8600, **kw)
            try:
                async with entrypoint(c, log_config=False):
                    marks['body'] = w.elapsed()
                    await asyncio.sleep(plan['wait'])
                    if plan['robust']:
                        # later connections, after tampered ones
                        for _ in range(200):
                            if any(h.get('ok') for h in H):
                                break
                            await asyncio.sleep(1)
                marks['stopped'] = w.elapsed()
            except Violation:
                raise
            except Exception as e:
                marks['failed'] = w.elapsed()
                marks['exc'] = e
            n = len(tries)
            await settle(10)
            check(len(tries) == n, 'connect-after-stop', f'{tries[n:]}')
            server.close()

        what = lambda: f'{marks} tries {tries} handlers {H} peers {PEER}; verify {plan["verify"]} ca {plan["ca"]}'
        w.on_limit = lambda x: violate('hang', f'{x} {what()}')
        run_async(w, amain, 'hang', what)
        if any(t[1] not in ('good', 'refuse') for t in tries):
            w.probe('nontrivial')
        sl = slack(plan, w) + 0.5 + plan['net']['lat'] * 40 + plan['net']['jit'] * 40
        per = sum(61 if t[1] in ('silent', 'tamper') else 0 for t in tries) + len(tries) * (plan['retry'] + plan['rec'] + sl)
        if plan['robust']:
            check('failed' not in marks, 'start-failed', what())
            check(any(h.get('ok') for h in H), 'never-connected', what())
            check(marks['body'] <= per, 'started-late', what())
        elif 'failed' in marks:
            e = marks['exc']
            check(isinstance(e, OSError), 'wrong-exception', what())
            last = tries[-1][1]
            check(last not in trusted or last == 'tamper', 'rejected-server', what())
            run = [t[1] for t in tries]
            if last in ('refuse', 'reset', 'silent'):
                check(len(tries) >= plan['att'], 'gave-up-early', what())
            check(len(run) <= plan['att'], 'attempts-exceeded', what())
        else:
            check(H and (tries[H[0]['k']][1] in trusted or tries[H[0]['k']][1] == 'tamper'), 'started-unconnected', what())
            if tries[H[0]['k']][1] != 'tamper':
                check(any(h.get('ok') for h in H), 'not-working', what())


PROP = P()
