import asyncio
import gc
import ssl

from .common import *
from .c17 import CERTS


class P:
    ID = 'C18'
    LISTS = ('conns',)
    REAL = ['aiomisc.service.tcp.TCPClient/RobustTCPClient', 'aiomisc.service.tls.TLSClient/RobustTLSClient', 'aiomisc.service.base',
            'aiomisc.entrypoint', 'asyncio streams and transports', 'OpenSSL']
    STUB = ['kernel sockets and network', 'peer server', 'clock', 'selector', 'thread scheduler']
    RULE = ('client services against a server which refuses, answers, closes or resets as planned; handle_connection returns, '
            'fails, waits for the peer or hangs; the application stops at a seeded time or before a seeded loop callback; '
            'non-trivial: an attempt was refused, a connection lost, or a stop while connecting or connected')
    RUNS = (8000, 150000)

    def gen(self, rng, tier):
        robust = rng.random() < 0.65
        tls = rng.random() < 0.2
        att = rng.choice((1, 2, 3, 5))
        conns = []
        for i in range(rng.choice((1, 2, 4, 8))):
            conns.append(dict(o=rng.choice(('ok', 'ok', 'refuse')), h=rng.choice(('ret', 'raise', 'peer', 'peer', 'hang') if robust else
                                                                              ('ret', 'raise', 'peer', 'hang')),
                              d=rng.choice((0, 0, 0.05, 0.4)), s=rng.choice(('close', 'rst', 'stay')), sd=rng.choice((0, 0.1, 0.3))))
        default = rng.choice(('ok', 'ok', 'refuse'))
        retry, rec = rng.choice((0, 0.1, 0.5, 3)), rng.choice((0, 0.1, 1.0, 5))
        if robust and (retry + rec == 0 or all(c['o'] != 'ok' for c in conns)):
            default = 'ok'
        return dict(robust=robust, tls=tls, att=att, conns=conns, retry=retry, rec=rec,
                    default=default, body=rng.choice((0.05, 0.5, 2.0, 6.0)), step=rng.choice((0, 0, rng.randrange(1, 30))),
                    c=rng.choice((0, 0, 0.2)),
                    net=dict(lat=rng.choice((0.0005, 0.02)), chunk=rng.choice((0, 0.5)), short=rng.choice((0, 0.2))),
                    sched=sched_async(rng), limits=dict(time=4000))

    def run(self, w, plan):
        from aiomisc import entrypoint
        from aiomisc.service import TCPClient, RobustTCPClient, TLSClient, RobustTLSClient
        base = ((TLSClient, RobustTLSClient) if plan['tls'] else (TCPClient, RobustTCPClient))[plan['robust']]
        tries = []              # (instant, verdict)
        H = []
        marks = {}
        PEER = []
        dflt = dict(o=plan['default'], h='hang', d=0, s='stay', sd=0)

        class Boom(Exception):
            pass

        def conn(k):
            return plan['conns'][k] if k < len(plan['conns']) else dflt

        def on_connect(sock, addr):
            k = len(tries)
            check('stopped' not in marks, 'connect-after-stop', f'a connect attempt after the service stopped; {tries}')
            tries.append((w.elapsed(), conn(k)['o']))
            w.trace('try', k, conn(k)['o'], round(w.elapsed(), 2))
            if conn(k)['o'] == 'refuse':
                w.fault('conn-refused')
                return True
        w.net.on_connect = on_connect

        class Client(base):
            connect_attempts = plan['att']
            connect_retry_timeout = plan['retry']
            reconnect_timeout = plan['rec']

            async def start(self):
                marks['start'] = w.elapsed()
                try:
                    return await super().start()
                except BaseException as e:
                    marks['start_exc'] = e
                    raise
                finally:
                    marks['start_end'] = w.elapsed()

            async def handle_connection(self, reader, writer):
                ok = [k for k, t in enumerate(tries) if t[1] == 'ok']
                k = ok[len(H)] if len(H) < len(ok) else None
                rec = dict(k=k, start=w.elapsed(), end=None, how=None)
                check(all(h['end'] is not None for h in H), 'connections-overlap', f'{H}')
                H.append(rec)
                check(k is not None, 'handler-without-connection', f'{tries} {H}')
                check('stopped' not in marks, 'handler-after-stop', f'{H}')
                op = conn(k)
                w.trace('handler', k, round(w.elapsed(), 2))
                if plan['robust']:
                    check(self.connected.is_set(), 'connected-wrong', f'`connected` is not set although handle_connection runs')
                try:
                    writer.write(b'%d\n' % k)
                    await writer.drain()
                    if op['h'] == 'peer' or not op['d']:
                        line = await reader.readline()
                        if line.endswith(b'\n'):
                            check(line == b'<%d>\n' % k, 'bytes-wrong', f'{line} {k}')
                            rec['answer'] = 1
                    await asyncio.sleep(op['d'])
                    if op['h'] == 'raise':
                        w.fault('handler-fails')
                        raise Boom(k)
                    if op['h'] == 'hang':
                        await asyncio.sleep(1e6)
                    if op['h'] == 'peer':
                        if not await reader.read(1):
                            raise ConnectionResetError('eof')
                    rec['how'] = 'ret'
                except asyncio.CancelledError:
                    rec['how'] = 'cancelled'
                    check('stop' in marks, 'spurious-cancel', f'handle_connection {rec} is cancelled')
                    if plan['c']:
                        w.fault('slow-cancel')
                        await asyncio.sleep(plan['c'])
                    raise
                except (Boom, ConnectionError) as e:
                    rec['how'] = 'exc'
                    raise
                finally:
                    rec['end'] = w.elapsed()
                    writer.close()
                    w.trace('handled', k, rec['how'])

            async def stop(self, exc=None):
                await super().stop(exc)
                marks['super_stopped'] = w.elapsed()

        kw = dict(ca=CERTS + '/ca.pem', key=CERTS + '/client.key', cert=CERTS + '/client.pem') if plan['tls'] else {}

        async def peer(reader, writer):
            try:
                line = await reader.readline()
                if not line:
                    return
                k = int(line)
                PEER.append(k)
                op = conn(k)
                writer.write(b'<%d>\n' % k)
                await writer.drain()
                await asyncio.sleep(op['sd'])
                if op['s'] == 'rst':
                    w.fault('peer-reset')
                    writer.transport.abort()
                elif op['s'] == 'stay':
                    await asyncio.sleep(1e5)
            except (ConnectionError, ssl.SSLError):
                pass
            finally:
                writer.close()

        async def amain():
            ctx = None
            if plan['tls']:
                ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
                ctx.load_cert_chain(CERTS + '/server.pem', CERTS + '/server.key')
            server = await asyncio.start_server(peer, '127.0.0.1', 8600, ssl=ctx)
            c = Client(address='127.0.0.1', port=8600, **kw)
            marks['begin'] = w.elapsed()
            try:
                async with entrypoint(c, log_config=False):
                    marks['body'] = w.elapsed()
                    ev = asyncio.Event()
                    if plan['step']:
                        w.at_handle(w.handles + plan['step'], ev.set)
                        await asyncio.wait([asyncio.ensure_future(ev.wait())], timeout=plan['body'])
                    else:
                        await asyncio.sleep(plan['body'])
                    if plan['robust']:
                        run = bool(H) and H[-1]['end'] is None
                        marks['conn_flag'] = (c.connected.is_set(), run, H[-1]['end'] if H else None)
                        w.probe('stopped-' + ('connected' if run else 'unconnected'))
                    marks['stop'] = w.elapsed()
                marks['stopped'] = w.elapsed()
            except Violation:
                raise
            except ConnectionError as e:
                marks['failed'] = w.elapsed()
                marks['exc'] = e
            n = len(tries)
            await settle(30)
            check(len(tries) == n, 'connect-after-stop', f'{tries[n:]}')
            check(all(h['end'] is not None for h in H), 'handler-after-stop', f'{H}')
            server.close()
            left = [t for t in asyncio.all_tasks() if 'peer' not in repr(t.get_coro()) and t is not asyncio.current_task()]
            check(not left, 'task-leaked', lambda: f'{[t.get_coro().__qualname__ for t in left]}')
            check(not c.tasks, 'task-leaked', f'{len(c.tasks)}')

        w.on_limit = lambda what: violate('hang', f'{what} {marks} {tries} {H}')
        run_async(w, amain, 'hang', lambda: f'the application never starts or stops: {marks} tries {tries} handlers {H}')
        self.judge(w, plan, marks, tries, H, conn)

    def judge(self, w, plan, marks, tries, H, conn):
        lat = plan['net']['lat']
        sl = slack(plan, w) + 0.02 + (0.5 if plan['tls'] else 0) + 12 * lat
        what = f'{marks} tries {tries} handlers {H}'
        stop = marks.get('stop', 1e18)
        cut = stop - lat - 0.001
        hs = list(H)
        run = 0         # consecutive refusals of one connect()
        due = marks['begin']
        ended = None
        for k, (t, verdict) in enumerate(tries):
            check(ended is None, 'attempt-after-end', f'attempt {k} at {t:.4f} after {ended}; {what}')
            check(t >= due - 0.0001, 'attempt-early', f'attempt {k} at {t:.4f}, due {due:.4f}; {what}')
            check(t <= due + sl, 'attempt-late', f'attempt {k} at {t:.4f}, due {due:.4f}; {what}')
            if verdict == 'refuse':
                w.probe('nontrivial')
                run += 1
                due = t + plan['retry']
                if run == plan['att']:
                    run = 0
                    if plan['robust']:
                        due = t + plan['rec']       # a pause before giving up may or may not be made
                        gap = t + plan['rec'] + plan['retry']
                        nxt = tries[k + 1][0] if k + 1 < len(tries) else None
                        if nxt is not None:
                            check(nxt >= due - 0.0001, 'attempt-early', f'reconnect at {nxt}; {what}')
                            check(nxt <= gap + sl, 'attempt-late', f'reconnect at {nxt}; {what}')
                            due = nxt
                        else:
                            check(gap + sl >= cut, 'gave-up-early', f'no reconnect after {t:.4f}; {what}')
                            due = 1e18
                    else:
                        ended = 'all attempts refused'
                        due = 1e18
                continue
            run = 0
            h = hs.pop(0) if hs else None
            if h is None:
                check(t + sl >= cut, 'never-handled', f'connection {k}; {what}')
                due = 1e18
                continue
            check(h['k'] == k, 'never-handled', what)
            if h['end'] is None or h['how'] == 'cancelled':
                due = 1e18
                continue
            w.probe('nontrivial')
            if h['how'] == 'ret' or not plan['robust']:
                ended = f'handle_connection ended: {h["how"]}'
                due = 1e18
            else:
                due = h['end'] + plan['rec']
        check(due + sl + lat >= cut, 'gave-up-early', f'an attempt was due at {due:.4f}; {what}')
        if 'failed' in marks:
            check(not plan['robust'], 'start-failed', what)
            check(len(tries) == plan['att'] and all(v == 'refuse' for _, v in tries), 'gave-up-early', what)
        else:
            check(not (ended == 'all attempts refused'), 'failure-lost', what)
            first = next(t for t, v in tries if v == 'ok')
            check(marks['body'] <= first + sl + 0.1, 'start-late', what)
            check(marks['body'] >= first, 'started-unconnected', what)
            check(marks['stopped'] - marks['stop'] <= plan['c'] + sl + 0.02, 'stop-late', what)
        if 'conn_flag' in marks:
            flag, running, end = marks['conn_flag']
            if running:
                check(flag, 'connected-wrong', what)
            elif end is not None and end < stop - 0.05 - sl:
                on = [t for t, v in tries if v == 'ok' and t > end]
                check(not flag or on, 'connected-wrong', f'`connected` is set while no connection exists; {what}')


PROP = P()
