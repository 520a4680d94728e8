import asyncio
import functools
import zlib


from .common import *


class P:
    ID = 'C29'
    LISTS = ('rpcs', 'ports', 'svcs', 'waits')
    IMPORTS = ('grpc.aio', 'grpc_reflection.v1alpha.reflection', 'grpc_reflection.v1alpha._async')
    REAL = ['aiomisc.service.grpc_server', 'aiomisc.service.base', 'aiomisc.entrypoint', 'grpc.aio (Python part)', 'grpc_reflection', 'asyncio (pure Python)']
    STUB = ['the C core of gRPC (AioServer)', 'clients', 'clock', 'selector']
    RULE = ('a GRPCService with any handlers, ports and limits runs in an entrypoint; ports and the start may fail or be slow, others wait for the ports with timeouts, clients call '
            'known and unknown methods at any time while the service starts, runs and stops; non-trivial: a call was in progress at the stop, a fault or a cancelled waiter')
    RUNS = (6000, 150000)

    def gen(self, rng, tier):
        n = rng.choice((0, 1, 1, 2, 3))
        ports = [dict(secure=rng.random() < 0.3, after=grid(rng, 0.2, 0.05), addr=rng.choice(('localhost', '127.0.0.1', '[::]', '[::1]', 'unix:/x')), port=rng.choice((0, 0, 0, 7000 + i)),
                      fail=rng.random() < 0.04) for i in range(rng.choice((1, 1, 2, 3)))]
        return dict(
            svcs=[dict(name=f'pkg.Service{i}', methods=rng.choice((1, 2)), how=rng.choice(('add', 'add', 'add', 'ctor', 'both'))) for i in range(n)],
            ports=ports,
            reflection=rng.random() < 0.4, limit=rng.choice((None, None, None, 1, 2)), option=rng.random() < 0.5, compress=rng.random() < 0.3, pool=rng.random() < 0.3, icept=rng.random() < 0.3,
            grace=rng.choice((None, 0.2, 1.0)), start_delay=rng.choice((0, 0, 0.1, 0.3)), start_fail=rng.random() < 0.04, begin=rng.choice((0, 0.1, 0.2)),
            waits=[dict(p=rng.randrange(len(ports)), t=grid(rng, 0.6, 0.05), timeout=rng.choice((None, None, 0.02, 0.1, 0.3))) for _ in range(rng.choice((0, 1, 1, 2, 4)))],
            rpcs=[dict(t=grid(rng, 2.0, 0.05), p=rng.randrange(len(ports)), s=rng.randrange(max(1, n) + (rng.random() < 0.1)), m=rng.choice((0, 0, 1)),
                       d=rng.choice((0, 0, 0.01, 0.1, 0.3, 1.5, 70)), o=rng.choice('oooox'), n=i) for i in range(rng.choice((0, 1, 3, 6, 10)))],
            stop=rng.choice((0, 0.05, 0.5, 1.0, 2.0)), exc=rng.random() < 0.1, sched=sched_async(rng))

    def run(self, w, plan):
        from dst.boot import _sim_hash
        import grpc
        import grpc.aio
        from grpc.aio import _server as aio_server
        from grpc_reflection.v1alpha import reflection
        from grpc_reflection.v1alpha import reflection_pb2
        from aiomisc import entrypoint, ThreadPoolExecutor
        from aiomisc.service.grpc_server import GRPCService
        m = dict(cores=[], calls=[], started=None, stop=None, stopped=None, ports={})
        info = lambda: f'{ {k: v for k, v in m.items() if k != "cores"} }'

        class Addr(str):
            # the order of sets does not depend on the process
            def __hash__(self):
                return zlib.crc32(self.encode()) ^ plan['sched']['hash']
        addrs = [Addr(f"{p['addr']}:{p['port']}") for p in plan['ports']]
        bound = [0]

        class Core:
            """grpc._cython.cygrpc.AioServer"""

            def __init__(self, loop, thread_pool, generic_handlers, interceptors, options, maximum_concurrent_rpcs):
                self.interceptors, self.pool, self.options, self.limit = list(interceptors or ()), thread_pool, {k.decode() if isinstance(k, bytes) else k: v for k, v in options or ()}, maximum_concurrent_rpcs
                self.handlers = list(generic_handlers or ())
                self.ports, self.state, self.active, self.grace = {}, 'new', {}, None
                m['cores'].append(self)

            def add_generic_rpc_handlers(self, handlers):
                check(self.state == 'new', 'handlers-after-start', info)
                self.handlers += handlers

            def bind(self, addr, secure):
                addr = addr.decode()
                if self.state != 'new':
                    raise aio_server.cygrpc.UsageError('after start')
                i = next((i for i, p in enumerate(plan['ports']) if addrs[i] == addr and p['secure'] == secure and i not in [x[0] for x in self.ports.values()]), None)
                check(i is not None, 'wrong-port', lambda: f'bound {addr} secure={secure}, ports {plan["ports"]} {info()}')
                w.trace('bind', addr)
                if plan['ports'][i]['fail']:
                    w.fault('bind-fails')
                    return 0
                bound[0] += 1
                port = plan['ports'][i]['port'] or 40000 + bound[0]
                self.ports[port] = (i, addr, secure)
                return port

            def add_insecure_port(self, addr):
                return self.bind(addr, False)

            def add_secure_port(self, addr, creds):
                check(creds is CREDS, 'wrong-credentials', f'{creds}')
                return self.bind(addr, True)

            async def start(self):
                check(self.state == 'new', 'started-twice', info)
                self.state = 'starting'
                await asyncio.sleep(plan['start_delay'])
                if plan['start_fail']:
                    w.fault('start-fails')
                    self.state = 'failed'
                    raise OSError('start')
                self.state = 'running'

            def is_running(self):
                return self.state == 'running'

            async def shutdown(self, grace):
                if self.state in ('new', 'starting', 'failed'):
                    self.state = 'stopped'
                    return
                self.state = 'stopping'
                if m['stop'] is None:
                    m['stop'] = w.elapsed()
                    m['active'] = sorted(self.active.values())
                if self.active and grace is not None:
                    await asyncio.wait(list(self.active), timeout=grace)
                while self.active:
                    ts = list(self.active)
                    for t in ts:
                        t.cancel()
                    await asyncio.wait(ts)
                self.state = 'stopped'
                m['stopped'] = w.elapsed()
                w.trace('core stopped')

            async def wait_for_termination(self, timeout):
                while self.state != 'stopped':
                    await asyncio.sleep(0.01)
                return True

        class Details:
            def __init__(self, method):
                self.method, self.invocation_metadata = method, ()

        aio_server.cygrpc = type('cygrpc', (), dict(
            AioServer=Core, get_working_loop=asyncio.get_running_loop, UsageError=aio_server.cygrpc.UsageError,
            schedule_coro_threadsafe=staticmethod(lambda coro, loop: coro.close())))
        CREDS = type('Credentials', (), dict(__hash__=_sim_hash))()

        def find(core, method):
            for h in core.handlers:
                x = h.service(Details(method))
                if x is not None:
                    return x

        async def rpc(op):
            port = next((p for p, x in core().ports.items() if x[0] == op['p']), None) if core() else None
            c = core()
            if port is None or c.state != 'running':
                return 'unavailable'
            h = find(c, method_of(op))
            if h is None:
                return 'unimplemented'
            if c.limit is not None and len(c.active) >= c.limit:
                w.fault('limit')
                return 'exhausted'
            t = asyncio.ensure_future(h.unary_unary(op, None))
            c.active[t] = op['n']
            t.add_done_callback(c.active.pop)
            await asyncio.wait([t])
            return 'aborted' if t.cancelled() else 'failed' if t.exception() else t.result()

        def core():
            return m['cores'][-1] if m['cores'] else None

        def method_of(op):
            return f'/pkg.Service{op["s"]}/Method{op["m"]}'

        def known(op):
            return any(s['name'] == f'pkg.Service{op["s"]}' and op['m'] < s['methods'] for s in plan['svcs'])

        async def behaviour(name, i, op, context):
            m['calls'].append((op['n'], name, i, w.elapsed()))
            check(name == f'pkg.Service{op["s"]}' and i == op['m'], 'wrong-method', info)
            if plan['limit'] is not None:
                check(len(core().active) <= plan['limit'], 'limit-exceeded', info)
            await asyncio.sleep(op['d'])
            if op['o'] == 'x':
                raise ValueError(op['n'])
            return 'reply', op['n']

        async def main():
            loop = asyncio.get_running_loop()
            t_start = t_ready = None
            kw, ctor, tables = {}, [], []
            for s in plan['svcs']:
                table = {f'Method{i}': grpc.unary_unary_rpc_method_handler(functools.partial(behaviour, s['name'], i)) for i in range(s['methods'])}
                h = grpc.method_handlers_generic_handler(s['name'], table)
                type(h).__hash__ = _sim_hash
                if s['how'] in ('ctor', 'both'):
                    ctor.append(h)
                if s['how'] in ('add', 'both'):
                    tables.append((s['name'], h, table))
            if ctor:
                kw['handlers'] = tuple(ctor)
            if plan['limit'] is not None:
                kw['maximum_concurrent_rpcs'] = plan['limit']
            if plan['option']:
                kw['options'] = (('grpc.max_send_message_length', 77),)
            if plan['compress']:
                kw['compression'] = grpc.Compression.Gzip
            pool = ThreadPoolExecutor(1) if plan['pool'] else None
            if pool:
                kw['migration_thread_pool'] = pool
            icept = [grpc.aio.ServerInterceptor.__new__(type('I', (grpc.aio.ServerInterceptor,), dict(intercept_service=None)))] if plan['icept'] else []
            if icept:
                kw['interceptors'] = icept
            svc = GRPCService(reflection=plan['reflection'], **kw)
            if plan['grace'] is not None:
                svc.GRACEFUL_STOP_TIME = plan['grace']
            grace = plan['grace'] if plan['grace'] is not None else 60
            for name, h, table in tables:
                svc.add_generic_rpc_handlers((h,))
                svc.add_registered_method_handlers(name, table)
            futures = [svc.add_secure_port(addrs[i], CREDS) if p['secure'] else svc.add_insecure_port(addrs[i]) for i, p in enumerate(plan['ports'])]
            cancelled = set()

            async def waiter(x):
                await asyncio.sleep(x['t'])
                try:
                    port = await asyncio.wait_for(futures[x['p']], x['timeout'])
                except asyncio.TimeoutError:
                    w.fault('waiter-gives-up')
                    cancelled.add(x['p'])
                    return
                except asyncio.CancelledError:
                    if futures[x['p']].cancelled():
                        return                  # another waiter gave up
                    raise
                check(core() is not None and core().ports.get(port, (None,))[0] == x['p'] or len({(a, p['secure']) for a, p in zip(addrs, plan['ports'])}) < len(addrs),
                      'wrong-port', lambda: f'{x} {port} {core().ports}')
            results = {}

            async def client(op):
                await asyncio.sleep(op['t'])
                state = core().state if core() else 'none'
                at = w.elapsed()
                r = await rpc(op)
                results[op['n']] = (r, state, at, w.elapsed())
                w.trace('rpc', op['n'], str(r))
                if state == 'running':
                    if not known(op):
                        check(r == 'unimplemented', 'wrong-reply', lambda: f'{op} {r}')
                    elif r == 'exhausted':
                        check(plan['limit'] is not None, 'wrong-reply', lambda: f'{op} {r}')
                    elif r == 'aborted':
                        check(m['stop'] is not None and w.elapsed() >= m['stop'] + grace - 1e-3, 'aborted-early', lambda: f'{op} {info()}')
                    else:
                        check(r == ('failed' if op['o'] == 'x' else ('reply', op['n'])), 'wrong-reply', lambda: f'{op} {r}')
            waits = [asyncio.ensure_future(waiter(x)) for x in plan['waits']]
            clients = [asyncio.ensure_future(client(op)) for op in plan['rpcs']]
            hb = asyncio.ensure_future(heartbeat(w, plan, info))
            await asyncio.sleep(plan['begin'])
            broken = plan['start_fail'] or any(p['fail'] for p in plan['ports'])
            body = [False]
            t_start = w.elapsed()
            try:
                async with entrypoint(svc, log_config=False):
                    body[0] = True
                    t_ready = w.elapsed()
                    c = core()
                    check(not broken, 'failure-hidden', info)
                    check(c is not None and c.state == 'running', 'not-running', info)
                    check(t_ready - t_start <= plan['start_delay'] + lag(plan, w) + 0.02, 'start-late', lambda: f'{t_start} {t_ready}')
                    check(sorted(x[0] for x in c.ports.values()) == list(range(len(addrs))), 'port-not-bound', lambda: f'{c.ports} {plan["ports"]}')
                    got = [(f.result() if f.done() and not f.cancelled() else None) for f in futures]
                    for i, f in enumerate(futures):
                        check(f.done(), 'port-unknown', lambda: f'{i} {f} {info()}')
                        if not f.cancelled():
                            x = c.ports.get(f.result())
                            check(x is not None and x[1:] == (addrs[i], plan['ports'][i]['secure']), 'wrong-port', lambda: f'{i} {f.result()} {c.ports}')
                        else:
                            check(cancelled or any(x['timeout'] for x in plan['waits']), 'port-cancelled', info)
                    told = [p for p in got if p is not None]
                    check(len(set(told)) == len(told), 'wrong-port', lambda: f'{got}')
                    if plan['limit'] is not None:
                        check(c.limit == plan['limit'], 'argument-lost', f'limit {c.limit}')
                    if plan['option']:
                        check(c.options.get('grpc.max_send_message_length') == 77, 'argument-lost', f'{c.options}')
                    check(('grpc.default_compression_algorithm' in c.options) == plan['compress'], 'argument-lost', f'{c.options}')
                    check(c.interceptors == icept, 'argument-lost', f'{c.interceptors}')
                    check(c.pool is pool, 'argument-lost', f'{c.pool}')
                    h = find(c, '/grpc.reflection.v1alpha.ServerReflection/ServerReflectionInfo')
                    check((h is not None) == plan['reflection'], 'reflection', lambda: f'{h}')
                    if h is not None:
                        async def ask():
                            yield reflection_pb2.ServerReflectionRequest(list_services='x')
                        names = [s.name async for r in h.stream_stream(ask(), None) for s in r.list_services_response.service]
                        want = sorted([t[0] for t in tables] + [reflection.SERVICE_NAME])
                        # (services given to the constructor may be listed, too)
                        check(len(set(names)) == len(names) and set(want) <= set(names) <= set(want) | {s['name'] for s in plan['svcs']}, 'reflection', lambda: f'{names} {want}')
                    await asyncio.sleep(plan['stop'])
                    t_stop = w.elapsed()
                    check(core().state == 'running' and len(m['cores']) == 1, 'not-running', info)
                    if plan['exc']:
                        raise ZeroDivisionError
            except ZeroDivisionError:
                check(plan['exc'], 'wrong-exception', info)
            except (RuntimeError, OSError) as e:
                check(broken and not body[0], 'wrong-exception', lambda: f'{e!r} {info()}')
            except asyncio.InvalidStateError as e:
                violate('start-failed', f'{e!r} {plan["waits"]}')
            if body[0]:
                t_end = w.elapsed()
                c = core()
                check(c.state == 'stopped' and m['stop'] is not None, 'not-stopped', lambda: f'{c.state} {info()}')
                check(m['stop'] - t_stop <= lag(plan, w) + 0.02, 'stop-late', info)
                check(t_end - m['stopped'] <= lag(plan, w) + 0.05, 'stop-late', lambda: f'{t_end} {info()}')
                check(m['stopped'] - m['stop'] <= grace + lag(plan, w) + 0.02, 'stop-late', lambda: f'{grace} {info()}')
                check(not c.active, 'left-running', info)
                if m['active']:
                    w.probe('nontrivial')
            else:
                check(all(c.state != 'running' for c in m['cores']), 'left-running', info)
                for f in futures:
                    f.cancel()
                cancelled.update(range(len(futures)))
            if w.fault_counts:
                w.probe('nontrivial')
            n = len(m['calls'])
            for t in waits + clients:
                if not t.done():
                    await asyncio.wait([t])
                t.result()
            check(len(m['calls']) == n, 'called-after-stop', info)
            hb.cancel()
            await asyncio.gather(hb, return_exceptions=True)
            if pool:
                pool.shutdown()
        run_async(w, main, hang_msg=info)


PROP = P()
