import asyncio
import copy
import random
import socket
import struct

from .common import *

ZONES = ('com.', 'example.com.', 'sub.example.com.', 'a.b.sub.example.com.', 'example.org.', 'ample.com.', 'test.')
NAMES = ('', 'www.', 'x.y.', 'sub.', 'a.b.', 'badexample.')
LABELS = ('com', 'example', 'sub', 'a', 'b', 'www', 'test', 'x')
TYPES = ('A', 'AAAA', 'TXT', 'CNAME', 'MX', 'SRV')
RARE = ('NS', 'PTR', 'DNAME', 'SOA', 'CAA', 'NAPTR', 'DS', 'DNSKEY', 'RRSIG', 'NSEC', 'HTTPS', 'LOC', 'RP', 'TLSA', 'SSHFP')
ALLZONES = ZONES + ('.',)
TEXT = 'mnopqrstuvwxyz0123456789' * 10


def zone_of(name, z):
    return z == '.' or name == z or name.endswith('.' + z)


def under(prefix, z):
    return prefix + z if z != '.' else prefix or z


def spec(r):
    """Arguments of create() and the same data made by dnslib for (name, type, variant)."""
    import dnslib as D
    n, ty, v = r
    h = f'{ty.lower()}{v}.example.net.'
    return {
        'A': lambda: ((f'10.0.{v // 250}.{v % 250}',), D.A(f'10.0.{v // 250}.{v % 250}')),
        'AAAA': lambda: ((f'fd00::{v}',), D.AAAA(f'fd00::{v}')),
        # variants from 100000 on carry text of v - 100000 bytes
        'TXT': lambda: ((TEXT[:v - 100000],), D.TXT(TEXT[:v - 100000])) if v >= 100000 else ((f'text {v}',), D.TXT(f'text {v}')),
        'CNAME': lambda: ((h,), D.CNAME(h)),
        'NS': lambda: ((h,), D.NS(h)),
        'PTR': lambda: ((h,), D.PTR(h)),
        'DNAME': lambda: ((h,), D.DNAME(h)),
        'MX': lambda: ((h, v), D.MX(h, v)),
        'SRV': lambda: ((v, 1, 80, h), D.SRV(v, 1, 80, h)),
        'SOA': lambda: ((h, 'admin.' + h, 7, 3600 + v, 600, 86400, 61), D.SOA(h, 'admin.' + h, (7, 3600 + v, 600, 86400, 61))),
        'CAA': lambda: ((v, 'issue', h), D.CAA(v, 'issue', h)),
        'NAPTR': lambda: ((100 + v, 10, 'u', 'E2U+sip', '!^.*$!sip:x!', h), D.NAPTR(100 + v, 10, b'u', b'E2U+sip', b'!^.*$!sip:x!', h)),
        'DS': lambda: ((v, 8, 2, 'abcdef'), D.DS(v, 8, 2, b'abcdef')),
        'DNSKEY': lambda: ((256, 3, 8 + v, 'abcdef'), D.DNSKEY(256, 3, 8 + v, b'abcdef')),
        'RRSIG': lambda: ((1, 8, 2, 300 + v, 1700000000, 1600000000, 5, h, 'abcdef'), D.RRSIG(1, 8, 2, 300 + v, 1700000000, 1600000000, 5, h, b'abcdef')),
        'NSEC': lambda: ((h, [1, 28]), D.NSEC(h, ['A', 'AAAA'])),
        'HTTPS': lambda: ((v + 1, h, ['alpn=h3,h2', 'port=443']), D.HTTPS.fromZone([v + 1, h, 'alpn=h3,h2', 'port=443'])),
        'LOC': lambda: ((v + 10.0, 20.0, 30.0, 1.0, 10.0, 10.0), D.LOC(v + 10.0, 20.0, 30.0, 1.0, 10.0, 10.0)),
        'RP': lambda: ((h, 'txt.' + h), D.RP(h, 'txt.' + h)),
        'TLSA': lambda: ((3, 1, v, 'abcdef'), D.TLSA(3, 1, v, b'abcdef')),
        'SSHFP': lambda: ((4, v, 'abcdef'), D.SSHFP(4, v, b'abcdef')),
    }[ty]()


def ttl_of(r):
    return 60 + r[2] % 1000


class P:
    ID = 'C20'
    IMPORTS = ('aiomisc.service.dns',)
    LISTS = ('ops', 'clients')
    REAL = ['aiomisc.service.dns (servers, store, zones, tree)', 'aiomisc.service.tcp/udp', 'aiomisc.thread_pool', 'dnslib', 'asyncio transports']
    STUB = ['kernel sockets and network', 'clients', 'clock', 'selector', 'thread scheduler']
    RULE = ('UDP clients (with and without EDNS) and TCP clients (pipelined queries in arbitrary fragments) query nested zones while '
            'zones and records are added, removed and replaced from the loop and from pool threads; garbage packets, loss, '
            'duplication and resets; non-trivial: an answered query overlapped a change, or was fragmented, or truncated')
    RUNS = (8000, 150000)

    def gen(self, rng, tier):
        zones = rng.sample(ZONES, rng.choice((1, 2, 3, 4)))
        rare = rng.random() < 0.25

        def typ():
            return rng.choice(RARE if rare and rng.random() < 0.6 else TYPES)
        if rng.random() < 0.4:
            # zones of few labels, which come again at other depths
            base = rng.choice(ZONES[:2])
            zones = sorted({base} | {''.join(rng.choice(LABELS[2:5]) + '.' for _ in range(rng.choice((1, 1, 2, 3)))) + base for _ in range(rng.choice((1, 2, 4)))})
        if rng.random() < 0.2:
            zones = zones + ['.']

        def odd():
            """A name which shares labels with zones it is not part of."""
            ls = [x for x in rng.choice(zones).split('.') if x]
            for _ in range(rng.choice((1, 1, 2))):
                if rng.random() < 0.7:
                    ls.insert(rng.randrange(len(ls) or 1), rng.choice(LABELS))
                elif len(ls) > 1:
                    del ls[rng.randrange(len(ls))]
            return '.'.join(ls) + '.'

        def recs(z, n):
            rs = [[under(rng.choice(NAMES), z), typ(), rng.randrange(4)] for _ in range(n)]
            for r in rs:
                if rng.random() < 0.3:
                    o = odd()
                    if zone_of(o, z):
                        r[0] = o
            return rs

        def rec():
            return [odd() if rng.random() < 0.3 else under(rng.choice(NAMES), rng.choice(zones)), typ(), rng.randrange(4)]
        big = rng.random() < 0.3
        init = {z: recs(z, rng.choice((0, 2, 5))) + ([[under('www.', z), 'A', 1000 + k] for k in range(rng.choice((20, 60, 100)))] if big else [])
                for z in zones if rng.random() < 0.8}
        ops = []
        thr = rng.random() < 0.4
        for i in range(rng.choice((0, 1, 3, 6))):
            k = rng.choice(('addz', 'delz', 'add', 'add', 'del', 'zrep', 'rep', 'rep'))
            z = rng.choice(zones)
            op = dict(k=k, z=z, t=grid(rng, 0.5, 0.01), thr=thr and rng.random() < 0.7)
            if k in ('add', 'del'):
                op['r'] = [under(rng.choice(NAMES), z if rng.random() < 0.8 else rng.choice(ZONES)), typ(), rng.randrange(4)]
                have = init.get(z, [])[:6]
                if k == 'del' and have and rng.random() < 0.7:
                    op['r'] = list(rng.choice(have))
            elif k in ('addz', 'zrep'):
                op['r'] = recs(z, rng.choice((0, 1, 4)))
                if rng.random() < 0.2:
                    op['r'].append(['www.' + rng.choice(ZONES), 'A', 1])
            elif k == 'rep':
                op['r'] = {zz: recs(zz, rng.choice((0, 1, 4))) for zz in zones if rng.random() < 0.7}
                if op['r'] and rng.random() < 0.15:
                    op['r'][rng.choice(sorted(op['r']))].append(['www.' + rng.choice(ZONES), 'A', 1])
            ops.append(op)
        if rng.random() < 0.25:
            # the same name moves between nested zones while it is being queried
            zones = rng.choice((['com.', 'example.com.'], ['example.com.', 'sub.example.com.'], ['com.', 'example.com.', 'sub.example.com.']))
            name = rng.choice(('www.', '')) + zones[-1]
            thr = True
            t0 = grid(rng, 0.3, 0.01)

            def only(zs, v):
                return {z: [[name, 'A', v]] if z == zs[-1] else [] for z in zs}
            init = only(zones[:rng.randrange(1, len(zones) + 1)], 0)
            ops = [dict(k='rep', z=zones[0], t=t0, thr=True, r=only(zones[:rng.randrange(1, len(zones) + 1)], 1 + i)) for i in range(rng.choice((4, 10)))]
            if rng.random() < 0.5:
                # the records of one zone are replaced
                init = {z: [[name, 'A', 0]] if z == zones[-1] else [] for z in zones}
                ops = [dict(k='zrep', z=zones[-1], t=t0, thr=True, r=[[name, 'A', 4 * i + k] for k in range(rng.choice((1, 1, 2, 4)))]) for i in range(1, rng.choice((4, 10)))]
            clients = [dict(p=rng.choice(('udp', 'tcp')), t=t0, frag=0, pipe=True, end='close',
                            qs=[dict(n=name, ty='A', e=None, gap=0, bad='') for _ in range(12)]) for _ in range(3)]
            sched = sched_threads(rng)
            sched['gap'] = rng.choice((2, 4, 8, 20, 60))
            return dict(zones=zones, init=init, ops=ops, clients=clients, threads=thr,
                        net=dict(lat=0.0002, jit=0, drop=0, dup=0, chunk=0, short=0, perm=0), sched=sched)
        if rng.random() < 0.15 and init:
            # a reply whose size is about the limit of the client
            z = rng.choice(sorted(init))
            name = under('fit.', z)
            k = rng.choice((3, 4, 6))
            ln = rng.randrange(160, 230)
            init[z] = init[z] + [[name, 'TXT', 100000 + ln - j] for j in range(k)]
            full = 12 + len(name) + 5 + sum(2 + 10 + 1 + ln - j for j in range(k)) + 11
            fits = [dict(n=name, ty='TXT', e=full + d, gap=0, bad='') for d in (rng.choice((-1, 0, 1, -40, 40)), rng.choice((-1, 0, 1)))]
            if rng.random() < 0.3:
                fits.append(dict(fits[0], e=None))
        else:
            fits = []
        known = [r for rs in init.values() for r in rs[:6]] + [o['r'] for o in ops if o['k'] == 'add'] + \
                [r for o in ops if o['k'] in ('addz', 'zrep') for r in o['r']]
        clients = []
        for i in range(rng.choice((1, 2, 4))):
            qs = []
            for _ in range(rng.choice((1, 3, 6))):
                r = rng.choice(known) if known and rng.random() < 0.7 else rec()
                qs.append(dict(n=r[0], ty=r[1] if rng.random() < 0.9 else typ(), e=rng.choice((None, None, 512, 600, 1232, 4096)),
                               gap=rng.choice((0, 0, 0.03, 0.1)), bad=rng.choice(('', '', '', '', '', '', '', '', 'junk', 'qtype', 'short'))))
            clients.append(dict(p=rng.choice(('udp', 'udp', 'tcp')), t=grid(rng, 0.4, 0.01), qs=qs, frag=rng.choice((0, 0, 1, 2, 30)),
                                pipe=rng.random() < 0.5, end=rng.choice(('close', 'close', 'rst', 'half'))))
        if fits:
            clients.append(dict(p='udp', t=grid(rng, 0.4, 0.01), qs=fits, frag=0, pipe=False, end='close'))
        return dict(zones=zones, init=init, ops=ops, clients=clients, threads=thr, dots=rng.choice((0, 1, 2)),
                    net=dict(lat=rng.choice((0.0005, 0.005)), jit=rng.choice((0, 0.01)), drop=rng.choice((0, 0.1)), dup=rng.choice((0, 0.2)),
                             chunk=rng.choice((0, 0.5)), short=rng.choice((0, 0.3)), perm=rng.choice((0, 0.3))),
                    sched=sched_threads(rng) if thr else sched_async(rng))

    def run(self, w, plan):
        import dnslib
        from aiomisc import entrypoint, threaded
        from aiomisc.service.dns import DNSStore, DNSZone, TCPDNSServer, UDPDNSServer, records as R

        dnslib.dns.RDMAP.setdefault('DNAME', dnslib.DNAME)         # for the clients

        def mk(r):
            return getattr(R, r[1]).create(r[0], *spec(r)[0], ttl=ttl_of(r))

        def size_of(q, a):
            """Size of the whole reply with the given records."""
            d = dnslib.DNSRecord(dnslib.DNSHeader(id=1, qr=1), q=dnslib.DNSQuestion(q['n'], getattr(dnslib.QTYPE, q['ty'])))
            for r in a:
                d.add_answer(dnslib.RR(r[0], getattr(dnslib.QTYPE, r[1]), ttl=ttl_of(r), rdata=spec(r)[1]))
            if q['e'] is not None:
                d.add_ar(dnslib.EDNS0())
            return len(d.pack())

        def key(r):
            return r[0], r[1], spec(r)[1].toZone(), ttl_of(r)

        flip = random.Random(plan.get('dots', 0))

        def dotless(z):
            """Names are given with the trailing dot or without it."""
            return z[:-1] if plan.get('dots') and len(z) > 1 and flip.random() < 0.5 else z

        # ---- reference model: {zone: set of (name, type, v)}; versions [(since, state)]
        model = {}
        objs = {}
        versions = []           # [first instant it may be seen, last instant it may be seen, state]

        def publish(state, began):
            for v in versions:
                if v[1] is None:
                    v[1] = w.elapsed()
            versions.append([began, None, copy.deepcopy(state)])

        def answer(state, name, ty):
            own = [z for z in state if zone_of(name, z)]
            if not own:
                return frozenset()
            z = max(own, key=len)
            return frozenset(r for r in state[z] if r[0] == name and r[1] == ty)

        store = DNSStore()
        for z, rs in plan['init'].items():
            zo = DNSZone(dotless(z))
            for r in rs:
                zo.add_record(mk(r))
            store.add_zone(zo)
            objs[z] = zo
            model[z] = {tuple(r) for r in rs}
        publish(model, -1.0)
        ports = {}
        stats = dict(open=0)
        changing = [0]
        lock = asyncio.Lock()

        def expect_fail(op):
            k, z = op['k'], op['z']
            if k == 'addz':
                return z in model or any(not zone_of(r[0], z) for r in op['r'])
            if k == 'delz':
                return z not in model
            if k == 'add':
                return z not in objs or not zone_of(op['r'][0], z)
            if k == 'del':
                return z not in objs
            if k == 'zrep':
                return z not in objs or any(not zone_of(r[0], z) for r in op['r'])
            return any(not zone_of(r[0], zz) for zz, rs in op['r'].items() for r in rs)

        def apply(op):
            k, z = op['k'], op['z']
            if k == 'addz':
                zo = DNSZone(dotless(z))
                for r in op['r']:
                    zo.add_record(mk(r))
                store.add_zone(zo)
                return zo
            if k == 'delz':
                return store.remove_zone(dotless(z))
            if k == 'rep':
                return store.replace({dotless(zz): [mk(r) for r in rs] for zz, rs in op['r'].items()})
            zo = store.get_zone(dotless(z))
            if zo is None:
                raise ValueError
            if k == 'add':
                return zo.add_record(mk(op['r']))
            if k == 'del':
                return zo.remove_record(mk(op['r']))
            return zo.replace([mk(r) for r in op['r']])

        def model_apply(op):
            k, z = op['k'], op['z']
            if k == 'addz':
                model[z] = {tuple(r) for r in op['r']}
                objs[z] = 1
            elif k == 'delz':
                del model[z]
                objs.pop(z)
            elif k == 'add':
                model[z].add(tuple(op['r']))
            elif k == 'del':
                model[z].discard(tuple(op['r']))
            elif k == 'zrep':
                model[z] = {tuple(r) for r in op['r']}
            else:
                model.clear()
                objs.clear()
                for zz, rs in op['r'].items():
                    model[zz] = {tuple(r) for r in rs}
                    objs[zz] = 1

        async def change(op):
            await asyncio.sleep(op['t'])
            async with lock:            # changes are made one at a time, queries come at any time
                fail = expect_fail(op)
                t = w.elapsed()
                before = copy.deepcopy(model)
                if not fail:
                    model_apply(op)
                    # from now on the new state may be seen
                    versions.append([t, None, copy.deepcopy(model)])
                try:
                    if op['thr']:
                        await threaded(apply)(op)
                    else:
                        apply(op)
                    check(not fail, 'invalid-accepted', f'{op} on {before}')
                except ValueError as e:
                    check(fail, 'change-failed', f'{op}: {e!r} on {before}')
                    return
                t = w.elapsed()
                w.trace('change', op['k'], op['z'])
                for v in versions[:-1]:
                    if v[1] is None:
                        v[1] = t

        def possible(name, ty, a, b):
            return {answer(s, name, ty) for f, t, s in versions if f <= b and (t is None or t >= a)}

        def judge(q, body, sent, proto, qid):
            what = f'{proto} {q} sent {sent:.4f} answered {w.elapsed():.4f}'
            try:
                m = dnslib.DNSRecord.parse(body)
            except Exception as e:
                violate('reply-malformed', f'{what}: {e!r} {len(body)} bytes')
            check(m.header.id == qid and m.header.qr == 1, 'reply-mismatched', f'{what} {m.header}')
            check(len(m.questions) == 1 and str(m.q.qname) == q['n'] and (q['bad'] or m.q.qtype == getattr(dnslib.QTYPE, q['ty'])),
                  'reply-mismatched', f'{what}: question {m.questions}')
            if q['bad'] == 'qtype':
                check(not m.rr and m.header.rcode != 0, 'unknown-type-answered', f'{what}: {m}')
                return
            opt = [rr for rr in m.ar if rr.rtype == dnslib.QTYPE.OPT]
            check(bool(opt) == (q['e'] is not None), 'edns-wrong', f'{what}: {m}')
            got = [(str(rr.rname), dnslib.QTYPE[rr.rtype], rr.rdata.toZone(), rr.ttl) for rr in m.rr]
            check(len(set(got)) == len(got), 'answer-wrong', f'{what}: repeated records {got}')
            got = frozenset(got)
            want = {}
            for a in possible(q['n'], q['ty'], sent, w.elapsed()):
                want[frozenset(key(r) for r in a)] = a
            if len(want) > 1:
                w.probe('answer-during-change')
                w.probe('nontrivial')
            if proto == 'udp' and q['e'] is not None:
                check(len(body) <= max(q['e'], 512), 'reply-too-big', f'{what}: {len(body)} bytes')
            if m.header.tc and proto == 'udp' and got not in want:
                w.probe('truncated')
                w.probe('nontrivial')
                check(q['e'] is not None, 'answer-wrong', f'{what}: truncated without a limit')
                whole = [x for x in want if got < x]
                check(whole, 'answer-wrong', f'{what}: {sorted(got)}')
                # no record was dropped which would fit, whichever the order
                size = max(size_of(q, [r for r in want[x] if key(r) in got or key(r) == m]) for x in whole for m in x - got)
                check(size > max(q['e'], 512), 'answer-wrong', f'{what}: truncated to {len(got)} records of {len(body)} bytes although one more made {size}')
                check(m.header.rcode == 0, 'rcode-wrong', f'{what} {m.header}')
                return
            if got not in want:
                violate('answer-wrong', f'{what}: got {sorted(got)}, possible {[sorted(x) for x in want]}; zones {[(f, t, sorted(s)) for f, t, s in versions]}')
            if proto == 'tcp':
                check(not m.header.tc, 'tc-over-tcp', f'{what}')
            check(m.header.rcode == (0 if got else dnslib.RCODE.NXDOMAIN), 'rcode-wrong', f'{what} {m.header}')
            w.trace('answer', proto, q['n'], q['ty'], len(got))

        def packet(q, qid):
            d = dnslib.DNSRecord(dnslib.DNSHeader(id=qid, rd=1), q=dnslib.DNSQuestion(q['n'], getattr(dnslib.QTYPE, q['ty'])))
            if q['e'] is not None:
                d.add_ar(dnslib.EDNS0(udp_len=q['e']))
            b = d.pack()
            if q['bad'] == 'junk':
                w.fault('junk-packet')
                return b'\xff' * 7
            if q['bad'] == 'short':
                w.fault('junk-packet')
                return b[:14]
            if q['bad'] == 'qtype':
                d = dnslib.DNSRecord(dnslib.DNSHeader(id=qid, rd=1), q=dnslib.DNSQuestion(q['n'], 60000))
                return d.pack()
            return b

        async def udp(i, c):
            loop = asyncio.get_running_loop()
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            s.setblocking(False)
            s.connect(('127.0.0.1', 5053))
            try:
                for k, q in enumerate(c['qs']):
                    qid = 100 * (i + 1) + k
                    first = w.elapsed()
                    for att in range(6):
                        s.send(packet(q, qid))
                        if q['bad'] in ('junk', 'short'):
                            break
                        body = None
                        end = w.elapsed() + (0.5 if att < 5 else 3600)
                        while body is None and w.elapsed() < end:
                            try:
                                body = await asyncio.wait_for(loop.sock_recv(s, 65535), end - w.elapsed())
                            except asyncio.TimeoutError:
                                break
                            if body[:2] != struct.pack('!H', qid):
                                body = None         # a late duplicate
                        if body is not None:
                            break
                    if q['bad'] in ('junk', 'short'):
                        continue
                    if body is None:
                        lost = w.fault_counts.get('dgram-drop', 0)
                        check(lost, 'no-reply', f'{q}: no reply although nothing was lost')
                        continue
                    judge(q, body, first, 'udp', qid)
                    await asyncio.sleep(q['gap'])
            finally:
                s.close()

        async def tcp(i, c):
            r, wr = await asyncio.open_connection('127.0.0.1', 5053)
            out = []
            dead = None
            pend = []
            try:
                async def read(k, q, qid, sent):
                    try:
                        n = struct.unpack('!H', await r.readexactly(2))[0]
                        body = await r.readexactly(n)
                    except (asyncio.IncompleteReadError, ConnectionError) as e:
                        violate('no-reply', f'tcp {q} {k} of {c}: {e!r}')
                    judge(q, body, sent, 'tcp', qid)

                async def send(b):
                    step = c['frag'] or len(b)
                    for o in range(0, len(b), step):
                        wr.write(b[o:o + step])
                        if c['frag'] and len(b) // c['frag'] < 60:
                            await asyncio.sleep(0.002)
                    if c['frag']:
                        w.probe('fragmented')
                        w.probe('nontrivial')
                for k, q in enumerate(c['qs']):
                    qid = 100 * (i + 1) + k
                    b = packet(q, qid)
                    sent = w.elapsed()
                    if q['bad'] in ('junk', 'short'):
                        for args in pend:
                            await read(*args)
                        pend = []
                        await send(struct.pack('!H', len(b)) + b)
                        # the server may answer or close
                        await asyncio.sleep(0.05)
                        dead = k
                        break
                    if k == len(c['qs']) - 1 and c['end'] == 'half':
                        await send((struct.pack('!H', len(b)) + b)[:-3])
                        wr.write_eof()
                        break
                    await send(struct.pack('!H', len(b)) + b)
                    pend.append((k, q, qid, sent))
                    if not c['pipe']:
                        await read(*pend.pop())
                    await asyncio.sleep(q['gap'])
                for args in pend:
                    await read(*args)
                if dead is None and c['end'] == 'half' and c['qs']:
                    try:
                        rest = await r.read()
                        check(rest == b'', 'unexpected-reply', f'{rest!r} to an incomplete query')
                    except ConnectionError:
                        pass
                if c['end'] == 'rst':
                    wr.transport.abort()
            finally:
                wr.close()

        async def client(i, c):
            await asyncio.sleep(c['t'])
            await (udp if c['p'] == 'udp' else tcp)(i, c)

        async def amain():
            servers = UDPDNSServer(store=store, address='127.0.0.1', port=5053), TCPDNSServer(store=store, address='127.0.0.1', port=5053)
            async with entrypoint(*servers, log_config=False):
                await asyncio.gather(*[client(i, c) for i, c in enumerate(plan['clients'])], *[change(op) for op in plan['ops']])
                # in the end everything is as the model says
                for z in sorted({*ALLZONES, *plan['zones']}):
                    check((store.get_zone(dotless(z)) is not None) == (z in model), 'zone-wrong', f'{z}: {sorted(model)}')
                for z, rs in sorted(model.items()):
                    for r in sorted(rs)[:5]:
                        got = {(x.name, x.type.name, x.data.toZone(), x.ttl) for x in store.query(dotless(r[0]), R.RecordType[r[1]])}
                        want = {key(x) for x in answer(model, r[0], r[1])}
                        check(got == want, 'answer-wrong', f'query {r[:2]}: {got}, expected {want}')
                names = {under(p, z) for p in ('', 'x.', 'www.sub.') for z in plan['zones']} | {r[0] for rs in plan['init'].values() for r in rs[:6]} | {q['n'] for c in plan['clients'] for q in c['qs']}
                for n in sorted(names):
                    own = [z for z in model if zone_of(n, z)]
                    want = tuple(reversed([x for x in max(own, key=len).split('.') if x])) if own else None
                    check(store.get_zone_for_name(dotless(n)) == want, 'zone-wrong', f'{n}: {store.get_zone_for_name(dotless(n))}, expected {want}')
                await settle(1)
                check(not servers[0].tasks and not servers[1].tasks, 'task-leaked', f'{servers[0].tasks} {servers[1].tasks}')

        w.on_limit = lambda what: violate('hang', f'{what}')
        run_async(w, amain, 'hang', lambda: 'a client waits for its reply forever')


PROP = P()
