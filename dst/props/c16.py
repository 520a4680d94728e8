import asyncio
import bz2
import errno
import gzip
import lzma
import threading

from .common import *

ALPHA = 'abcdefghijklmnopqrstuvwxyz'
OPENERS = {'none': open, 'gzip': gzip.open, 'bz2': bz2.open, 'lzma': lzma.open}


class P:
    ID = 'C16'
    LISTS = ('ops', 'faults', 'tasks')
    REAL = ['aiomisc.io', 'aiomisc.thread_pool', 'CPython pure-Python io stack (_pyio)', 'gzip/bz2/lzma']
    STUB = ['raw files (in memory, delays, EIO/ENOSPC/short transfers)', 'clock', 'thread scheduler']
    RULE = ('(seq) random operation sequences on text/binary/compressed files with disk faults, compared with the same '
            'operations on a plain synchronous file with the same faults; (iter) several tasks iterating one file; (conc) '
            'concurrent whole writes to one file, some cancelled; threads preempted and stalled inside raw operations; '
            'non-trivial: a disk fault was injected or operations overlapped')
    RUNS = (8000, 200000)

    def gen(self, rng, tier):
        mode = rng.choice(('seq', 'seq', 'iter', 'conc'))
        p = dict(mode=mode, lat=rng.choice((0, 0.001, 0.05, 0.3)), buf=rng.choice((16, 16, 64, 8192)), pool=rng.choice((1, 2, 4)),
                 own=rng.choice((0, 0, 1)), sched=sched_threads(rng))
        text = rng.choice((0, 1))
        comp = rng.choice(('none', 'none', 'none', 'gzip', 'bz2', 'lzma'))
        if mode == 'seq':
            m = rng.choice(('r', 'w', 'a', 'x', 'r+', 'w+', 'a+') if comp == 'none' else ('r', 'w'))
            n = rng.choice((2, 5, 10, 20))
            names = ('read', 'readn', 'readline', 'readlines', 'write', 'writelines', 'seek', 'seekend', 'tell', 'flush',
                     'truncate', 'name', 'closed', 'iter', 'modes', 'attrs', 'more')
            ops = [dict(op=rng.choice(names), n=rng.randrange(0, 60),
                        s=''.join(rng.choice(ALPHA + '\n') for _ in range(rng.choice((1, 5, 30, 100))))) for _ in range(n)]
            faults = []
            if comp == 'none':
                for _ in range(rng.choice((0, 0, 1, 2, 4))):
                    faults.append([rng.randrange(0, 12), rng.choice((errno.EIO, errno.ENOSPC, 'short', 'short'))])
            p.update(m=m, text=text, comp=comp, ops=ops, faults=faults, exists=rng.random() < 0.85,
                     content=[''.join(rng.choice(ALPHA) for _ in range(rng.choice((0, 3, 20, 90)))) for _ in range(rng.choice((0, 1, 5, 12)))],
                     how=rng.choice(('with', 'with', 'await', 'raise', 'again')), enc=rng.choice(('utf-8', 'utf-8', 'latin-1', 'utf-16')),
                     errors=rng.choice((None, 'replace', 'ignore')), newline=rng.choice((None, None, '', '\n', '\r\n')))
        elif mode == 'iter':
            p.update(text=text, comp='none', lines=rng.choice((0, 1, 5, 20, 40)), length=rng.choice((1, 10, 80)),
                     tasks=[dict(t=grid(rng, 0.2, 0.05), pause=rng.choice((0, 0, 0.01, 0.1)), brk=rng.choice((None, None, None, 3)))
                            for _ in range(rng.choice((1, 2, 3, 5)))])
        else:
            p.update(text=0, comp='none', append=rng.choice((0, 1)),
                     tasks=[dict(n=rng.choice((1, 3, 6)), size=rng.choice((1, 20, 100)), pause=rng.choice((0, 0, 0.02)),
                                 flush=rng.choice((0, 0, 1)), cancel_at=rng.choice((None, None, None, grid(rng, 0.5, 0.02))))
                            for _ in range(rng.choice((1, 2, 4)))])
        return p

    def run(self, w, plan):
        w.fs_buffer = plan['buf']
        w.fs.lat = plan['lat']
        path = '/sim/file'
        loop = new_loop()

        def on_raw(p, op):
            check(threading.get_ident() != 1, 'blocking-io-in-loop', f'raw {op} of the file runs in the event loop thread')
            if own and phase:
                check(threading.get_ident() in tids, 'wrong-executor', f'raw {op} does not run in the given executor')

        def stuck():
            violate('hang', '; '.join(w.describe_threads()) + ' ' + describe_tasks(loop))
        w.on_deadlock = stuck
        from aiomisc import ThreadPoolExecutor
        loop.set_default_executor(ThreadPoolExecutor(plan['pool']))
        w.fs.on_raw = on_raw
        fn = dict(seq=self.seq, iter=self.iterate, conc=self.conc)[plan['mode']]
        phase = self.phase = []
        n0 = len(w.threads)
        own = ThreadPoolExecutor(2) if plan['own'] else None
        tids = {t.tid + 1 for t in w.threads[n0:]}
        fn(w, plan, loop, path, own)

    # ------------------------------------------------------------ sequential differential run
    def seq(self, w, plan, loop, path, own):
        from aiomisc.io import Compression, async_open
        opener = OPENERS[plan['comp']]
        text = plan['text']
        m = plan['m']
        data = '\n'.join(plan['content']).encode()
        if plan['comp'] == 'gzip':
            data = gzip.compress(data)
        elif plan['comp'] == 'bz2':
            data = bz2.compress(data)
        elif plan['comp'] == 'lzma':
            data = lzma.compress(data)
        faults = {k: v for k, v in plan['faults']}
        enc = dict(encoding=plan.get('enc', 'utf-8'), newline=plan.get('newline'), errors=plan.get('errors')) if text else {}
        rmode = m + 't' if text else (m[:1] + 'b' + m[1:])
        from dst.fs import Inode

        def fresh():
            w.fs.files.clear()
            if plan['exists']:
                i = w.fs.files[path] = Inode()
                i.data += data
            w.fs.faults = {path: faults}

        class BodyError(Exception):
            pass

        def res(fnc):
            try:
                return ('ret', fnc())
            except Exception as e:
                return exc(e)

        def exc(e):
            return ('exc', type(e).__name__, getattr(e, 'errno', None))

        def steps(op):
            """(method, args) of one operation"""
            s = op['s'] if text else op['s'].encode()
            o = op['op']
            if o == 'write':
                return 'write', (s,)
            if o == 'writelines':
                return 'writelines', (s.splitlines(True),)
            if o == 'readn':
                return 'read', (op['n'],)
            if o in ('read', 'readline', 'readlines', 'tell', 'flush'):
                return o, ()
            if o == 'seek':
                return 'seek', (op['n'],)
            if o == 'seekend':
                return 'seek', (0, 2)
            if o == 'truncate':
                return 'truncate', (op['n'],)
            if o == 'more':
                if text:
                    return 'write_through', ()
                return ('peek', (op['n'],)) if plan['comp'] != 'lzma' and op['n'] % 2 else ('read1', (op['n'],))
            return o, ()

        def attrs(f):
            r = [f.isatty()]
            if plan['comp'] == 'none':
                r.append(sorted(f.mode.replace('t', '')))
            if text:
                r += [f.encoding, f.errors, f.line_buffering] + ([f.newlines] if plan.get('newline') in (None, '') else [])
            return ('ret', r)

        def disk(name):
            # what is on the disk after a flush
            return [bytes(w.fs.files[path].data)] if name == 'flush' and plan['comp'] == 'none' else []

        # ---- reference: the same operations on an ordinary file object
        fresh()
        w.fs_quiet = True
        ref = []
        final = None
        try:
            f = opener(path, rmode, **enc)
        except Exception as e:
            ref.append(exc(e))
        else:
            ref.append('open')
            for op in plan['ops']:
                name, args = steps(op)
                if name == 'name':
                    ref.append(('ret', f.name if plan['comp'] == 'none' else path))
                elif name == 'closed':
                    ref.append(('ret', f.closed))
                elif name == 'modes':
                    ref.append(('ret', (f.readable(), f.writable(), f.seekable())))
                elif name == 'iter':
                    ref.append(res(lambda: f.readline()))
                elif name == 'attrs':
                    ref.append(attrs(f))
                elif name == 'write_through':
                    ref.append(res(lambda: f.write_through))
                else:
                    ref.append(res(lambda: getattr(f, name)(*args)))
                ref += disk(name)
            ref.append(res(lambda: f.close()))
        final = bytes(w.fs.files[path].data) if path in w.fs.files else None
        w.fs_quiet = False
        # ---- the real thing
        fresh()
        got = []

        async def main():
            kw = dict(compression=Compression[plan['comp'].upper()])
            kw.update(enc)
            f = async_open(path, m if text else m[:1] + 'b' + m[1:], executor=own, **kw) if own else \
                async_open(path, m if text else m[:1] + 'b' + m[1:], **kw)

            async def work():
                got.append('open')
                self.phase.append(1)
                for op in plan['ops']:
                    name, args = steps(op)
                    w.trace('op', name)
                    try:
                        if name == 'name':
                            r = f.name if plan['comp'] == 'none' else path
                        elif name == 'closed':
                            r = f.closed()
                        elif name == 'modes':
                            r = (await f.readable(), await f.writable(), await f.seekable())
                        elif name == 'iter':
                            try:
                                r = await f.__anext__()
                            except StopAsyncIteration:
                                r = '' if text else b''
                        elif name == 'attrs':
                            r = attrs(f)[1]
                        else:
                            r = await getattr(f, name)(*args)
                        got.append(('ret', r))
                    except Exception as e:
                        got.append(exc(e))
                    got.extend(disk(name))
                self.phase.clear()
            try:
                if plan['how'] == 'await':
                    await f
                    await work()
                    await f.close()
                else:
                    if plan['how'] == 'again':
                        check(await f is f, 'wrong-result', 'awaiting the file gives something else')
                    async with f as g:
                        check(g is f, 'wrong-result', 'the context gives something else')
                        await work()
                        if plan['how'] == 'raise':
                            raise BodyError
                got.append(('ret', None))
            except BodyError:
                got.append(('ret', None))
            except Exception as e:
                got.append(exc(e))
            if got[0] == 'open' and ref[-1] == ('ret', None):
                check(f.closed(), 'not-closed', 'the file is not closed')
        loop.run_until_complete(main())
        after = bytes(w.fs.files[path].data) if path in w.fs.files else None
        if plan['comp'] != 'none' and plan['m'] == 'w' and final is not None and after is not None:
            def dec(b):
                try:
                    return {'gzip': gzip.decompress, 'bz2': bz2.decompress, 'lzma': lzma.decompress}[plan['comp']](b)
                except Exception as e:
                    return type(e).__name__
            final, after = dec(final), dec(after)
        if any(k.startswith('disk') for k in w.fault_counts) or len(plan['ops']) > 5:
            w.probe('nontrivial')
        if len(got) != len(ref) or got != ref:
            k = next((i for i, (a, b) in enumerate(zip(got, ref)) if a != b), min(len(got), len(ref)))
            what = plan['ops'][min(k, len(plan['ops'])) - 1] if k and plan['ops'] else 'open/close'
            violate('wrong-result', f'{plan["m"]} text={text} {plan["comp"]}: step {k} {what}: got {got[k:k + 1]}, a plain file gives '
                                    f'{ref[k:k + 1]}')
        check(after == final, 'wrong-content', f'file holds {after!r}, a plain file would hold {final!r}')
        if ref[0] == 'open' and ref[-1] == ('ret', None):
            check(w.fs.files[path].open_now == 0, 'handle-leaked', f'{w.fs.files[path].open_now} raw handles still open')

    # ------------------------------------------------------------ concurrent iteration
    def iterate(self, w, plan, loop, path, own):
        from aiomisc.io import async_open
        from dst.fs import Inode
        text = plan['text']
        lines = [f'{i}:' + 'x' * plan['length'] + '\n' for i in range(plan['lines'])]
        if not text:
            lines = [l.encode() for l in lines]
        w.fs.files[path] = Inode()
        w.fs.files[path].data += (''.join(lines).encode() if text else b''.join(lines))
        got = []

        async def main():
            async with async_open(path, 'r' if text else 'rb', executor=own) as f:
                async def consume(k, op):
                    await asyncio.sleep(op['t'])
                    n = 0
                    async for line in f:
                        got.append((k, line))
                        w.trace('line', k, line)
                        n += 1
                        if op['brk'] is not None and n >= op['brk']:
                            return
                        if op['pause']:
                            await asyncio.sleep(op['pause'])
                await asyncio.gather(*[consume(k, op) for k, op in enumerate(plan['tasks'])])
            check(f.closed(), 'not-closed', 'the file is not closed')
        loop.run_until_complete(main())
        ls = [l for _, l in got]
        check(sorted(set(ls)) == sorted(ls), 'line-repeated', f'{ls}')
        check(set(ls) <= set(lines), 'line-torn', f'{[l for l in ls if l not in set(lines)][:3]}')
        if any(op['brk'] is None for op in plan['tasks']):
            check(set(ls) == set(lines), 'line-lost', f'{sorted(set(lines) - set(ls))[:5]}')
        else:
            check(ls == lines[:len(ls)] or set(ls) == set(lines[:len(ls)]), 'line-lost', f'{ls}')
        for k in range(len(plan['tasks'])):
            mine = [l for j, l in got if j == k]
            check([l for l in lines if l in mine] == mine, 'line-reordered', f'task {k}: {mine}')
        if len({k for k, _ in got}) > 1:
            w.probe('nontrivial')

    # ------------------------------------------------------------ concurrent writes
    def conc(self, w, plan, loop, path, own):
        from aiomisc.io import async_open
        done, started = [], []

        async def main():
            f = async_open(path, 'ab' if plan['append'] else 'wb', executor=own)
            async with f:
                async def writer(k, op):
                    for j in range(op['n']):
                        rec = f'<{k}.{j}:'.encode() + b'x' * op['size'] + b'>'
                        started.append(rec)
                        n = await f.write(rec)
                        check(n == len(rec), 'wrong-result', f'write returned {n} of {len(rec)}')
                        done.append(rec)
                        w.trace('written', k, j)
                        if op['flush']:
                            await f.flush()
                        if op['pause']:
                            await asyncio.sleep(op['pause'])
                ts = [asyncio.ensure_future(writer(k, op)) for k, op in enumerate(plan['tasks'])]
                for t, op in zip(ts, plan['tasks']):
                    schedule_cancel(w, loop, t, op, 'writer')
                await asyncio.wait(ts)
                for t in ts:
                    if not t.cancelled() and t.exception():
                        raise t.exception()
            check(f.closed(), 'not-closed', 'the file is not closed')
        loop.run_until_complete(main())
        import re
        data = bytes(w.fs.files[path].data)
        recs = re.findall(rb'<\d+\.\d+:x*>', data)
        check(b''.join(recs) == data, 'write-torn', f'{data[:400]!r}')
        check(len(set(recs)) == len(recs), 'write-repeated', f'{recs}')
        check(set(done) <= set(recs), 'write-lost', f'{sorted(set(done) - set(recs))}')
        check(set(recs) <= set(started), 'write-from-nowhere', f'{sorted(set(recs) - set(started))}')
        for k in range(len(plan['tasks'])):
            mine = [r for r in recs if r.startswith(b'<%d.' % k)]
            check(mine == [r for r in started if r in set(mine)], 'write-reordered', f'{mine}')
        if len(plan['tasks']) > 1:
            w.probe('nontrivial')


PROP = P()
