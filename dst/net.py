"""Simulated kernel sockets and selector.

The real asyncio selector event loop (transports, servers, sock_* helpers,
streams) runs unmodified on top of these.
"""
import errno
import os
import selectors
import socket as _s

from . import world

_RealSocket = _s.socket
_OSErr = {
    errno.ECONNREFUSED: ConnectionRefusedError, errno.ECONNRESET: ConnectionResetError,
    errno.EPIPE: BrokenPipeError, errno.ETIMEDOUT: TimeoutError, errno.ECONNABORTED: ConnectionAbortedError,
}


def oserr(no):
    return OSError(no, os.strerror(no))


class Net:
    def __init__(self, w, cfg=None):
        self.w = w
        cfg = dict(cfg or {})
        self.cfg = cfg
        self.fds = {}
        self.next_fd = 1000
        self.next_port = 40000
        self.listeners = {}
        self.dgrams = {}
        self.paths = {}
        self.selectors = []
        self.lat = cfg.get('lat', 0.001)            # base latency, s
        self.jit = cfg.get('jit', 0.0)              # max extra latency, s
        self.p_chunk = cfg.get('chunk', 0.0)        # split a send into segments
        self.p_short = cfg.get('short', 0.0)        # short (partial) non-blocking write
        self.p_drop = cfg.get('drop', 0.0)
        self.p_dup = cfg.get('dup', 0.0)
        self.p_perm = cfg.get('perm', 0.0)          # permute the ready list
        self.window = cfg.get('window', 65536)
        self.reuseport_unix = cfg.get('reuseport_unix', True)
        self.partitioned = False
        self.held = []
        self.refuse = 0                             # refuse the next n connects
        self.on_connect = None
        self.on_dgram = None
        self.on_push = None                         # sees, and may change, the bytes on the wire
        self.dgram_fail = None
        self.hosts = {}                             # names which resolve
        self.dgram_qlen = None                      # messages a unix datagram socket can hold

    def alloc(self, sock):
        self.next_fd += 1
        self.fds[self.next_fd] = sock
        return self.next_fd

    def delay(self, stream, local):
        if local:
            return 0
        d = self.lat
        if self.jit:
            c = self.w.choose(stream, 5, 0.6)
            d += self.jit * (0, 0.1, 0.35, 0.7, 1.0)[c]
            if c:
                self.w.fault('net-delay')
        return d

    def notify(self, sock):
        for t in sock._waiters:
            self.w.wake(t)
        sock._waiters.clear()
        fd = sock._fd
        for s in self.selectors:
            if s._thread is not None and fd in s._map:
                self.w.wake(s._thread)

    def deliver_at(self, when, fn):
        """Run fn at `when`, or once the partition heals."""
        def go():
            if self.partitioned:
                self.held.append(fn)
            else:
                fn()
        self.w.at(when, go)

    def partition(self, on):
        self.partitioned = on
        if on:
            self.w.fault('partition')
        else:
            held, self.held = self.held, []
            for fn in held:
                self.w.at(self.w.now, fn)


class SimSocket(_RealSocket):
    __slots__ = ('_fam', '_typ', '_prt', '_fd', '_timeout', '_state', '_rx', '_eof', '_err', '_peer',
                 '_laddr', '_raddr', '_backlog', '_waiters', '_inflight', '_last', '_opts', '_local',
                 '_wshut', '_dq', '_name', '_finsent', '_readcount', '_maxbacklog', '_stall', '_proc', '_closed')

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        w = world.W
        if w is None or w.net is None:
            raise RuntimeError('socket created outside a simulated run')
        if w.sock_hook is not None:
            w.sock_hook(family, type)
        self._proc = w.current.proc
        self._closed = False
        self._fam = _s.AF_INET if family == -1 else family
        self._typ = _s.SOCK_STREAM if type == -1 else type
        self._typ &= ~(getattr(_s, 'SOCK_NONBLOCK', 0) | getattr(_s, 'SOCK_CLOEXEC', 0))
        self._prt = 0 if proto == -1 else proto
        self._fd = w.net.alloc(self)
        self._timeout = None
        self._state = 'new'
        self._rx = bytearray()
        self._dq = []
        self._eof = False
        self._err = 0
        self._peer = None
        self._laddr = '' if self._fam == _s.AF_UNIX else ('0.0.0.0', 0)
        self._raddr = None
        self._backlog = None
        self._maxbacklog = 100
        self._waiters = []
        self._inflight = 0
        self._last = 0
        self._opts = {}
        self._local = False
        self._wshut = False
        self._finsent = False
        self._readcount = 0
        self._stall = False
        self._name = ''

    family = property(lambda self: _s.AddressFamily(self._fam))
    type = property(lambda self: _s.SocketKind(self._typ))
    proto = property(lambda self: self._prt)
    timeout = property(lambda self: self._timeout)

    def __repr__(self):
        return f'<SimSocket fd={self._fd} {self._state}>'

    def __del__(self):
        w = world.W
        if w is not None and not w.finished and self._fd != -1:
            w.kernel += 1
            try:
                self.close()
            finally:
                w.kernel -= 1

    def fileno(self):
        return self._fd

    def setblocking(self, flag):
        self._timeout = None if flag else 0.0

    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def getblocking(self):
        return self._timeout != 0.0

    def set_inheritable(self, v):
        pass

    def get_inheritable(self):
        return False

    def setsockopt(self, level, opt, value, optlen=None):
        self._chk()
        if (opt == _s.SO_REUSEPORT and level == _s.SOL_SOCKET and self._fam == _s.AF_UNIX
                and value and not world.W.net.reuseport_unix):
            world.W.fault('reuseport-unsupported')
            raise oserr(errno.EOPNOTSUPP)
        self._opts[(level, opt)] = value

    def getsockopt(self, level, opt, buflen=None):
        if level == _s.SOL_SOCKET and opt == _s.SO_ERROR:
            e, self._err = self._err, 0
            return e
        return self._opts.get((level, opt), 0)

    def _chk(self):
        if self._fd == -1:
            raise oserr(errno.EBADF)

    # ---------------------------------------------------------- addresses
    def bind(self, addr):
        self._chk()
        net = world.W.net
        if self._fam == _s.AF_UNIX:
            if addr in net.paths:
                raise oserr(errno.EADDRINUSE)
            net.paths[addr] = self
            self._laddr = addr
        else:
            host, port = addr[0], addr[1]
            if not port:
                net.next_port += 1
                port = net.next_port
            key = (self._typ, host, port)
            table = net.dgrams if self._typ == _s.SOCK_DGRAM else net.listeners
            cur = table.get((host, port))
            if cur is not None and cur._fd != -1 and cur is not self:
                raise oserr(errno.EADDRINUSE)
            self._laddr = (host, port) if self._fam == _s.AF_INET else (host, port, 0, 0)
        if self._typ == _s.SOCK_DGRAM:
            net.dgrams[self._key(self._laddr)] = self
            self._state = 'bound'

    @staticmethod
    def _key(addr):
        return addr if isinstance(addr, (str, bytes)) else (addr[0], addr[1])

    def getsockname(self):
        self._chk()
        return self._laddr

    def getpeername(self):
        self._chk()
        if self._raddr is None:
            raise oserr(errno.ENOTCONN)
        return self._raddr

    def listen(self, backlog=128):
        self._chk()
        if self._backlog is None:
            self._backlog = []
        self._maxbacklog = backlog
        self._state = 'listen'
        world.W.net.listeners[self._key(self._laddr)] = self

    def accept(self):
        self._chk()
        while not self._backlog:
            if self._state != 'listen':
                raise oserr(errno.EINVAL)
            self._wait('accept')
        c = self._backlog.pop(0)
        c._timeout = None
        c._proc = world.W.current.proc
        return c, c._raddr

    # ---------------------------------------------------------- blocking
    def _wait(self, why):
        if self._timeout == 0.0:
            raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
        w = world.W
        self._waiters.append(w.current)
        try:
            ok = w.block(self._timeout, 'sock-' + why)
        finally:
            if w.current in self._waiters:
                self._waiters.remove(w.current)
        if not ok and self._timeout is not None:
            raise TimeoutError('timed out')

    # ---------------------------------------------------------- stream
    def connect(self, addr):
        self._chk()
        w = world.W
        net = w.net
        if not w.kernel:
            w.yield_point('connect')
        if self._typ == _s.SOCK_DGRAM:
            if self._fam == _s.AF_UNIX and net.dgrams.get(self._key(addr)) is None:
                raise oserr(errno.ENOENT if addr not in net.paths else errno.ECONNREFUSED)
            self._raddr = addr
            if self._state == 'new':
                self._state = 'bound'
                if self._fam != _s.AF_UNIX:
                    net.next_port += 1
                    self._laddr = ('10.0.0.1', net.next_port)
                    net.dgrams[self._key(self._laddr)] = self
            return
        if self._state == 'connected':
            raise oserr(errno.EISCONN)
        unix = self._fam == _s.AF_UNIX
        self._state = 'connecting'
        self._raddr = addr
        if not unix and self._laddr[1] == 0:
            net.next_port += 1
            self._laddr = ('10.0.0.1', net.next_port)
        stream = f'conn:{self._fd}'

        def do():
            if self._fd == -1 or self._state != 'connecting':
                return
            l = net.listeners.get(self._key(addr))
            refuse = False
            if net.refuse > 0:
                net.refuse -= 1
                refuse = True
                w.fault('conn-refused')
            if net.on_connect is not None and net.on_connect(self, addr):
                refuse = True
            if refuse or l is None or l._fd == -1 or l._state != 'listen':
                self._err = errno.ECONNREFUSED
                self._state = 'failed'
            else:
                srv = SimSocket(self._fam, self._typ, self._prt)
                srv._proc = l._proc
                srv._laddr = l._laddr
                srv._raddr = self._laddr
                srv._peer, self._peer = self, srv
                srv._state = self._state = 'connected'
                srv._local = self._local = unix
                l._backlog.append(srv)
                net.notify(l)
            net.notify(self)

        if unix:
            do()
            if self._err:
                e, self._err = self._err, 0
                self._state = 'new'
                raise oserr(e)
            return
        net.deliver_at(w.now + int(net.delay(stream, False) * 1e9) + 1000, do)
        if self._timeout == 0.0:
            raise BlockingIOError(errno.EINPROGRESS, 'Operation now in progress')
        while self._state == 'connecting':
            self._wait('connect')
        if self._err:
            e, self._err = self._err, 0
            raise oserr(e)

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno
        return 0

    def _room(self):
        p = self._peer
        used = self._inflight + (len(p._rx) if p is not None else 0)
        return world.W.net.window - used

    def _send_check(self):
        self._chk()
        if self._err:
            e, self._err = self._err, 0
            raise oserr(e)
        if self._wshut or self._state in ('reset',):
            raise oserr(errno.EPIPE)
        if self._state != 'connected':
            raise oserr(errno.ENOTCONN if self._state != 'closed' else errno.EPIPE)

    def send(self, data, flags=0):
        w = world.W
        if not w.kernel:
            w.yield_point('send')
        if self._typ == _s.SOCK_DGRAM:
            return self.sendto(data, self._raddr)
        data = bytes(data)
        self._send_check()
        if not data:
            return 0
        total = 0
        while True:
            room = self._room()
            if room > 0:
                n = min(room, len(data))
                if n > 1 and self._timeout == 0.0 and w.net.p_short and not self._is_self_pipe():
                    if w.choose(f'short:{self._fd}', 2, w.net.p_short):
                        n = max(1, n // 2)
                        w.fault('short-write')
                self._push(data[:n])
                total += n
                data = data[n:]
                if self._timeout == 0.0 or not data:
                    return total
                # a blocking send() interrupted by a handled signal after some
                # bytes were queued returns the partial count
            elif self._timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
            if self._state != 'connected':
                self._send_check()
            self._waiters.append(w.current)
            me = w.current
            nsig = me.nsig
            try:
                w.block(self._timeout, 'sock-send')
            finally:
                if me in self._waiters:
                    self._waiters.remove(me)
            if total and me.nsig != nsig:       # interrupted by a handled signal
                w.fault('short-write')
                return total
            self._send_check()

    def _is_self_pipe(self):
        return self._name == 'selfpipe'

    def _push(self, data):
        w = world.W
        net = w.net
        stream = f'seg:{self._fd}'
        if net.on_push is not None and not self._local:
            data = net.on_push(self, bytes(data))
        parts = [data]
        if len(data) > 1 and net.p_chunk and not self._local:
            c = w.choose(f'chunk:{self._fd}', 4, net.p_chunk)
            if c:
                w.fault('net-chunk')
                if c == 1:
                    parts = [data[:1], data[1:]]
                elif c == 2:
                    k = len(data) // 2
                    parts = [data[:k], data[k:]]
                else:
                    k = max(1, len(data) // 5)
                    parts = [data[i:i + k] for i in range(0, len(data), k)]
        for part in parts:
            self._inflight += len(part)
            when = max(self._last, w.now + int(net.delay(stream, self._local) * 1e9))
            if not self._local and parts is not None and len(parts) > 1:
                when += 50000
            self._last = when
            self._schedule(when, lambda part=part: self._arrive(part))

    def _schedule(self, when, fn):
        w = world.W
        if self._local and when <= w.now:
            w.kernel += 1
            try:
                fn()
            finally:
                w.kernel -= 1
        else:
            w.net.deliver_at(when, fn)

    def _arrive(self, part):
        net = world.W.net
        self._inflight -= len(part)
        p = self._peer
        if p is None or p._state in ('closed', 'reset') or p._fd == -1:
            if self._state == 'connected' and not self._local:
                # data to a closed socket: the peer's kernel answers RST
                def rst():
                    self._reset(errno.ECONNRESET)
                net.deliver_at(world.W.now + int(net.lat * 1e9), rst)
            elif self._state == 'connected':
                self._reset(errno.EPIPE)
            return
        p._rx += part
        net.notify(p)

    def _reset(self, err):
        if self._state in ('closed', 'reset'):
            return
        self._state = 'reset'
        self._err = err
        self._eof = True
        world.W.net.notify(self)

    def sendall(self, data, flags=0):
        data = bytes(data)
        while data:
            n = self.send(data)
            data = data[n:]

    def sendmsg(self, buffers, *a):
        return self.send(b''.join(bytes(b) for b in buffers))

    def recv(self, n, flags=0):
        w = world.W
        if not w.kernel:
            w.yield_point('recv')
        self._chk()
        if self._typ == _s.SOCK_DGRAM:
            return self.recvfrom(n)[0]
        while True:
            if self._rx:
                out = bytes(self._rx[:n])
                del self._rx[:n]
                self._readcount += len(out)
                p = self._peer
                if p is not None and p._fd != -1:
                    w.net.notify(p)
                return out
            if self._err:
                e, self._err = self._err, 0
                raise oserr(e)
            if self._eof:
                return b''
            if self._state == 'closed':
                raise oserr(errno.EBADF)
            if self._state not in ('connected',):
                raise oserr(errno.ENOTCONN)
            self._wait('recv')

    def recv_into(self, buf, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buf))
        buf[:len(data)] = data
        return len(data)

    def shutdown(self, how):
        self._chk()
        if self._state not in ('connected',):
            raise oserr(errno.ENOTCONN)
        if how in (_s.SHUT_WR, _s.SHUT_RDWR):
            self._wshut = True
            self._fin()
        if how in (_s.SHUT_RD, _s.SHUT_RDWR):
            self._eof = True

    def _fin(self):
        if self._finsent or self._peer is None:
            return
        self._finsent = True
        w = world.W
        p = self._peer
        when = max(self._last, w.now + int(w.net.delay(f'fin:{self._fd}', self._local) * 1e9))
        self._last = when

        def fin():
            if p._fd != -1:
                p._eof = True
                w.net.notify(p)
        self._schedule(when, fin)

    def close(self):
        if self._fd == -1:
            return
        w = world.W
        net = w.net
        fd = self._fd
        st = self._state
        if self._backlog is not None:
            for c in self._backlog:
                c._abort()
            self._backlog = None
        if self._state in ('connected',):
            if self._rx:
                self._send_rst()
            else:
                self._fin()
        self._state = 'closed'
        self._fd = -1
        net.fds.pop(fd, None)
        key = self._key(self._laddr) if self._laddr else None
        if net.listeners.get(key) is self:
            del net.listeners[key]
        if net.dgrams.get(key) is self:
            del net.dgrams[key]
        for s in net.selectors:
            s._fd_closed(fd)
        for t in self._waiters:
            w.wake(t)
        self._waiters.clear()
        if w.close_hook is not None:
            w.close_hook(fd, self)

    def detach(self):
        fd = self._fd
        self._fd = -1
        return fd

    def _send_rst(self):
        p = self._peer
        w = world.W
        if p is not None:
            self._schedule(w.now + int(w.net.lat * 1e9) * (not self._local), lambda: p._reset(errno.ECONNRESET))

    def _abort(self):
        """Fault: RST both ways (cable pulled / peer crashed)."""
        self._send_rst()
        if self._state == 'connected':
            self._state = 'closed'
            fd, self._fd = self._fd, -1
            world.W.net.fds.pop(fd, None)

    # ---------------------------------------------------------- datagrams
    def sendto(self, data, *args):
        self._chk()
        addr = args[-1]
        w = world.W
        net = w.net
        if not w.kernel:
            w.yield_point('sendto')
        if addr is None:
            raise oserr(errno.EDESTADDRREQ)
        data = bytes(data)
        if net.dgram_fail is not None:
            e = net.dgram_fail(self, addr)
            if e:
                raise oserr(e)
        unix = self._fam == _s.AF_UNIX
        tgt = net.dgrams.get(self._key(addr))
        if unix:
            if tgt is None or tgt._fd == -1:
                raise oserr(errno.ECONNREFUSED)
            while net.dgram_qlen is not None and len(tgt._dq) >= net.dgram_qlen and tgt._fd != -1:
                w.fault('dgram-queue-full')
                if self._timeout == 0.0:
                    raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
                self._wait('sendto')
            tgt._dq.append((data, self._laddr))
            net.notify(tgt)
            return len(data)
        if self._laddr[1] == 0:
            net.next_port += 1
            self._laddr = ('10.0.0.1', net.next_port)
            net.dgrams[self._key(self._laddr)] = self
        src = self._laddr
        stream = f'dg:{self._fd}'
        n = 1
        if net.p_drop and w.choose('drop', 2, net.p_drop):
            w.fault('dgram-drop')
            n = 0
        elif net.p_dup and w.choose('dup', 2, net.p_dup):
            w.fault('dgram-dup')
            n = 2
        key = self._key(addr)
        if net.on_dgram is not None:
            net.on_dgram(src, addr, data, n)
        for _ in range(n):
            def arrive():
                t = net.dgrams.get(key)
                if t is not None and t._fd != -1:
                    t._dq.append((data, src))
                    net.notify(t)
            net.deliver_at(w.now + int(net.delay(stream, False) * 1e9) + 1, arrive)
        return len(data)

    def recvfrom(self, n, flags=0):
        self._chk()
        while not self._dq:
            if self._state == 'closed':
                raise oserr(errno.EBADF)
            self._wait('recvfrom')
        data, addr = self._dq.pop(0)
        if self._fam == _s.AF_UNIX:
            net = world.W.net
            for s in list(net.fds.values()):
                if s._raddr is not None and s._raddr == self._laddr:
                    net.notify(s)
        return data[:n], addr

    # ---------------------------------------------------------- readiness
    def _readable(self):
        if self._typ == _s.SOCK_DGRAM:
            return bool(self._dq)
        if self._backlog is not None:
            return bool(self._backlog)
        return bool(self._rx or self._eof or self._err)

    def _writable(self):
        if self._typ == _s.SOCK_DGRAM:
            net = world.W.net
            t = net.dgrams.get(self._key(self._raddr)) if net.dgram_qlen is not None and self._raddr else None
            return t is None or t._fd == -1 or len(t._dq) < net.dgram_qlen
        if self._state == 'connecting':
            return False
        if self._state == 'connected':
            return self._stall is False and self._room() > 0
        return self._state in ('failed', 'reset', 'closed')


SimSocket.__name__ = SimSocket.__qualname__ = 'socket'


class SimSelector(selectors.BaseSelector):
    def __init__(self):
        self._map = {}
        self._thread = None
        self._dead = set()
        w = world.W
        if w is None:
            raise RuntimeError('selector created outside a simulated run')
        w.net.selectors.append(self)
        self.iterations = 0
        self.loop = None

    def _fd_closed(self, fd):
        # epoll drops closed descriptors silently; asyncio unregisters first
        if fd in self._map:
            self._map.pop(fd)

    @staticmethod
    def _fdof(fileobj):
        return fileobj if isinstance(fileobj, int) else fileobj.fileno()

    def register(self, fileobj, events, data=None):
        fd = self._fdof(fileobj)
        if fd == -1:
            raise ValueError('Invalid file descriptor: -1')
        if fd in self._map:
            raise KeyError(fd)
        k = selectors.SelectorKey(fileobj, fd, events, data)
        self._map[fd] = k
        return k

    def unregister(self, fileobj):
        fd = self._fdof(fileobj)
        return self._map.pop(fd)

    def modify(self, fileobj, events, data=None):
        fd = self._fdof(fileobj)
        if fd not in self._map:
            raise KeyError(fd)
        k = selectors.SelectorKey(fileobj, fd, events, data)
        self._map[fd] = k
        return k

    def get_key(self, fileobj):
        fd = self._fdof(fileobj)
        return self._map[fd]

    def get_map(self):
        return self._map

    def close(self):
        self._map.clear()
        w = world.W
        if w is not None and self in w.net.selectors:
            w.net.selectors.remove(self)

    def _ready(self):
        out = []
        fds = world.W.net.fds
        for fd, k in self._map.items():
            s = fds.get(fd)
            if s is None:
                continue
            ev = 0
            if k.events & 1 and s._readable():
                ev |= 1
            if k.events & 2 and s._writable():
                ev |= 2
            if ev:
                out.append((k, ev))
        return out

    def select(self, timeout=None):
        w = world.W
        self.iterations += 1
        w.on_iteration(self)
        w.yield_point('select')
        r = self._ready()
        if not r and (timeout is None or timeout > 0):
            me = self._thread = w.current
            end = None if timeout is None else w.now + int(timeout * 1e9)
            try:
                while True:
                    n = me.nsig
                    w.block(timeout, 'select')
                    r = self._ready()
                    if r or me.nsig == n or end is not None and w.now >= end:
                        break
                    # interrupted by a handled signal: the call goes on (PEP 475)
                    timeout = None if end is None else (end - w.now) / 1e9
            finally:
                self._thread = None
        if len(r) > 1 and w.net.p_perm:
            c = w.choose('ready', len(r), w.net.p_perm)
            if c:
                r = r[c:] + r[:c]
                w.fault('ready-permute')
        return r


def install(socket):
    import tempfile

    socket.socket = SimSocket
    socket.SocketType = SimSocket

    def socketpair(family=None, type=socket.SOCK_STREAM, proto=0):
        a = SimSocket(socket.AF_UNIX, type, proto)
        b = SimSocket(socket.AF_UNIX, type, proto)
        a._peer, b._peer = b, a
        a._state = b._state = 'connected'
        a._local = b._local = True
        a._name = b._name = 'selfpipe'
        return a, b

    socket.socketpair = socketpair

    def getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
        fam = socket.AF_INET6 if host and ':' in str(host) else socket.AF_INET
        if host in (None, ''):
            host = '0.0.0.0'
        if host == 'localhost':
            host = '127.0.0.1'
        w = world.W
        if w is not None and w.active and not w.kernel:
            w.yield_point('getaddrinfo')
        if w is not None and w.net is not None:
            host = w.net.hosts.get(host, host)
        return [(fam, type or socket.SOCK_STREAM, proto, '', (host, int(port or 0)))]

    socket.getaddrinfo = getaddrinfo
    socket.gethostname = lambda: 'sim-host'
    socket.getfqdn = lambda *a: 'sim-host'
    tempfile._RandomNameSequence.rng = property(
        lambda self: world.W.entropy if world.W is not None else __import__('random'))
    _chmod, _unlink, _stat, _exists, _remove = os.chmod, os.unlink, os.stat, os.path.exists, os.remove

    def simpath(p):
        w = world.W
        return w is not None and w.net is not None and isinstance(p, str) and p in w.net.paths

    def chmod(path, mode, *a, **k):
        if simpath(path):
            return None
        return _chmod(path, mode, *a, **k)

    def unlink(path, *a, **k):
        if simpath(path):
            del world.W.net.paths[path]
            return None
        return _unlink(path, *a, **k)

    def exists(path):
        return True if simpath(path) else _exists(path)

    os.chmod, os.unlink, os.remove, os.path.exists = chmod, unlink, unlink, exists


world.World.sock_hook = None
world.World.close_hook = None
