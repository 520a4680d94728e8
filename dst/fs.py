"""Simulated files: paths below /sim/ live in memory.

open() returns CPython's own pure-Python buffered/text stack (_pyio) over a raw
file whose operations take simulated time, are scheduling points and can fail.
"""
import builtins
import errno
import io
import os
import _pyio

from . import world
from .world import SimLock

_real_open = builtins.open


class Inode:
    __slots__ = ('data', 'ops', 'opens', 'open_now')

    def __init__(self):
        self.data = bytearray()
        self.ops = 0            # raw operations performed on the file, all handles
        self.opens = 0
        self.open_now = 0


class FS:
    def __init__(self, w, cfg=None):
        self.w = w
        cfg = cfg or {}
        self.files = {}
        self.lat = cfg.get('lat', 0.0)          # max seconds per raw operation
        self.faults = {}                        # path -> {raw op index: errno or 'short'}
        self.on_raw = None                      # callback(path, op)

    def op(self, path, ino, name, quiet):
        """Account for one raw operation; returns 'short' or None, may raise OSError."""
        w = self.w
        k = ino.ops
        ino.ops += 1
        if not quiet:
            if self.on_raw is not None:
                self.on_raw(path, name)
            if not w.kernel:
                w.yield_point('fs')
                if self.lat:
                    c = w.choose('fs', 4, 0.5)
                    if c:
                        w.sleep(self.lat * (0, 0.1, 0.4, 1.0)[c])
        f = self.faults.get(path, {}).get(k)
        if f is None or name in ('close',):
            return None
        if not quiet:
            w.fault('disk-' + (f if isinstance(f, str) else errno.errorcode[f]))
        if f == 'short':
            return f
        raise OSError(f, os.strerror(f), path)


class SimRaw(_pyio.RawIOBase):
    def __init__(self, fs, path, mode, quiet=False):
        self._fs, self.name, self.mode, self._quiet = fs, path, mode, quiet
        self._done = True
        create = 'x' in mode or 'w' in mode or 'a' in mode
        ino = fs.files.get(path)
        tmp = ino or Inode()
        fs.op(path, tmp, 'open', quiet)
        ino = fs.files.get(path)
        if ino is not None and 'x' in mode:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        if ino is None:
            if not create:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            ino = fs.files[path] = tmp
        if 'w' in mode:
            ino.data.clear()
        self._ino = ino
        ino.opens += 1
        ino.open_now += 1
        self._pos = 0
        self._done = False
        plus = '+' in mode
        self._r = 'r' in mode or plus
        self._w = create or plus
        self._append = 'a' in mode
        if self._append:
            self._pos = len(ino.data)

    def _op(self, name):
        if self._done:
            raise ValueError('I/O operation on closed file')
        return self._fs.op(self.name, self._ino, name, self._quiet)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return 500

    def isatty(self):
        return False

    def _check(self, ok, what):
        if not ok:
            raise io.UnsupportedOperation(what)

    def readinto(self, b):
        self._check(self._r, 'File not open for reading')
        f = self._op('read')
        n = len(b)
        if f == 'short' and n > 1:
            n = max(1, min(n, len(self._ino.data) - self._pos) // 2)
        data = bytes(self._ino.data[self._pos:self._pos + n])
        b[:len(data)] = data
        self._pos += len(data)
        return len(data)

    def read(self, size=-1):
        self._check(self._r, 'File not open for reading')
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def readall(self):
        out = b''
        while True:
            c = self.read(8192)
            if not c:
                return out
            out += c

    def write(self, b):
        self._check(self._w, 'File not open for writing')
        b = bytes(b)
        f = self._op('write')
        if f == 'short' and len(b) > 1:
            b = b[:len(b) // 2]
        d = self._ino.data
        if self._append:
            self._pos = len(d)
        if self._pos > len(d):
            d.extend(bytes(self._pos - len(d)))
        d[self._pos:self._pos + len(b)] = b
        self._pos += len(b)
        return len(b)

    def seek(self, pos, whence=0):
        if self._done:
            raise ValueError('I/O operation on closed file')
        base = (0, self._pos, len(self._ino.data))[whence]
        if base + pos < 0:
            raise OSError(errno.EINVAL, 'Invalid argument')
        self._pos = base + pos
        return self._pos

    def tell(self):
        if self._done:
            raise ValueError('I/O operation on closed file')
        return self._pos

    def truncate(self, size=None):
        self._check(self._w, 'File not open for writing')
        if size is None:
            size = self._pos
        self._op('truncate')
        d = self._ino.data
        if size < len(d):
            del d[size:]
        else:
            d.extend(bytes(size - len(d)))
        return size

    def close(self):
        if not self._done:
            try:
                self._fs.op(self.name, self._ino, 'close', self._quiet)
            finally:
                self._done = True
                self._ino.open_now -= 1

    closed = property(lambda self: self._done)

    def __del__(self):
        pass


def sim_open(fs, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, quiet=False):
    modes = set(mode)
    if modes - set('axrwb+t') or len(mode) > len(modes):
        raise ValueError(f'invalid mode: {mode!r}')
    text, binary = 't' in modes, 'b' in modes
    kinds = modes & set('axrw')
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if len(kinds) != 1:
        raise ValueError('must have exactly one of create/read/write/append mode')
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding argument")
    rawmode = kinds.pop() + ('+' if '+' in modes else '')
    raw = SimRaw(fs, file, rawmode + 'b', quiet)
    if buffering == 0:
        if binary:
            return raw
        raise ValueError("can't have unbuffered text I/O")
    line = buffering == 1 and not binary
    size = buffering if buffering > 1 else fs.w.fs_buffer
    if '+' in modes:
        buf = _pyio.BufferedRandom(raw, size)
    elif raw.writable():
        buf = _pyio.BufferedWriter(raw, size)
    else:
        buf = _pyio.BufferedReader(raw, size)
    if binary:
        return buf
    t = _pyio.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line)
    t.mode = mode
    return t


def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(file, os.PathLike):
        file = os.fspath(file)
    w = world.W
    if w is not None and isinstance(file, str) and file.startswith('/sim/'):
        return sim_open(w.fs, file, mode, buffering, encoding, errors, newline, w.fs_quiet)
    return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)


class _IoShim:
    """io for the compression modules, without C objects that hold C locks."""
    BufferedReader = _pyio.BufferedReader
    BufferedWriter = _pyio.BufferedWriter
    TextIOWrapper = _pyio.TextIOWrapper

    def __getattr__(self, name):
        return getattr(io, name)


def install():
    import bz2
    import gzip
    import lzma
    _pyio.Lock = SimLock
    _pyio.IOBase.__del__ = lambda self: None
    builtins.open = _open
    io.open = _open
    bz2._builtin_open = _open
    for m in (bz2, gzip, lzma):
        m.io = _IoShim()


world.World.fs_buffer = 8192
world.World.fs_quiet = False
