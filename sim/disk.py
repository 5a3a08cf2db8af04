"""An in-memory file system mounted at /simfs, seen through open(), io.open(),
os.stat() and friends.  Everything below that prefix is served from the
current world; every other path goes to the real thing.  Streams are real
io.TextIOWrapper / io.BufferedReader objects over a raw stream that the
simulator controls (short reads, errors at open and while reading), and every
handle is registered so that leaks show."""
import builtins
import errno
import io
import os
import stat

from . import kernel

PREFIX = '/simfs'

_stat, _lstat, _access, _listdir, _os_open = os.stat, os.lstat, os.access, os.listdir, os.open


def _mine(path):
    if kernel.S.sim is None or isinstance(path, int):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = p.decode('utf-8', 'surrogateescape')
    if p == PREFIX or p.startswith(PREFIX + '/'):
        # like the kernel does: resolve . and ..
        q = os.path.normpath(p)
        if p.endswith('/') and q != PREFIX:
            q += '/'
        return q
    return None


def _world():
    w = getattr(kernel.S.sim, 'world', None)
    if w is None:
        raise kernel.HarnessError('file access without a world')
    return w


class SimRaw(io.RawIOBase):
    """raw stream over bytes with controlled delivery"""

    def __init__(self, label, data, sizes=None, fail=None, on_close=None):
        io.RawIOBase.__init__(self)
        self.name = label
        self.mode = 'rb'
        self._data = data
        self._pos = 0
        self._sizes = list(sizes) if sizes else []
        self._i = 0
        self._fail = fail              # (offset, exception factory)
        self.eof_seen = False
        self.opened_at = kernel.S.sim.seq if kernel.S.sim else 0
        self.tid = kernel.S.sim.current.tid if kernel.S.sim and kernel.S.sim.current else -1

    def readable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def seek(self, off, whence=0):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        base = (0, self._pos, len(self._data))[whence]
        self._pos = max(0, base + off)
        return self._pos

    def tell(self):
        return self._pos

    def readinto(self, b):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        kernel.y(2)
        n = len(b)
        if self._sizes:
            n = min(n, max(1, self._sizes[self._i % len(self._sizes)]))
            self._i += 1
        if self._fail is not None:
            off, exc = self._fail
            if self._pos >= off:
                kernel.S.sim.log('read-fault', self.name, self._pos)
                raise exc()
            n = min(n, off - self._pos)
        chunk = self._data[self._pos:self._pos + n]
        b[:len(chunk)] = chunk
        self._pos += len(chunk)
        if not chunk:
            self.eof_seen = True
        return len(chunk)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = _mine(file)
    if p is None:
        return kernel.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    w = _world()
    if any(c in mode for c in 'wax+'):
        w.sim.log('open-write', p)
        w.writes.append(p)
        raise OSError(errno.EROFS, os.strerror(errno.EROFS), p)
    kernel.y(3)
    raw = w.open_file(p)               # may raise an injected or a real error
    w.handles.append(raw)
    if 'b' in mode:
        if buffering == 0:
            return raw
        return io.BufferedReader(raw, buffering if buffering > 1 else 8192)
    buf = io.BufferedReader(raw, 8192)
    if encoding is None:
        encoding = w.locale
    return io.TextIOWrapper(buf, encoding, errors, newline)


def _fake_stat(p):
    w = _world()
    if p.rstrip('/') in w.dirs():
        return os.stat_result((stat.S_IFDIR | 0o755, 1, 1, 1, 0, 0, 0, 0, 0, 0))
    if not p.endswith('/') and w.has_file(p):
        return os.stat_result((stat.S_IFREG | 0o644, 2, 1, 1, 0, 0, 1, 0, 0, 0))
    raise OSError(errno.ENOENT, os.strerror(errno.ENOENT), p)


def sim_stat(path, *a, **k):
    p = _mine(path)
    if p is None:
        return _stat(path, *a, **k)
    return _fake_stat(p)


def sim_lstat(path, *a, **k):
    p = _mine(path)
    if p is None:
        return _lstat(path, *a, **k)
    return _fake_stat(p)


def sim_access(path, *a, **k):
    p = _mine(path)
    if p is None:
        return _access(path, *a, **k)
    try:
        _fake_stat(p)
        return True
    except OSError:
        return False


def sim_listdir(path='.', *a):
    p = _mine(path)
    if p is None:
        return _listdir(path, *a)
    p = p.rstrip('/') + '/'
    return sorted(set(f[len(p):].split('/')[0] for f in _world().file_names() if f.startswith(p)))


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.stat = sim_stat
    os.lstat = sim_lstat
    os.access = sim_access
    os.listdir = sim_listdir
    try:
        import pathlib
        acc = getattr(pathlib, '_normal_accessor', None)
        if acc is not None:
            type(acc).stat = staticmethod(sim_stat)
            type(acc).lstat = staticmethod(sim_lstat)
            type(acc).open = staticmethod(sim_open)
    except Exception:
        pass
