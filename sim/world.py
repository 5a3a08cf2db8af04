"""The outside of one run: document servers, files, faults, handles."""
import errno
import io
import os
import socket

from . import kernel
from .disk import SimRaw

HOST = 'specs.sim'

# fault kinds of a document delivery
NET_FAULTS = ('refuse', 'dns', 'connect_timeout', 'reset_before', 'reset_mid', 'truncate', 'truncate_chunked',
              'read_timeout', 'status', 'empty', 'badutf8', 'eof_before')
FILE_FAULTS = ('open_enoent', 'open_eio', 'open_emfile', 'open_eacces', 'read_eio', 'torn', 'empty', 'badutf8')
HOOK_FAULTS = ('hook_raise',)
GETTER_FAULTS = ('raise_ioerror', 'raise_value', 'none', 'torn', 'empty', 'badutf8')


def unmirror(p):
    """the same documents are also found below /mirrorN/"""
    i = p.find('/mirror')
    if i < 0:
        return p
    j = p.find('/', i + 1)
    return p[:i] + p[j:]


class Faults(object):
    """faults of a plan: {io event number: [kind, argument]}, or
    {'name@n': ...} for the n-th delivery of a document"""

    def __init__(self, sim, d):
        self.sim = sim
        self.plan = dict((int(k), v) for k, v in (d or {}).items() if '@' not in k)
        self.docs = dict((tuple(k.split('@')), v) for k, v in (d or {}).items() if '@' in k)
        self.seen = {}
        self.n = 0
        self.fired = []
        self.off = False

    def next(self, label, allowed):
        i = self.n
        self.n += 1
        f = None if self.off else self.plan.get(i)
        for k in self.docs:
            if os.path.splitext(label)[0].endswith(os.path.splitext(k[0])[0]):
                m = self.seen[k[0], label] = self.seen.get((k[0], label), -1) + 1
                if f is None and not self.off:
                    f = self.docs.get((k[0], str(m)))
                break
        if f is None:
            return None
        kind = f[0] if f[0] in allowed else allowed[sum(map(ord, f[0])) % len(allowed)]
        self.sim.log('fault', i, label, kind, f[1])
        self.sim.count('fault:' + kind)
        self.fired.append((i, label, kind, self.sim.current.tid if self.sim.current else -1))
        return [kind, f[1]]


class World(object):
    def __init__(self, sim, delivery=None, faults=None, locale='utf-8'):
        self.sim = sim
        sim.world = self
        self.files = {}            # path -> bytes or callable returning bytes
        self.servers = []            # as host or host:port, set by what is published
        self.urls = {}             # path on HOST -> bytes or callable
        self.mem = {}              # key for getters -> bytes/dict or callable
        self.handles = []          # every handle ever opened
        self.writes = []
        self.fetches = []          # (channel, label, ok)
        self.delivery = dict(delivery or {})
        self.faults = Faults(sim, faults)
        self.locale = locale
        self.broken = {}           # path -> fault, for files that fail whenever used
        self.escapes = []          # attempts to reach a real network
        self._d = 0

    # -- delivery parameters ----------------------------------------------------
    def _sizes(self):
        s = self.delivery.get('sizes')
        if not s:
            return None
        self._d += 1
        k = self._d % len(s)
        return s[k:] + s[:k]

    def _delay(self):
        d = self.delivery.get('delays')
        if not d:
            return 0.0
        self._d += 1
        return d[self._d % len(d)]

    # -- files -----------------------------------------------------------------------
    def file_names(self):
        return self.files.keys()

    def has_file(self, p):
        return unmirror(p) in self.files

    def dirs(self):
        out = set()
        for f in self.files:
            d = os.path.dirname(f)
            while d and d != '/':
                out.add(d)
                d = os.path.dirname(d)
        out.add('/simfs')
        return out

    def open_file(self, p):
        p = unmirror(p)
        src = self.files.get(p)
        if src is None:
            self.sim.log('open', p, 'missing')
            if p.rstrip('/') in self.dirs():
                raise OSError(errno.EISDIR, os.strerror(errno.EISDIR), p)
            raise OSError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        f = self.broken.get(p) or self.faults.next('file:' + p, FILE_FAULTS)
        if f and f[0].startswith('open_'):
            no = {'open_enoent': errno.ENOENT, 'open_eio': errno.EIO, 'open_emfile': errno.EMFILE, 'open_eacces': errno.EACCES}[f[0]]
            self.fetches.append(('file', p, False))
            raise OSError(no, os.strerror(no), p)
        d = self._delay()
        if d:
            self.sim.sleep(d)
        data = src(not f) if callable(src) else src
        fail = None
        ok = True
        if f:
            ok = False
            if f[0] == 'read_eio':
                fail = (_cut(data, f[1]), lambda: OSError(errno.EIO, os.strerror(errno.EIO), p))
            else:
                data = damage(data, f)
        self.fetches.append(('file', p, ok))
        self.sim.log('open', p, len(data))
        return SimRaw(p, data, self._sizes(), fail)

    # -- custom getters -----------------------------------------------------------------
    def get_mem(self, key):
        src = self.mem.get(key)
        if src is None:
            self.sim.log('get', key, 'missing')
            raise IOError('no such document: %s' % key)
        f = self.faults.next('get:' + key, GETTER_FAULTS)
        d = self._delay()
        if d:
            self.sim.sleep(d)
        kernel.y(4)
        data = src(not f) if callable(src) else src
        self.sim.log('get', key, bool(f))
        self.fetches.append(('get', key, not f))
        if f:
            if f[0] == 'raise_ioerror':
                raise IOError(errno.EIO, 'injected: ' + key)
            if f[0] == 'raise_value':
                raise ValueError('injected: ' + key)
            if f[0] == 'none':
                return None
            if not isinstance(data, bytes):
                raise IOError(errno.EIO, 'injected: ' + key)
            return damage(data, f)
        return data

    # -- http documents --------------------------------------------------------------------
    def http_connect(self, host):
        """called when a client connects; may raise"""
        f = self.faults.next('http:' + host, NET_FAULTS)
        if f and f[0] in ('refuse', 'dns', 'connect_timeout'):
            self.fetches.append(('http', host, False))
            if f[0] == 'refuse':
                raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
            if f[0] == 'dns':
                raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
            self.sim.sleep(30.0)
            raise socket.timeout('timed out')
        d = self._delay()
        if d:
            self.sim.sleep(d)
        if host not in self.servers:
            raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
        return f

    def http_reply(self, method, path, f):
        """the byte stream the document server answers with, and an error to
        raise at its end (or None)"""
        dv = self.delivery
        src = self.urls.get(unmirror(path.split('?')[0]))
        loc = dv.get('redirect') or 0
        if src is not None and loc and path.count('?hop=') == 0:
            n = loc
        elif '?hop=' in path:
            n = int(path.split('?hop=')[1])
        else:
            n = 0
        if src is None:
            self.sim.log('http', path, 404)
            return head(404, 'Not Found', [('Content-Length', '9')]) + b'not found', None
        if f is None and n > 0:
            self.sim.log('http', path, 'redirect')
            self.sim.count('redirects')
            nxt = path.split('?')[0] + ('?hop=%d' % (n - 1))
            code = (301, 302, 307)[n % 3]
            return head(code, 'Moved', [('Location', 'http://%s%s' % (self.servers[-1], nxt)), ('Content-Length', '0')]), None
        body = src(f is None) if callable(src) else src
        self.sim.log('http', path, len(body), bool(f))
        self.fetches.append(('http', path.split('?')[0], not f))
        hd = [('Content-Type', 'application/json')]
        if f is None:
            mode = dv.get('framing', 'length')
            if mode == 'chunked':
                return head(200, 'OK', hd + [('Transfer-Encoding', 'chunked')]) + chunked(body, dv.get('chunk', 700)), None
            if mode == 'close':
                return head(200, 'OK', hd) + body, None
            return head(200, 'OK', hd + [('Content-Length', str(len(body)))]) + body, None
        k, a = f
        if k == 'eof_before':
            return b'', None
        if k == 'reset_before':
            return b'', lambda: ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        full = head(200, 'OK', hd + [('Content-Length', str(len(body)))])
        if k == 'reset_mid':
            return full + body[:_cut(body, a)], lambda: ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        if k == 'read_timeout':
            return full + body[:_cut(body, a)], lambda: socket.timeout('timed out')
        if k == 'truncate':
            return full + body[:_cut(body, a)], None
        if k == 'truncate_chunked':
            c = chunked(body, 64)
            return head(200, 'OK', hd + [('Transfer-Encoding', 'chunked')]) + c[:max(1, min(len(c) - 6, _cut(c, a)))], None
        if k == 'status':
            code = (404, 500, 503, 403, 410, 502)[a % 6]
            # an error reply may well carry a body that looks like a document
            if getattr(self, 'error_bodies', False):
                body = (body, b'{"error": "no such thing"}', b'<html>oops</html>', b'', b'{}')[a % 5]
            return head(code, 'Failed', hd + [('Content-Length', str(len(body)))]) + body, None
        body = damage(body, f)
        return head(200, 'OK', hd + [('Content-Length', str(len(body)))]) + body, None

    # -- leaks ----------------------------------------------------------------------------
    def leaks(self, since=0, tid=None):
        """what was opened (by one task) and is still open"""
        return [str(h.name) for h in self.handles[since:] if not h.closed and (tid is None or h.tid == tid)]


def _cut(data, a):
    """an offset strictly inside data"""
    return min(max(0, len(data) - 1), a % max(1, len(data)))


def damage(data, f):
    k, a = f
    if k == 'empty':
        return b''
    if k == 'torn':
        if data[:1] != b'{':
            # a torn yaml document may still be a document: nothing the reader
            # could notice, so it is not delivered torn but broken
            return b'\xff\xfe' + data
        return data[:max(1, _cut(data, a))]
    if k == 'badutf8':
        i = _cut(data, a)
        return data[:i] + b'\xff' + data[i + 1:]
    raise kernel.HarnessError('unknown damage ' + k)


def head(code, reason, headers):
    return ('HTTP/1.1 %d %s\r\n' % (code, reason) + ''.join('%s: %s\r\n' % h for h in headers) + '\r\n').encode('latin-1')


def chunked(body, size):
    out = []
    for i in range(0, len(body), max(1, size)):
        c = body[i:i + max(1, size)]
        out.append(b'%x\r\n' % len(c) + c + b'\r\n')
    out.append(b'0\r\n\r\n')
    return b''.join(out)
