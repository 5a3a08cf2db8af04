"""The network seams.

* documents: urllib is real down to the socket, which is ours;
* requests: the Session, request preparation and response machinery are real,
  HTTPAdapter.send is ours and hands back a real http.client response parsed
  from a byte stream that we control;
* tornado: AsyncHTTPClient is real down to fetch_impl, on an asyncio loop
  whose clock is the simulator's;
* flask: the werkzeug test client is real, the WSGI application behind it is
  ours;
* any attempt to reach a real socket is refused and recorded.
"""
import asyncio
import errno
import http.client
import io
import os
import socket
import urllib.parse
import urllib.request

from . import kernel
from .disk import SimRaw
from .world import head, chunked, _cut

for _k in list(os.environ):
    if _k.lower().endswith('_proxy'):
        del os.environ[_k]
os.environ['NETRC'] = '/nonexistent/netrc'
os.environ['no_proxy'] = '*'

_real_connect = socket.socket.connect


def _world():
    return kernel.S.sim.world


class FakeSocket(object):
    """the client end of a connection to a simulated server.

    answer(sent bytes) -> (reply bytes, exception factory or None)"""

    def __init__(self, world, label, answer, sizes=None):
        self.world = world
        self.name = 'socket ' + label
        self._answer = answer
        self._sent = []
        self._closed = False
        self._raws = []
        self._sizes = sizes
        self.tid = world.sim.current.tid if world.sim.current else -1
        world.handles.append(self)

    def sendall(self, data, *a):
        if self._closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        self._sent.append(bytes(data))

    send = sendall

    def makefile(self, mode='r', buffering=None, **k):
        data, err = self._answer(b''.join(self._sent))
        raw = SimRaw(self.name, data, self._sizes, (len(data), err) if err else None)
        self._raws.append(raw)
        return io.BufferedReader(raw)

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def shutdown(self, how):
        pass

    def close(self):
        self._closed = True

    @property
    def closed(self):
        if self._raws:
            # the file made from the socket keeps the connection open; http
            # libraries close it when they have read the reply to its end
            return self._closed and all(r.closed for r in self._raws)
        return self._closed


# --- documents over urllib ---------------------------------------------------------

class SpecConnection(http.client.HTTPConnection):
    def connect(self):
        w = _world()
        kernel.y(5)
        fault = w.http_connect(self.host + (':%d' % self.port if self.port != 80 else ''))

        def answer(sent):
            line = sent.split(b'\r\n', 1)[0].decode('latin-1').split(' ')
            w.sim.sleep(0)
            return w.http_reply(line[0], line[1], fault)
        self.sock = FakeSocket(w, 'http://' + self.host, answer, w._sizes())


class SpecHandler(urllib.request.HTTPHandler):
    def http_open(self, req):
        if kernel.S.sim is None:
            raise OSError('no network outside the simulator')
        return self.do_open(SpecConnection, req)

    def https_open(self, req):
        return self.http_open(req)


class SpecHTTPS(urllib.request.HTTPSHandler):
    def https_open(self, req):
        if kernel.S.sim is None:
            raise OSError('no network outside the simulator')
        return self.do_open(SpecConnection, req)


def no_connect(self, addr):
    sim = kernel.S.sim
    if sim is None:
        return _real_connect(self, addr)
    sim.log('escape', repr(addr))
    _world().escapes.append(repr(addr))
    raise ConnectionRefusedError(errno.ECONNREFUSED, 'real network is out of bounds')


def install():
    socket.socket.connect = no_connect
    socket.socket.connect_ex = lambda self, addr: errno.ECONNREFUSED
    h = [SpecHandler]
    try:
        h.append(SpecHTTPS)
    except Exception:
        pass
    urllib.request.install_opener(urllib.request.build_opener(*h))


# --- calls ------------------------------------------------------------------------------

class Wire(object):
    """one request as it went on the wire"""

    def __init__(self, client, method, url, headers, body):
        self.client = client
        self.method = method
        self.url = url
        self.headers = [(str(k), v if isinstance(v, str) else v.decode('latin-1')) for k, v in headers]
        self.body = body
        self.task = None
        self.seq = 0

    def header(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]


class Reply(object):
    """what the server answers.

    fault: None or [kind, arg]:
      before the server sees the request: refuse, connect_timeout
      after it has:  reset_before, read_timeout, reset_mid, truncate,
                     truncate_chunked, bad_chunk"""

    BEFORE = ('refuse', 'connect_timeout')
    AFTER = ('reset_before', 'read_timeout', 'reset_mid', 'truncate', 'truncate_chunked', 'bad_chunk', 'eof_before')
    KINDS = BEFORE + AFTER

    def __init__(self, status=200, headers=(), body=b'', delay=0.0, fault=None, framing='length', chunk=700, sizes=None, predelay=0.0):
        self.status = status
        self.headers = list(headers)
        self.body = body
        self.delay = delay
        self.predelay = predelay
        self.fault = fault
        self.framing = framing
        self.chunk = chunk
        self.sizes = sizes

    def stream(self, close_ok=True):
        """(bytes on the wire, error at its end)"""
        hd = list(self.headers)
        f = self.fault
        k = f[0] if f else None
        length = [('Content-Length', str(len(self.body)))]
        if k == 'eof_before':
            return b'', None
        if k == 'reset_before':
            return b'', lambda: ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        if k == 'read_timeout':
            return b'', lambda: socket.timeout('timed out')
        if k == 'reset_mid':
            full = head(self.status, 'S', hd + length)
            return full + self.body[:_cut(self.body, f[1])], lambda: ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        if k == 'truncate':
            return head(self.status, 'S', hd + length) + self.body[:_cut(self.body, f[1])], None
        if k in ('truncate_chunked', 'bad_chunk'):
            c = chunked(self.body, max(1, self.chunk))
            h = head(self.status, 'S', hd + [('Transfer-Encoding', 'chunked')])
            if k == 'bad_chunk':
                i = c.index(b'\r\n')
                return h + b'zz' + c[i:], None
            return h + c[:max(0, min(len(c) - 6, _cut(c, f[1])))], None
        if self.framing == 'chunked':
            return head(self.status, 'S', hd + [('Transfer-Encoding', 'chunked')]) + chunked(self.body, max(1, self.chunk)), None
        if self.framing == 'close':
            return head(self.status, 'S', hd) + self.body, None
        return head(self.status, 'S', hd + length) + self.body, None


class CallServer(object):
    """receives every request of a run; handler(wire) -> Reply"""

    def __init__(self, sim, handler):
        self.sim = sim
        sim.server = self
        self.handler = handler
        self.wires = []
        self.attempts = 0

    def plan(self, wire):
        """the reply to a request that is on its way"""
        self.attempts += 1
        r = self.handler(wire)
        if r.fault:
            self.sim.log('call-fault', wire.method, wire.url, r.fault[0])
            self.sim.count('fault:' + r.fault[0])
        return r

    def arrive(self, wire):
        wire.task = self.sim.current.tid if self.sim.current else -1
        self.sim.log('wire', wire.method, wire.url, _digestable(wire))
        wire.seq = self.sim.seq
        self.wires.append(wire)


def _digestable(w):
    import hashlib
    b = w.body if isinstance(w.body, bytes) else repr(w.body).encode('utf-8', 'backslashreplace')
    return hashlib.sha256(repr(sorted(w.headers)).encode('utf-8', 'backslashreplace') + b).hexdigest()[:12]


def _server():
    return kernel.S.sim.server


# requests

def adapter_send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    import requests
    from requests import exceptions as rex
    import urllib3
    sim = kernel.S.sim
    if sim is None:
        raise rex.ConnectionError('no network outside the simulator')
    kernel.y(6)
    body = request.body
    if hasattr(body, 'read'):
        body = body.read()
    elif body is not None and not isinstance(body, (bytes, str)):
        body = b''.join(x if isinstance(x, bytes) else x.encode('utf-8') for x in body)
    if isinstance(body, str):
        body = body.encode('utf-8')
    wire = Wire('requests', request.method, request.url, list(request.headers.items()), body)
    srv = _server()
    rp = srv.plan(wire)
    if rp.predelay:
        sim.sleep(rp.predelay)
    k = rp.fault[0] if rp.fault else None
    if k == 'refuse':
        raise rex.ConnectionError('injected: connection refused', request=request)
    if k == 'connect_timeout':
        sim.sleep(30)
        raise rex.ConnectTimeout('injected: connect timeout', request=request)
    srv.arrive(wire)
    if rp.delay:
        sim.sleep(rp.delay)
    if k == 'read_timeout' and (rp.fault[1] % 2 == 0):
        sim.sleep(60)
        raise rex.ReadTimeout('injected: read timeout', request=request)
    data, err = rp.stream()
    if k == 'read_timeout':
        full = head(rp.status, 'S', rp.headers + [('Content-Length', str(len(rp.body)))])
        data = full + rp.body[:_cut(rp.body, rp.fault[1])]
    sock = FakeSocket(sim.world, 'call ' + request.url, lambda sent: (data, err), rp.sizes)
    hr = http.client.HTTPResponse(sock, method=request.method)
    try:
        hr.begin()
    except (http.client.HTTPException, OSError) as e:
        hr.close()
        sock.close()
        raise rex.ConnectionError('injected: %r' % (e,), request=request)
    sock.close()
    ur = urllib3.response.HTTPResponse(
        body=hr, headers=urllib3._collections.HTTPHeaderDict(hr.msg.items()), status=hr.status, version=hr.version,
        reason=hr.reason, preload_content=False, decode_content=False, original_response=hr,
        request_method=request.method, enforce_content_length=True)
    return self.build_response(request, ur)


# tornado

def make_tornado():
    from tornado.httpclient import AsyncHTTPClient, HTTPResponse, HTTPClientError
    from tornado.httputil import HTTPHeaders
    from tornado.simple_httpclient import HTTPTimeoutError, HTTPStreamClosedError

    class SimAsyncHTTPClient(AsyncHTTPClient):
        def initialize(self, defaults=None, **kw):
            AsyncHTTPClient.initialize(self, defaults=defaults)

        def fetch_impl(self, request, callback):
            sim = kernel.S.sim
            loop = asyncio.get_event_loop()
            body = request.body
            if request.body_producer is not None:
                raise kernel.HarnessError('body_producer is not simulated')
            wire = Wire('tornado', request.method, request.url, list(request.headers.get_all()), body)
            srv = _server()
            if not request.allow_nonstandard_methods:
                # what the real client insists on
                expected = request.method in ('POST', 'PATCH', 'PUT')
                if expected != (body is not None):
                    callback(HTTPResponse(request, 599, error=ValueError(
                        'Body must %sbe None for method %s (unless allow_nonstandard_methods is true)' % ('not ' if expected else '', request.method))))
                    return
            rp = srv.plan(wire)
            k = rp.fault[0] if rp.fault else None
            delay = rp.predelay + rp.delay

            def fail(e):
                callback(HTTPResponse(request, 599, error=e))

            if k == 'refuse':
                loop.call_later(delay, fail, ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused'))
                return
            if k == 'connect_timeout':
                loop.call_later(20, fail, HTTPTimeoutError('Timeout while connecting'))
                return
            srv.arrive(wire)
            if k == 'read_timeout':
                loop.call_later(20, fail, HTTPTimeoutError('Timeout during request'))
                return
            if k is not None:
                loop.call_later(delay, fail, HTTPStreamClosedError('Stream closed'))
                return

            def ok():
                h = HTTPHeaders()
                for hk, hv in rp.headers:
                    h.add(hk, hv)
                h.add('Content-Length', str(len(rp.body)))
                sim.log('reply', wire.url, rp.status)
                callback(HTTPResponse(request, rp.status, headers=h, buffer=io.BytesIO(rp.body), reason='S'))
            loop.call_later(delay, ok)

    return SimAsyncHTTPClient


class VirtualSelector(object):
    """select() on virtual time"""

    def __init__(self, real, sim):
        self._r = real
        self._sim = sim

    def select(self, timeout=None):
        got = self._r.select(0)
        if got:
            return got
        if timeout is None:
            raise kernel.SimDeadlock('event loop waits for nothing')
        if timeout > 0:
            # the clock must really pass the timer; other threads may run
            # in the meantime
            self._sim.sleep(timeout + 1e-9)
        return self._r.select(0)

    def __getattr__(self, n):
        return getattr(self._r, n)


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self, sim):
        asyncio.SelectorEventLoop.__init__(self)
        self._sim = sim
        self._selector = VirtualSelector(self._selector, sim)

    def time(self):
        return self._sim.now


def run_coroutines(sim, make):
    """run `make()` (a coroutine function) to completion on virtual time"""
    import gc
    loop = VirtualLoop(sim)
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(make())
    finally:
        try:
            pend = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in pend:
                t.cancel()
            if pend:
                loop.run_until_complete(asyncio.gather(*pend, return_exceptions=True))
        except BaseException:       # noqa: B902
            pass
        asyncio.set_event_loop(None)
        loop.close()


# flask / werkzeug

def wsgi_app(environ, start_response):
    sim = kernel.S.sim
    kernel.y(7)
    hd = []
    for k, v in environ.items():
        if k.startswith('HTTP_'):
            hd.append((k[5:].replace('_', '-').title(), v))
    if environ.get('CONTENT_TYPE'):
        hd.append(('Content-Type', environ['CONTENT_TYPE']))
    n = environ.get('CONTENT_LENGTH')
    body = environ['wsgi.input'].read(int(n)) if n not in (None, '', '0') else b''
    if n not in (None, ''):
        hd.append(('Content-Length', n))
    # PATH_INFO is already unquoted: quote it again so that it can be compared
    path = urllib.parse.quote(environ.get('PATH_INFO', '').encode('latin-1'))
    qs = environ.get('QUERY_STRING', '')
    url = '%s://%s%s' % (environ['wsgi.url_scheme'], environ.get('HTTP_HOST') or environ['SERVER_NAME'], path)
    if qs:
        url += '?' + qs
    wire = Wire('flask', environ['REQUEST_METHOD'], url, hd, body)
    srv = _server()
    rp = srv.plan(wire)
    if rp.predelay:
        sim.sleep(rp.predelay)
    k = rp.fault[0] if rp.fault else None
    if k in Reply.BEFORE:
        raise ConnectionError('injected: ' + k)
    srv.arrive(wire)
    if rp.delay:
        sim.sleep(rp.delay)
    if k is not None and k not in ('reset_mid', 'truncate', 'truncate_chunked'):
        raise ConnectionError('injected: ' + k)
    hdrs = list(rp.headers) + [('Content-Length', str(len(rp.body)))]
    start_response('%d S' % rp.status, hdrs)

    def it():
        step = max(1, rp.chunk)
        stop = _cut(rp.body, rp.fault[1]) if k else len(rp.body)
        for i in range(0, stop, step):
            yield rp.body[i:min(stop, i + step)]
        if k:
            raise ConnectionError('injected: ' + k)
    return it()


def install_late():
    """after pyswagger has been imported (it imports the http libraries)"""
    import requests.adapters
    requests.adapters.HTTPAdapter.send = adapter_send
    from tornado.httpclient import AsyncHTTPClient
    AsyncHTTPClient.configure(make_tornado())
    import socket as s
    s.socket.connect = no_connect
