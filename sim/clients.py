"""Programs of calls: what a user does with a loaded application, through
every client the library ships and through one written as the documentation
says.

A plan's part about calls is plain JSON:

  secs     [{security scheme name: credential}]      one Security each
  clients  [{'kind': requests|tornado|flask|custom, 'sec': index or None}]
  opts     [options dict]            objects that calls may share
  hdrs     [dict or list of pairs]   objects that calls may share
  calls    {rid number: call}
  lanes    [{'kind': 'thread'|'loop', 'calls': [rid number, ...]}]

call: {'op', 'args', 'client', 'opt': index|None, 'hdr': index|None,
       'replies': [one reply per attempt], 'consume', 'produce', 'scheme',
       'prebuilt': bool, 'start': delay in a loop lane, 'raw_only': bool}

Every call carries the text rid-<number>-z somewhere in its request; that is
how a request on the wire is matched to the call it belongs to.
"""
import asyncio
import io
import json
import re
import urllib.parse
from collections import OrderedDict

from . import kernel, model, net
from .disk import SimRaw
from .gen import chance, pick, sub, TEXTS, WORDS, gen_bad_header_text, gen_header_text, gen_prim_value
from .net import Reply, Wire

RID = re.compile(r'rid-(\d+)-z')


# --- objects the caller passes -----------------------------------------------------------

class ReadOnly(object):
    """a file-like object that can do nothing but read"""

    closed = False

    def __init__(self, data, sizes=None):
        self._data = data

    def read(self, n=-1):
        kernel.y(2)
        if n is None or n < 0:
            n = len(self._data)
        out, self._data = self._data[:n], self._data[n:]
        return out


class Files(object):
    """files and streams a caller hands over"""

    def __init__(self, sim):
        self.sim = sim
        self.world = sim.world
        self.streams = []
        self.boundaries = []
        self.interned = {}
        self.n = 0

    def content(self, f):
        data = f['data']
        if isinstance(data, list):              # ['echo', which]: repeats an earlier boundary
            b = self.boundaries
            old = b[-1 - data[1] % len(b)] if b else b'none'
            return (b'--' + old + b'\r\nContent-Disposition: form-data; name="f1"\r\n\r\nforged\r\n--' + old + b'--\r\n')
        return data.encode('latin-1')

    def make(self, f):
        data = self.content(f)
        out = OrderedDict() if f.get('ordered') else {}
        if f.get('ctype') or f.get('cte'):
            hd = {}
            if f.get('ctype'):
                hd['Content-Type'] = f['ctype']
            if f.get('cte'):
                hd['Content-Transfer-Encoding'] = f['cte']
            out['header'] = hd
        via = f.get('via', 'bytesio')
        name = f['filename']
        fail = None
        if f.get('fail') is not None:
            off = f['fail'] % (len(data) + 1)
            fail = (off, lambda: OSError(5, 'injected: read error'))
        if via == 'disk':
            self.world.files[name] = data
            out['filename'] = name
            if f.get('none', True):
                out['data'] = None
            return out, data
        if via == 'missing':
            out['filename'] = name
            return out, data
        if via == 'readonly':
            s = ReadOnly(data, f.get('sizes'))
        elif via == 'text':
            s = io.StringIO(data.decode('latin-1'), newline='')
        elif via in ('raw', 'buffered') or fail:
            s = SimRaw('upload stream', data, f.get('sizes'), fail)
            if via == 'buffered':
                s = io.BufferedReader(s, 64)
        else:
            s = io.BytesIO(data)
        if f.get('at') and via != 'readonly':
            # a stream the caller has already read something from
            k = f['at'] % (len(data) + 1)
            if not fail:
                s.seek(k)
                data = data[k:]
        self.streams.append(s)
        out['data'] = s
        if name is not None:
            out['filename'] = name
        if via == 'text':
            data = data.decode('latin-1').encode('utf-8')
        return out, data

    def shared(self, v, seen):
        """like build, but equal values are one object"""
        if not isinstance(v, (dict, list)):
            return v
        k = json.dumps(v, sort_keys=True)
        if '$file' in k:
            return self.build(v, seen)
        if k not in self.interned:
            if isinstance(v, dict) and '$py' in v:
                self.interned[k] = model.pyvalue(v)
            elif isinstance(v, dict):
                self.interned[k] = dict((a, self.shared(b, seen)) for a, b in v.items())
            else:
                self.interned[k] = [self.shared(x, seen) for x in v]
        return self.interned[k]

    def build(self, v, seen):
        """plan JSON -> object to pass; (file specification, bytes) of each
        file goes to `seen`"""
        if isinstance(v, dict) and '$file' in v:
            o, data = self.make(v['$file'])
            seen.append((v['$file'], data))
            return o
        if isinstance(v, dict) and '$py' in v:
            return model.pyvalue(v)
        if isinstance(v, dict):
            return dict((k, self.build(x, seen)) for k, x in v.items())
        if isinstance(v, list):
            return [self.build(x, seen) for x in v]
        return v


def freeze(o):
    """a deep, comparable picture of what a caller passed in"""
    if isinstance(o, dict):
        return [type(o).__name__] + [[repr(k), freeze(v)] for k, v in o.items()]
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [freeze(x) for x in o]
    if isinstance(o, (set, frozenset)):
        return [type(o).__name__] + sorted(repr(x) for x in o)
    if hasattr(o, 'read'):
        return ['stream', id(o), o.closed]
    return [type(o).__name__, repr(o)]


# --- a client as the documentation shows it --------------------------------------------------

def custom_class():
    from pyswagger.core import BaseClient

    class DocClient(BaseClient):
        __schemes__ = set(['http', 'https'])

        def __init__(self, auth=None, stage=None):
            super(DocClient, self).__init__(auth)
            self.stage = stage
            self.direct = False

        def request(self, req_and_resp, opt=None, headers=None):
            req, resp = req_and_resp
            req.reset()
            resp.reset()
            opt = opt or {}
            req, resp = super(DocClient, self).request((req, resp), opt)
            schemes = self.prepare_schemes(req)
            if self.direct:
                schemes = req.schemes
            req.prepare(scheme=schemes, handle_files=True)
            req._patch(opt)
            hd = self.compose_headers(req, headers, opt)
            url = req.url
            if req.query:
                url += ('&' if '?' in url else '?') + urllib.parse.urlencode(req.query)
            status, hds, raw = exchange(kernel.S.sim, Wire('custom', req.method.upper(), url, hd, req.data))
            resp.apply_with(status=status, header=hds, raw=raw)
            return resp
    return DocClient


def exchange(sim, wire):
    """a minimal HTTP client on the simulated network"""
    srv = sim.server
    kernel.y(8)
    rp = srv.plan(wire)
    if rp.predelay:
        sim.sleep(rp.predelay)
    k = rp.fault[0] if rp.fault else None
    if k in Reply.BEFORE:
        raise ConnectionError('injected: ' + k)
    srv.arrive(wire)
    if rp.delay:
        sim.sleep(rp.delay)
    if k is not None:
        raise ConnectionError('injected: ' + k)
    return rp.status, list(rp.headers) + [('Content-Length', str(len(rp.body)))], rp.body


# --- replies -----------------------------------------------------------------------------------

def reply_bytes(spec):
    """the body the server sends"""
    k = spec.get('kind', 'json')
    if k == 'none':
        return b''
    if k == 'raw':
        return spec['text'].encode('latin-1')
    if k == 'text':
        return spec['value'].encode('utf-8')
    if k == 'text8':
        b = spec['value'].encode('utf-8')
        i = spec['at'] % (len(b) + 1)
        return b[:i] + b'\xff' + b[i:]
    b = json.dumps(spec['value'], ensure_ascii=bool(spec.get('ascii', True)), indent=spec.get('indent')).encode('utf-8')
    if k == 'torn':
        i = min(len(b) - 1, spec['at'] % max(1, len(b)))
        return b[:i]
    if k == 'utf8':
        i = spec['at'] % (len(b) + 1)
        return b[:i] + b'\xff\xfe' + b[i:]
    if k == 'extra':
        # something follows
        return b + [b'x', b'}', b' {}', b'\n[', b'\x00', b',', b']', b'\n\n<html>'][spec['at'] % 8]
    return b


def make_reply(spec, rid, attempt):
    hd = [tuple(x) for x in spec.get('headers', ())] + [('X-Mark', mark(rid, attempt))]
    if spec.get('ctype'):
        hd.insert(len(hd) // 2, (spec.get('ctname', 'Content-Type'), spec['ctype']))
    return Reply(status=spec['status'], headers=hd, body=reply_bytes(spec), delay=spec.get('delay', 0.0), predelay=spec.get('predelay', 0.0),
                 fault=spec.get('fault'), framing=spec.get('framing', 'length'), chunk=spec.get('chunk', 700), sizes=spec.get('sizes'))


def mark(rid, attempt):
    return 'mark-%s-%d' % (rid, attempt)


def declared_header(r, name):
    for k, h in ((r or {}).get('headers') or {}).items():
        if k.lower() == name.lower():
            return h
    return None


def header_value(h, text):
    """a typed response header, as plain JSON"""
    if h is None:
        return text
    if h['type'] == 'integer':
        return int(text)
    if h['type'] == 'number':
        return float(text)
    if h['type'] == 'boolean':
        return text.lower() == 'true'
    if h['type'] == 'array':
        return [header_value(h['items'], x) for x in text.split({'ssv': ' ', 'pipes': '|', 'tsv': '\t'}.get(h.get('collectionFormat'), ','))]
    return text


HEADER_KINDS = {'integer': 'int', 'number': 'float', 'boolean': 'bool', 'array': 'Array', 'date': 'Date', 'date-time': 'Datetime', 'uuid': 'UUID', 'string': 'str'}


def header_kind(h, v):
    """a header of another type than declared"""
    want = HEADER_KINDS[h.get('format') if h.get('format') in HEADER_KINDS else h['type']]
    if type(v).__name__ != want and not (want == 'int' and type(v).__name__ == 'long'):
        return '%r is a %s, expected %s' % (v, type(v).__name__, want)
    if h['type'] == 'array':
        for x in v:
            e = header_kind(h['items'], x)
            if e:
                return e
    return None


def plain(v):
    """what a response's data means, as plain JSON"""
    k = type(v).__name__
    if isinstance(v, dict):
        return dict((str(a), plain(b)) for a, b in v.items())
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, (int, float)):
        return v
    if isinstance(v, bytes):
        return v.decode('utf-8')
    if k in ('Date', 'Datetime', 'UUID') or hasattr(v, 'to_json'):
        return v.to_json()
    return str(v)


def kinds_of(m, schema, doc, v, got, at=''):
    """are values typed as declared? (dates are dates, integers are integers)"""
    s, d = m.deref(schema, doc)
    t, f = s.get('type'), s.get('format')
    if v is None or got is None:
        return None
    if t == 'array':
        for i, (x, g) in enumerate(zip(v, got)):
            e = kinds_of(m, s['items'], d, x, g, '%s/%d' % (at, i))
            if e:
                return e
        return None
    if t == 'object' or 'allOf' in s or 'properties' in s:
        props = model.all_props(m, s, d)
        for k in v:
            if k in props and k in got:
                e = kinds_of(m, props[k][0], props[k][1], v[k], got[k], at + '/' + k)
                if e:
                    return e
        return None
    n = type(got).__name__
    want = {'date': 'Date', 'date-time': 'Datetime', 'uuid': 'UUID'}.get(f) if t == 'string' else None
    if want and n != want:
        return '%s: a %s, expected %s' % (at or '.', n, want)
    if t == 'integer' and (isinstance(got, bool) or not isinstance(got, int)):
        return '%s: a %s, expected an integer' % (at or '.', n)
    if t == 'boolean' and not isinstance(got, bool):
        return '%s: a %s, expected a boolean' % (at or '.', n)
    return None


# --- running a program of calls -------------------------------------------------------------------

class Rec(object):
    """one attempt of one call, as its caller saw it"""

    def __init__(self, rid, attempt):
        self.rid = rid
        self.attempt = attempt
        self.wires = []
        self.err = None
        self.where = None          # 'build' or 'send'
        self.ok = False
        self.snap = None           # what the response object shows afterwards
        self.resp = None
        self.t0 = self.t1 = 0.0
        self.slack = 0.0
        self.seq0 = self.seq1 = 0
        self.fired = None
        self.touched = None        # difference in the caller's objects
        self.lane = None
        self.files = []
        self.leaks = []


def snap(resp):
    for k, v in list(resp.header.items()):
        # names of headers are the same in any case
        if resp.header[k.swapcase()] != v or k.upper() not in resp.header:
            raise ValueError('header %s is %r as %s' % (k, resp.header[k.swapcase()], k.swapcase()))
    return {'status': resp.status, 'raw': resp.raw, 'data': resp.data,
            'header': dict((k.lower(), list(v)) for k, v in resp.header.items())}


class Stage(object):
    def __init__(self, plan, sim, app, pub, api=None, registry=None):
        self.plan = plan
        self.sim = sim
        self.app = app
        self.pub = pub
        self.api = api or plan['api']
        self.m = model.Model(self.api['docs'], self.api['entry'])
        self.ops = self.m.ops()
        self.calls = plan['calls']
        self.recs = []
        self.active = {}           # rid -> Rec
        self.stray = []
        self.files = Files(sim)
        self.hooks = {}
        self.reg = registry
        if registry is None:
            self.server = net.CallServer(sim, self.handle)
        self.opts = [None if o is None else dict(o) for o in plan.get('opts', ())]
        self.hdrs = [hdr_object(h) for h in plan.get('hdrs', ())]
        self.hdr_specs = plan.get('hdrs', ())
        self.secs = []
        self.creds = []            # current credentials per Security: {name: value}
        for s in plan.get('secs', ()):
            self.secs.append(self.security(s))
            self.creds.append(dict(s))
        self.clients = {}
        self.flask = None
        self.pairs = {}
        self.seen_files = {}
        self.streams_of = {}
        self.keep = []             # objects the callers still hold

    # -- objects ------------------------------------------------------------
    def security(self, s):
        from pyswagger.core import Security
        sec = Security(self.app)
        for n in sorted(s):
            sec.update_with(n, cred_object(s[n]))
        return sec

    def client(self, i, lane=None):
        c = self.plan['clients'][i]
        key = (i, lane) if c['kind'] == 'tornado' else i
        if key in self.clients:
            return self.clients[key]
        sec = self.secs[c['sec']] if c.get('sec') is not None else None
        k = c['kind']
        if k == 'requests':
            from pyswagger.contrib.client.requests import Client
            cl = Client(sec, send_opt={'timeout': 5}) if c.get('send_opt') else Client(sec)
        elif k == 'tornado':
            from pyswagger.contrib.client.tornado import TornadoClient
            cl = TornadoClient(sec)
        elif k == 'flask':
            from pyswagger.contrib.client.flask import FlaskTestClient
            import flask
            if self.flask is None:
                self.flask = flask.Flask('served')
                self.flask.wsgi_app = net.wsgi_app
            cl = FlaskTestClient(self.flask.test_client(), sec)
        else:
            cl = custom_class()(sec, self)
            cl.direct = bool(c.get('direct'))
        self.clients[key] = cl
        return cl

    # -- the server ----------------------------------------------------------------
    def handle(self, wire):
        m = RID.search(urllib.parse.unquote(wire.url)) or RID.search(' '.join(wire.header('X-Rid')))
        rid = m.group(1) if m else None
        rec = self.active.get(rid)
        if rec is None:
            self.stray.append(wire)
            return Reply(500, [], b'{}')
        rec.wires.append(wire)
        ct = wire.header('Content-Type')
        b = re.search(r'boundary="?([^";]+)"?', ct[0]) if ct else None
        if b:
            self.files.boundaries.append(b.group(1).encode('latin-1'))
        c = self.calls[rid]
        rs = c.get('replies') or [{'status': 200, 'kind': 'none'}]
        spec = rs[min(rec.attempt, len(rs) - 1)]
        rp = make_reply(spec, rid, rec.attempt)
        if rec.kind == 'flask' and not spec.get('ctype'):
            # the test client of werkzeug makes up text/html otherwise
            rp.headers = list(rp.headers) + [('Content-Type', 'application/json')]
        return rp

    # -- one call -----------------------------------------------------------------------
    def build(self, rid):
        """(request, response), or None with the error recorded"""
        c = self.calls[rid]
        rec = Rec(rid, 0)
        seen = []
        n0 = len(self.files.streams)
        make = self.files.shared if self.plan.get('intern') else self.files.build
        args = dict((k, make(v, seen)) for k, v in c['args'].items())
        self.seen_files[rid] = seen
        self.streams_of[rid] = self.files.streams[n0:]
        before = freeze(args)
        self.active[rid] = rec
        rec.seq0 = self.sim.seq
        rec.t0 = self.sim.now
        try:
            op = self.app.op[c['op']]
            pair = op(**args)
            if c.get('consume'):
                pair[0].consume(c['consume'])
            if c.get('produce'):
                pair[0].produce(c['produce'])
            if c.get('scheme'):
                pair[0].scheme = c['scheme']
            if c.get('raw_only'):
                pair[1].raw_body_only = True
        except Exception as e:
            rec.err, rec.where = e, 'build'
            rec.t1 = self.sim.now
            self.recs.append(rec)
            pair = None
        d = diff(before, freeze(args))
        if d:
            rec.touched = 'arguments: ' + d
            if pair is not None:
                self.recs.append(rec)
        self.pairs[rid] = (pair, args, before)
        return pair

    def rebuild(self, rid):
        """another pair from the very same arguments"""
        c = self.calls[rid]
        _, args, before = self.pairs[rid]
        pair = self.app.op[c['op']](**args)
        if c.get('consume'):
            pair[0].consume(c['consume'])
        if c.get('produce'):
            pair[0].produce(c['produce'])
        if c.get('scheme'):
            pair[0].scheme = c['scheme']
        if c.get('raw_only'):
            pair[1].raw_body_only = True
        self.pairs[rid] = (pair, args, before)
        return pair

    def begin(self, rid, attempt, lane):
        c = self.calls[rid]
        rec = Rec(rid, attempt)
        rec.lane = lane
        rec.where = 'send'
        rec.opt = self.opts[c['opt']] if c.get('opt') is not None else None
        rec.hdr = self.hdrs[c['hdr']] if c.get('hdr') is not None else None
        rec.client = c['client'] if not c.get('clients') else c['clients'][attempt % len(c['clients'])]
        rec.kind = self.plan['clients'][rec.client]['kind']
        rec.before = freeze([self.pairs[rid][1], rec.opt, rec.hdr])
        rec.files = self.seen_files.get(rid, ())
        rec.t0 = self.sim.now
        rec.over0 = self.sim.overtaken
        rec.seq0 = self.sim.seq
        rec.h0 = len(self.sim.world.handles)
        self.active[rid] = rec
        rec.broken = self.break_files(rid, attempt)
        self.sim.log('send', rid, attempt, rec.kind)
        if 'begin' in self.hooks:
            self.hooks['begin'](rec)
        return rec

    def end(self, rec, pair, resp, err):
        rec.t1 = self.sim.now
        rec.slack = self.sim.overtaken - rec.over0
        rec.seq1 = self.sim.seq
        rec.err = err
        rec.ok = err is None
        rec.same = resp is pair[1] if err is None else None
        rec.resp = resp if err is None else pair[1]
        try:
            rec.snap = snap(rec.resp)
        except Exception as e:
            rec.snap = {'broken': '%s: %s' % (type(e).__name__, e)}
        d = diff(rec.before, freeze([self.pairs[rec.rid][1], rec.opt, rec.hdr]))
        if d:
            rec.touched = d
        self.recs.append(rec)
        self.sim.log('end', rec.rid, rec.attempt, type(err).__name__ if err is not None else rec.snap.get('status'))
        if 'end' in self.hooks:
            self.hooks['end'](rec)

    def break_files(self, rid, attempt):
        """make the files of one attempt fail as the plan says; returns
        whether any will"""
        c = self.calls[rid]
        bad = False
        f = (c.get('gone') or {}).get(str(attempt))
        for spec, data in self.seen_files.get(rid, ()):
            if spec.get('via') == 'disk':
                w = self.sim.world
                w.files[spec['filename']] = data
                w.broken.pop(spec['filename'], None)
                if f:
                    bad = True
                    self.sim.count('fault:upload_' + f[0])
                    if f[0] == 'missing':
                        del w.files[spec['filename']]
                    else:
                        w.broken[spec['filename']] = f
        f = (c.get('readfail') or {}).get(str(attempt))
        for s in self.streams_of.get(rid, ()):
            raw = getattr(s, 'raw', s)
            if 'readfail' in c and isinstance(raw, SimRaw):
                raw._fail = None
                if f is not None:
                    bad = True
                    self.sim.count('fault:upload_stream_read')
                    raw._fail = (f % (len(raw._data) + 1), lambda: OSError(5, 'injected: read error'))
        return bad

    def attempts(self, rid):
        return max(1, len(self.calls[rid].get('replies') or ()))

    def call(self, rid, lane=None):
        c = self.calls[rid]
        pair = self.pairs[rid][0] if rid in self.pairs else self.build(rid)
        if pair is None:
            return
        for a in range(self.attempts(rid)):
            if a and c.get('rebuild'):
                pair = self.rebuild(rid)
            rec = self.begin(rid, a, lane)
            resp = err = None
            try:
                if rec.kind == 'tornado':
                    resp = net.run_coroutines(self.sim, lambda: self._one(rec, pair))
                else:
                    resp = self.client(rec.client).request(pair, rec.opt, rec.hdr)
            except Exception as e:
                err = e
            self.end(rec, pair, resp, err)

    async def _one(self, rec, pair):
        self.clients.pop((rec.client, None), None)
        return await self.client(rec.client, None).request(pair, rec.opt, rec.hdr)

    async def acall(self, rid, lane):
        c = self.calls[rid]
        if c.get('start'):
            await asyncio.sleep(c['start'])
        pair = self.pairs[rid][0] if rid in self.pairs else self.build(rid)
        if pair is None:
            return
        for a in range(self.attempts(rid)):
            if a and c.get('rebuild'):
                pair = self.rebuild(rid)
            rec = self.begin(rid, a, lane)
            resp = err = None
            try:
                resp = await self.client(rec.client, lane).request(pair, rec.opt, rec.hdr)
            except Exception as e:
                err = e
            self.end(rec, pair, resp, err)

    # -- everything ------------------------------------------------------------------------
    def run(self, res=None, extra=()):
        """run all lanes; True when they ended"""
        for rid in sorted(self.calls, key=int):
            if self.calls[rid].get('prebuilt'):
                self.build(rid)

        def lane_fn(n, lane):
            def threads():
                for rid in lane['calls']:
                    if rid in self.calls:
                        self.call(rid, n)

            def loop():
                async def main():
                    await asyncio.gather(*[self.acall(rid, n) for rid in lane['calls'] if rid in self.calls])
                net.run_coroutines(self.sim, main)
            return loop if lane['kind'] == 'loop' else threads
        lanes = self.plan['lanes']
        fns = [lane_fn(i, l) for i, l in enumerate(lanes)] + list(extra)
        if len(fns) == 1 and not extra:
            self.sim.section()
            fns[0]()
            return True
        tasks = self.sim.run_tasks(fns, self.plan.get('sched'))
        good = True
        for t in tasks:
            if t.error is not None:
                good = False
                if res is not None:
                    from .scen.util import tb
                    res.bad('hang' if self.sim.hung else 'thread', 'lane %d: %s: %s %s' % (t.tid, type(t.error).__name__, t.error, tb(t.error)))
        return good

    # -- what the model says -------------------------------------------------------------------
    def expect(self, rid, creds=None, values=None):
        """the canonical request of a call, or why it must raise"""
        c = self.calls[rid]
        om = self.ops[c['op']]
        opt = self.plan['opts'][c['opt']] if c.get('opt') is not None else None
        loaded = self.pub.scheme
        return om.wire(self.model_args(c['args']), self.pub.netloc, loaded, creds=creds, opt=opt, consume=c.get('consume'),
                       produce=c.get('produce'), scheme=c.get('scheme'))

    def model_args(self, args):
        return args

    def user_headers(self, rid):
        c = self.calls[rid]
        if c.get('hdr') is None:
            return []
        h = self.hdr_specs[c['hdr']]
        return [list(x) for x in (sorted(h.items()) if isinstance(h, dict) else h)]

    def cred_map(self, sec):
        """credentials as the model wants them: {scheme: (place, key, value)}"""
        return cred_map(self.m.root.get('securityDefinitions') or {}, sec)

    def creds_of(self, rec):
        i = self.plan['clients'][rec.client].get('sec') if rec.where == 'send' else None
        return self.cred_map(self.plan['secs'][i]) if i is not None else None

    def spec(self, rec):
        rs = self.calls[rec.rid].get('replies') or [{'status': 200, 'kind': 'none'}]
        return rs[min(rec.attempt, len(rs) - 1)]


def cred_object(v):
    return tuple(v) if isinstance(v, list) else v


def cred_map(defs, sec):
    import base64
    out = {}
    for n, v in sec.items():
        d = defs.get(n)
        if d is None:
            continue
        if d['type'] == 'basic':
            out[n] = ('header', 'Authorization', 'Basic ' + base64.b64encode(('%s:%s' % tuple(v)).encode('utf-8')).decode('ascii'))
        elif d['type'] == 'apiKey':
            out[n] = (d['in'], d['name'], v)
        else:
            out[n] = ('header', 'access_token', v)
    return out


def hdr_object(h):
    if h is None:
        return None
    if isinstance(h, dict):
        return dict(h)
    return [tuple(x) for x in h]


def diff(a, b):
    if a == b:
        return None
    return '%s became %s' % (short(a), short(b))


def short(x):
    s = json.dumps(x, default=str)
    return s if len(s) < 300 else s[:300] + '...'


# --- what a reply must become ----------------------------------------------------------------------

def judge_reply(stage, rec, res, mime=True):
    """compare what the caller got with what the server sent for this attempt"""
    spec = stage.spec(rec)
    c = stage.calls[rec.rid]
    om = stage.ops[c['op']]
    if rec.where == 'send' and not rec.wires:
        # nothing was sent: nothing can have been received
        who = 'call %s attempt %d over %s (%s, nothing sent)' % (rec.rid, rec.attempt, rec.kind, c['op'])
        if rec.ok:
            res.bad('invented', '%s gave a response' % who)
        if any(rec.snap.get(k) is not None for k in ('status', 'raw', 'data')) or rec.snap.get('header'):
            res.bad('stale', '%s shows %s' % (who, short_snap(rec.snap)))
        return
    r, rd = om.response(spec['status'])
    body = reply_bytes(spec)
    schema = r.get('schema') if r else None
    raw_only = c.get('raw_only')
    # -- must, may it raise?
    must, may = None, None
    if spec.get('fault'):
        must = 'the network failed (%s)' % spec['fault'][0]
    elif spec.get('bad_header'):
        must = 'a typed header is malformed'
    elif schema and not raw_only and spec.get('kind') in ('torn', 'utf8', 'text8', 'extra', 'bad', 'raw'):
        must = 'the body is malformed (%s)' % spec['kind']
    elif schema and not raw_only and spec.get('bad_mime'):
        must = 'no codec for its content type'
    if rec.kind == 'tornado' and spec['status'] >= 400:
        may = 'tornado raises for error statuses'
    if schema and not raw_only and spec.get('kind') == 'none':
        may = 'no body where one is declared'
    sn = rec.snap
    who = 'call %s attempt %d over %s (%s, status %s)' % (rec.rid, rec.attempt, rec.kind, c['op'], spec['status'])
    if 'broken' in sn:
        res.bad('broken', '%s: %s' % (who, sn['broken']))
        return
    odd = rec.kind == 'tornado' and schema and not raw_only and 'json' not in (spec.get('ctype') or 'json').lower()
    if odd and not mime:
        # C07's finding about content types is left to C07
        return
    if not rec.ok:
        if not must and not may:
            from .scen.util import tb
            res.bad('tornado_mime' if odd else 'raised', '%s raised %s: %s %s' % (who, type(rec.err).__name__, str(rec.err)[:300], tb(rec.err)))
        # whatever it shows must be of this attempt
        leftover(stage, rec, res, who)
        return
    if must:
        res.bad('tornado_mime' if odd and spec.get('bad_mime') else 'delivered', '%s was delivered though %s: %s' % (who, must, short_snap(sn)))
        return
    if not rec.same:
        res.bad('object', '%s: the response is not the one of the pair' % who)
    if sn['status'] != spec['status']:
        res.bad('status', '%s: status %r, sent %r' % (who, sn['status'], spec['status']))
    if sn['raw'] != body:
        res.bad('body', '%s: raw %r, sent %r' % (who, sn['raw'], body))
    d = headers_diff(stage, rec, spec, r)
    if d:
        res.bad('headers', '%s: %s' % (who, d))
    if spec.get('kind') == 'none' and schema and not raw_only:
        if sn['data'] is not None and plain(sn['data']) not in ('',):
            res.bad('data', '%s: data %r of an empty body' % (who, plain(sn['data'])))
        return
    if not schema or raw_only:
        if sn['data'] is not None:
            res.bad('data', '%s: data %r, though none is declared' % (who, sn['data']))
        return
    want = om.read(schema, rd, spec['value'])
    try:
        got = plain(sn['data'])
    except Exception as e:
        res.bad('data', '%s: unusable data: %s: %s' % (who, type(e).__name__, e))
        return
    d = model.jdiff(got, want)
    if d is None:
        d = kinds_of(om.m, schema, rd, spec['value'], sn['data'])
    if d:
        res.bad('tornado_mime' if odd else 'data', '%s: data%s' % (who, d))


def short_snap(sn):
    return repr(dict((k, (repr(v)[:120])) for k, v in sn.items()))


def headers_diff(stage, rec, spec, r):
    want = {}
    hd = [tuple(x) for x in spec.get('headers', ())] + [('X-Mark', mark(rec.rid, rec.attempt))]
    if spec.get('ctype'):
        hd.append(('Content-Type', spec['ctype']))
    for k, v in hd:
        want.setdefault(k.lower(), []).append(header_value(declared_header(r, k), v))
    have = rec.snap['header']
    for k, vs in want.items():
        if k not in have:
            return 'header %s is missing, sent %r' % (k, vs)
        try:
            got = [plain(x) for x in have[k]]
        except Exception as e:
            return 'header %s: unusable: %s' % (k, e)
        typed = declared_header(r, k) is not None
        if typed:
            if model.jdiff(got, vs):
                return 'header %s: %r, expected %r' % (k, got, vs)
            h = declared_header(r, k)
            e = [e for e in [header_kind(h, x) for x in have[k]] if e]
            if e:
                return 'header %s: %s' % (k, e[0])
        elif model.split(map(str, got)) != model.split(map(str, vs)):
            return 'header %s: %r, sent %r' % (k, got, vs)
    lib = set(['content-length', 'transfer-encoding', 'content-type', 'date', 'server', 'connection'])
    for k in have:
        if k not in want and k not in lib:
            return 'header %s: %r was never sent' % (k, have[k])
    return None


def leftover(stage, rec, res, who):
    """after a failed attempt: nothing of an earlier one, and no data"""
    spec = stage.spec(rec)
    sn = rec.snap
    if sn['status'] is not None and sn['status'] != spec['status']:
        res.bad('stale', '%s failed and shows status %r' % (who, sn['status']))
    if sn['raw'] is not None and (spec.get('fault') or sn['raw'] != reply_bytes(spec)):
        res.bad('stale', '%s failed and shows body %r' % (who, sn['raw'][:80]))
    if sn['data'] is not None and not spec.get('bad_header'):
        res.bad('stale', '%s failed (%s) and shows data %r' % (who, type(rec.err).__name__, str(sn['data'])[:100]))
    m = sn['header'].get('x-mark')
    if m and m != [mark(rec.rid, rec.attempt)]:
        res.bad('stale', '%s failed and shows headers of another reply: %r' % (who, m))
    sent = set(x[0].lower() for x in spec.get('headers', ())) | set(['x-mark', 'content-type', 'content-length', 'transfer-encoding'])
    for k in sn['header']:
        if k not in sent:
            res.bad('stale', '%s failed and shows header %s' % (who, k))


# --- what a call must put on the wire -----------------------------------------------------------------

def judge_wire(stage, rec, res, creds=None, exp=None):
    """compare the requests of one attempt with the call; returns False when
    something is wrong"""
    c = stage.calls[rec.rid]
    if exp is None:
        exp = stage.expect(rec.rid, creds)
    who = 'call %s attempt %d over %s (%s)' % (rec.rid, rec.attempt, getattr(rec, 'kind', '-'), c['op'])
    if isinstance(exp, str):
        if rec.wires:
            res.bad('sent', '%s must raise (%s) but sent %s' % (who, exp, rec.wires[0].url))
            return False
        if rec.err is None:
            res.bad('accepted', '%s must raise (%s)' % (who, exp))
            return False
        return True
    if rec.where == 'build':
        if rec.err is not None:
            from .scen.util import tb
            res.bad('refused', '%s: %s: %s %s' % (who, type(rec.err).__name__, str(rec.err)[:300], tb(rec.err)))
            return False
        return True
    n = len(rec.wires)
    if getattr(rec, 'broken', False):
        if n or rec.err is None:
            res.bad('broken_file', '%s could not read its files and %s' % (who, 'sent %d requests' % n if n else 'did not raise'))
            return False
        return True
    if n != 1:
        from .scen.util import tb
        res.bad('count', '%s put %d requests on the wire%s' % (who, n, '' if rec.err is None else ' (%s: %s %s)' % (type(rec.err).__name__, str(rec.err)[:300], tb(rec.err))))
        return False
    d = wire_diff(stage, rec, exp, rec.wires[0])
    if d:
        res.bad('wire', '%s: %s' % (who, d))
        return False
    return True


def wire_diff(stage, rec, exp, w):
    own = stage.user_headers(rec.rid)
    opt = stage.plan['calls'][rec.rid].get('opt')
    if w.client == 'requests' and not (opt is not None and stage.plan['opts'][opt].get('join_headers')):
        # one value for a header: what the operation says wins over what the caller adds
        own = [x for x in own if x[0].lower() not in set(k.lower() for k in exp['headers'])]
    d = model.compare_wire(exp, w, own)
    if d or 'multipart' not in exp:
        return d
    return multipart_diff(w, exp['multipart'], rec.files)


def same_name(got, want, kind):
    """file and field names on the wire"""
    return want in model.name_readings(got)


def multipart_diff(w, mp, seen):
    form, files = mp
    ct = (w.header('Content-Type') or [''])[0]
    if ct.split(';')[0].strip() != 'multipart/form-data':
        return 'content type %r, expected multipart/form-data' % ct
    try:
        parts = model.parse_multipart(w.body if isinstance(w.body, bytes) else (w.body or '').encode('utf-8'), ct)
    except (ValueError, UnicodeDecodeError) as e:
        return 'malformed multipart body: %s' % e
    known = set(n for n, _ in form) | set(n for n, _ in files)
    parts = [(([x for x in model.name_readings(p[0]) if x in known] or [p[0]])[0],) + tuple(p[1:]) for p in parts]
    fields = [p for p in parts if p[1] is None]
    fparts = [p for p in parts if p[1] is not None]
    a = model.group((p[0], p[3].decode('utf-8')) for p in fields)
    b = model.group(form)
    if set(a) != set(b) or any(not model.same_texts(a[k], b[k]) for k in a):
        return 'form fields %r, expected %r' % (a, b)
    # the bytes of each file, in the order of the arguments
    want = [(name, spec['$file']) for name, spec in files]
    bytes_of = {}
    for spec, data in seen:
        bytes_of.setdefault(json.dumps(spec, sort_keys=True), []).append(data)
    if len(want) != len(fparts):
        return '%d file parts (%r), expected %d (%r)' % (len(fparts), [p[:2] for p in fparts], len(want), [n for n, _ in want])
    gw, gh = {}, {}
    for n, s in want:
        gw.setdefault(n, []).append(s)
    for p in fparts:
        gh.setdefault(p[0], []).append(p)
    if set(gw) != set(gh):
        return 'file fields %r, expected %r' % (sorted(gh), sorted(gw))
    for n in gw:
        if len(gw[n]) != len(gh[n]):
            return 'file field %s: %d files, expected %d' % (n, len(gh[n]), len(gw[n]))
        for s, p in zip(gw[n], gh[n]):
            data = bytes_of[json.dumps(s, sort_keys=True)][0]
            if p[3] != data:
                return 'file %s (%r): bytes %r, expected %r' % (n, s.get('filename'), cut(p[3]), cut(data))
            if not same_name(p[1], s.get('filename') or '', w.client):
                return 'file %s: file name %r, expected %r' % (n, p[1], s.get('filename'))
            if p[4] != s.get('cte') and w.client != 'requests':
                return 'file %s: transfer encoding %r, expected %r' % (n, p[4], s.get('cte'))
            if p[2] != (s.get('ctype') or None):
                return 'file %s: content type %r, expected %r' % (n, p[2], s['ctype'])
    return None


def cut(b):
    return b if len(b) < 90 else b[:60] + b'...%d' % len(b)


# --- generators ------------------------------------------------------------------------------------------

def gen_clients(rng, kinds=('requests', 'tornado', 'flask', 'custom'), nsec=0, n=None):
    out = []
    for _ in range(n or rng.randint(1, 3)):
        c = {'kind': pick(rng, kinds), 'sec': None}
        if nsec and chance(rng, .8):
            c['sec'] = rng.randrange(nsec)
        if chance(rng, .2):
            c['send_opt'] = True
        out.append(c)
    return out


def gen_opts(rng, n=3):
    out = []
    for _ in range(n):
        o = {}
        if chance(rng, .5):
            o['url_netloc'] = pick(rng, ['proxy.sim', 'proxy.sim:81', '127.0.0.1:8080'])
        if chance(rng, .3):
            o['url_scheme'] = pick(rng, ['http', 'https'])
        out.append(o)
    return out


def gen_hdrs(rng, n=3):
    """header objects; [object, needs join_headers]"""
    out = []
    for _ in range(n):
        names = sub(rng, ['X-User', 'X-Extra', 'X-Request-Id', 'x-small'], 1, 3)
        pairs = [[x, pick(rng, ['1', 'abc', 'with space', 'q=1; r', u'tok-\xe9'.encode('ascii', 'ignore').decode()])] for x in names]
        k = rng.random()
        if k < .45:
            out.append(dict(pairs))
        elif k < .75:
            out.append(pairs)
        else:
            out.append(pairs + [[pairs[0][0], 'second']])
    return out


def gen_value_for(rng, m, r, rd):
    return model.gen_value(rng, m, r['schema'], rd)


def break_value(rng, m, schema, doc, v):
    """a value that does not fit the schema any more, or None"""
    s, d = m.deref(schema, doc)
    t, f = s.get('type'), s.get('format')
    if t == 'array':
        for i in range(len(v)):
            b = break_value(rng, m, s['items'], d, v[i])
            if b is not None:
                return v[:i] + [b[0]] + v[i + 1:],
        return None
    if t == 'object' or 'allOf' in s or 'properties' in s:
        req = [k for k in model.required(m, s, d) if k in v and k not in defaulted(m, s, d)]
        if req and chance(rng, .6):
            k = pick(rng, sorted(req))
            return dict((a, b) for a, b in v.items() if a != k),
        props = model.all_props(m, s, d)
        for k in sorted(v):
            if k in props:
                b = break_value(rng, m, props[k][0], props[k][1], v[k])
                if b is not None:
                    return dict(v, **{k: b[0]}),
        return None
    if t == 'integer' or t == 'number':
        return 'not-a-number',
    if s.get('enum'):
        return 'not-in-enum',
    if f in ('date', 'date-time'):
        return 'not-a-date',
    if f == 'uuid':
        return 'not-a-uuid',
    return None


def defaulted(m, s, d):
    return [k for k, (p, _) in model.all_props(m, s, d).items() if 'default' in p]


STATUSES = [200, 200, 200, 201, 404, 500, 299, 400, 503, 204]


def gen_reply(rng, m, om, faults=0.0, bad=0.0, delays=True):
    st = pick(rng, STATUSES)
    declared = [int(k) for k in om.op.get('responses', {}) if k != 'default']
    if declared and chance(rng, .7):
        st = pick(rng, sorted(declared))
    r, rd = om.response(st)
    spec = {'status': st}
    if r and r.get('schema'):
        s, sd = m.deref(r['schema'], rd)
        v = model.gen_value(rng, m, r['schema'], rd)
        spec.update(kind='json', value=v, ascii=chance(rng, .5))
        if chance(rng, .3):
            spec['indent'] = 1
        if chance(rng, .8):
            spec['ctype'] = pick(rng, ['application/json', 'application/json; charset=utf-8', 'text/json', 'Application/JSON;charset=UTF-8'])
            if chance(rng, .2):
                spec['ctname'] = pick(rng, ['content-type', 'CONTENT-TYPE'])
        if s.get('type') == 'string' and not s.get('format') and not s.get('enum') and chance(rng, .4):
            spec.update(kind='text', ctype=pick(rng, ['text/plain', 'text/plain; charset=utf-8']))
        if st == 204:
            spec = {'status': st, 'kind': 'none'}
    elif chance(rng, .6) and st != 204:
        spec.update(kind='raw', text=pick(rng, ['', 'plain', '{"a": 1}', '\xff\x00\x01 binary', '<html>']), ctype=pick(rng, ['text/html', 'application/json', 'application/octet-stream']))
        if not spec['text']:
            spec = {'status': st, 'kind': 'none'}
    else:
        spec['kind'] = 'none'
    hd = []
    hs = (r or {}).get('headers') or {}
    for k in sorted(hs):
        if chance(rng, .8):
            name = pick(rng, [k, k, k.lower(), k.upper()])
            hd.append([name, gen_header_text(rng, hs[k])])
    for k in sub(rng, ['X-Server', 'Etag', 'X-Multi', 'Retry-After'], 0, 3):
        hd.append([k, pick(rng, ['1', 'abc', '"quoted"', 'a b'])])
        if k == 'X-Multi' and chance(rng, .6):
            hd.append([pick(rng, [k, k.lower()]), 'again'])
    rng.shuffle(hd)
    if hd:
        spec['headers'] = hd
    if delays:
        if chance(rng, .6):
            spec['delay'] = pick(rng, [0.01, 0.3, 1.0, 2.5, 40.0])
        if chance(rng, .2):
            spec['predelay'] = pick(rng, [0.05, 1.5])
    spec['framing'] = pick(rng, ['length', 'length', 'chunked', 'close'])
    spec['chunk'] = pick(rng, [1, 7, 300, 5000])
    if chance(rng, .3):
        spec['sizes'] = [pick(rng, [1, 5, 64, 4096]) for _ in range(2)]
    if chance(rng, faults):
        k = pick(rng, Reply.KINDS)
        if reply_bytes(spec) == b'' and k not in Reply.BEFORE:
            k = pick(rng, ['refuse', 'reset_before', 'eof_before', 'connect_timeout'])
        spec['fault'] = [k, rng.randrange(1, 4000)]
    elif hs and chance(rng, bad / 2):
        n = pick(rng, sorted(hs))
        b = gen_bad_header_text(rng, hs[n])
        if b is not None:
            spec['headers'] = [x for x in spec.get('headers', ()) if x[0].lower() != n.lower()]
            spec['headers'].insert(rng.randint(0, len(spec['headers'])), [pick(rng, [n, n.lower()]), b])
            spec['bad_header'] = True
    elif chance(rng, bad) and r and r.get('schema') and spec['kind'] in ('json', 'text'):
        k = pick(rng, ['torn', 'utf8', 'extra', 'bad', 'bad', 'mime'])
        if k == 'mime':
            spec['ctype'] = pick(rng, ['application/xml', 'text/csv', 'application/octet-stream'])
            spec['bad_mime'] = True
        elif k == 'bad' and spec['kind'] == 'json':
            b = break_value(rng, m, r['schema'], rd, spec['value'])
            if b is not None:
                spec.update(kind='bad', value=b[0])
        elif spec['kind'] == 'text':
            spec.update(kind='text8', at=rng.randrange(4000))
        elif spec['kind'] == 'json' and len(reply_bytes(spec)) > 1:
            full = reply_bytes(spec)
            t = dict(spec, kind=k, at=rng.randrange(4000))
            cutb = reply_bytes(t)
            ok = True
            try:
                json.loads(cutb.decode('utf-8'))
            except ValueError:
                ok = False
            if not ok and cutb != full and cutb != b'':
                spec = t
    return spec


def gen_file(rng, kinds=None):
    """a file or stream to upload"""
    via = pick(rng, kinds or ['bytesio', 'bytesio', 'raw', 'buffered', 'disk'])
    k = rng.random()
    if k < .15:
        data = ''
    elif k < .5:
        data = pick(rng, ['x', 'hello\nworld', 'a' * 300, '\x00\xff\x80bin\r\n', '\r\n--', '--', '\r\n\r\n', '--\r\n--boundary--\r\n', 'line\r\n', '\r', '\n\n'])
    elif k < .65:
        data = ''.join(chr(rng.randrange(256)) for _ in range(rng.choice([1, 63, 64, 65, 4097])))
    elif k < .8:
        data = ['echo', rng.randrange(4)]
    else:
        data = pick(rng, ['abc', '{"a": 1}', '%41+&=', ''.join(chr(rng.randrange(256)) for _ in range(rng.choice([8191, 8192, 8193, 20000])))])
    name = pick(rng, ['a.txt', 'b.bin', 'c d.txt', u'd\xe9j\xe0.txt', u'\u65e5.png', 'x;y=z.txt', 'back\\slash.txt', 'quo"te.txt', 'per%22cent.txt', "it's.txt", 'a&b.txt'])
    f = {'data': data, 'filename': name, 'via': via}
    if via == 'disk':
        f['filename'] = '/simfs/up/%d-%s' % (rng.randrange(3), name.replace('\\', '_'))
    if chance(rng, .6):
        f['ctype'] = pick(rng, ['text/plain', 'image/png', 'application/octet-stream', 'text/plain; charset=utf-8'])
    if chance(rng, .2):
        f['cte'] = pick(rng, ['binary', '8bit'])
    if chance(rng, .3):
        f['sizes'] = [pick(rng, [1, 3, 100, 4096]) for _ in range(2)]
    if via not in ('disk', 'readonly') and chance(rng, .1):
        f['filename'] = pick(rng, ['', None])
    if via == 'text':
        # text has no newline translation to be afraid of
        f.pop('cte', None)
    if via != 'disk' and chance(rng, .12):
        f['at'] = rng.randrange(1, 50)
    return f


def reachable(rng, api, p=.93):
    """mostly give the API schemes: loaded from a file without any, none of
    its operations can be called"""
    root = api['docs'][api['entry']]
    if 'schemes' not in root and chance(rng, p):
        root['schemes'] = sub(rng, ['http', 'https'], 1)


def gen_calls(rng, plan, ncalls, faults=0.0, bad=0.0, attempts=1, wrong=0.0, file_fn=None, loops=True, lanes=None, share=True, raw_only=.1):
    """fill in clients, opts, hdrs, calls and lanes of a plan that has api,
    and maybe secs"""
    from .scen import util
    api = plan['api']
    m = model.Model(api['docs'], api['entry'])
    ops = m.ops()
    names = sorted(ops)
    plan['clients'] = gen_clients(rng, plan.pop('kinds', ('requests', 'tornado', 'flask', 'custom')), len(plan.get('secs', ())))
    plan['opts'] = gen_opts(rng, 3)
    plan['hdrs'] = gen_hdrs(rng, 3)
    for o in plan['opts']:
        if chance(rng, .35):
            o['join_headers'] = True
    calls = {}
    tor = [i for i, c in enumerate(plan['clients']) if c['kind'] == 'tornado']
    oth = [i for i, c in enumerate(plan['clients']) if c['kind'] != 'tornado']
    for i in range(ncalls):
        rid = str(i)
        k = pick(rng, names)
        om = ops[k]
        ci = rng.randrange(len(plan['clients']))
        args = util.gen_args(rng, m, om, 'rid-%s-z' % rid, file_fn or gen_file)
        c = {'op': k, 'args': args, 'client': ci}
        kind = plan['clients'][ci]['kind']
        fix_args(om, args, kind)
        if share and chance(rng, .5):
            c['opt'] = rng.randrange(len(plan['opts']))
        if share and chance(rng, .5):
            j = rng.randrange(len(plan['hdrs']))
            if headers_usable(plan['hdrs'][j], plan['opts'][c['opt']] if c.get('opt') is not None else {}, kind):
                c['hdr'] = j
            hp = [p['name'] for p, _ in om.params if p['in'] == 'header' and p['name'] in args]
            if hp and kind == 'requests' and chance(rng, .4) and not (c.get('opt') is not None and plan['opts'][c['opt']].get('join_headers')):
                # a header of the caller named like one of the operation: other http
                # libraries have ways of their own with such a pair
                plan['hdrs'].append({pick(rng, hp): 'caller', 'X-User': '2'})
                c['hdr'] = len(plan['hdrs']) - 1
        c['replies'] = [gen_reply(rng, m, om, faults, bad) for _ in range(rng.randint(1, attempts))]
        if chance(rng, raw_only):
            c['raw_only'] = True
        if chance(rng, .15) and om.consumes:
            c['consume'] = pick(rng, om.consumes + ['application/nope'])
            if c['consume'].startswith(('multipart', 'application/x-www')):
                del c['consume']
        if chance(rng, .15) and om.produces:
            c['produce'] = pick(rng, om.produces + ['application/nope'])
        if chance(rng, .15):
            c['scheme'] = pick(rng, ['http', 'https'])
        if chance(rng, wrong):
            go_wrong(rng, om, c)
        if chance(rng, .3):
            c['prebuilt'] = True
        calls[rid] = c
    plan['calls'] = calls
    n = lanes or rng.randint(1, 3)
    ls = []
    for i in range(n):
        if tor and loops and chance(rng, .5):
            ls.append({'kind': 'loop', 'calls': []})
        else:
            ls.append({'kind': 'thread', 'calls': []})
    if tor and not oth and loops:
        ls[0]['kind'] = 'loop'
    for rid in sorted(calls, key=int):
        c = calls[rid]
        li = pick(rng, ls)
        if li['kind'] == 'loop':
            if not tor:
                li['kind'] = 'thread'
            else:
                c['client'] = pick(rng, tor)
                if chance(rng, .6):
                    c['start'] = pick(rng, [0.01, 0.5, 1.0, 3.0])
                if c.get('hdr') is not None and not headers_usable(plan['hdrs'][c['hdr']], plan['opts'][c['opt']] if c.get('opt') is not None else {}, 'tornado'):
                    del c['hdr']
                fix_args(ops[c['op']], c['args'], 'tornado')
        li['calls'].append(rid)
    plan['lanes'] = ls
    own_files(rng, plan)
    return plan


def fix_args(om, args, kind):
    """leave out what the http library under a client cannot express at all"""
    for p, _ in om.params:
        if p['name'] not in args or p.get('type') == 'file':
            continue
        if p['in'] == 'path' and isinstance(args[p['name']], str) and args[p['name']].strip('.') == '':
            args[p['name']] = 'x'


def headers_usable(h, opt, kind):
    """duplicates of a header only where the client can send them"""
    if isinstance(h, dict):
        return kind == 'requests' or 'caller' not in h.values()
    names = [x[0].lower() for x in h]
    if len(set(names)) == len(names):
        return True
    return bool(opt.get('join_headers')) or kind in ('tornado', 'custom')


def go_wrong(rng, om, c):
    """a call that must raise: a required parameter left out, or one that does not exist"""
    req = [p['name'] for p, _ in om.params if p.get('required') and 'default' not in p]
    if req and chance(rng, .5):
        n = pick(rng, sorted(req))
        c['args'].pop(n, None)
    else:
        c['args'][pick(rng, ['nope', 'Rid', 'rid ', 'q_', 'payloads'])] = 1


def own_files(rng, plan, p_gone=0.0, p_read=0.0):
    """give each call disk files of its own, and maybe let them fail"""
    for rid, c in plan['calls'].items():
        disk, raw = [], []

        def walk(v):
            if isinstance(v, dict) and '$file' in v:
                f = v['$file']
                if f.get('via') == 'disk':
                    f['filename'] = '/simfs/up/%s-%d-%s' % (rid, len(disk), f['filename'].rsplit('/', 1)[-1])
                    disk.append(f)
                elif f.get('via') in ('raw', 'buffered'):
                    raw.append(f)
            elif isinstance(v, dict):
                for k in sorted(v):
                    walk(v[k])
            elif isinstance(v, list):
                for x in v:
                    walk(x)
        walk(c['args'])
        n = max(1, len(c.get('replies') or ()))
        if disk and p_gone and chance(rng, p_gone):
            c['gone'] = dict((str(a), pick(rng, [['missing'], ['open_eacces'], ['open_emfile'], ['read_eio', rng.randrange(5000)]])) for a in range(n) if chance(rng, .5))
        if raw and p_read and chance(rng, p_read):
            c['readfail'] = dict((str(a), rng.randrange(5000)) for a in range(n) if chance(rng, .5))
