"""An executable reference model, written from the Swagger 2.0 specification
and pyswagger's documentation, that works on the raw documents only.  It never
looks at pyswagger."""
import base64
import json
import posixpath
import re
import urllib.parse

METHODS = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')


class Missing(Exception):
    pass


def jp_tokens(jp):
    return [t.replace('~1', '/').replace('~0', '~') for t in jp.split('/')[1:]]


class Model(object):
    def __init__(self, docs, entry):
        self.docs = docs
        self.entry = entry

    # -- references ---------------------------------------------------------
    def target(self, ref, doc):
        """(document, pointer) a $ref in `doc` points to"""
        i = ref.find('#')
        path, jp = (ref, '#') if i < 0 else (ref[:i], ref[i:])
        if path:
            doc = posixpath.normpath(posixpath.join(posixpath.dirname(doc), path))
        return doc, jp or '#'

    def node(self, doc, jp):
        if doc not in self.docs:
            raise Missing(doc)
        n = self.docs[doc]
        for t in jp_tokens(jp):
            if isinstance(n, list):
                try:
                    n = n[int(t)]
                except (ValueError, IndexError):
                    raise Missing((doc, jp))
            elif isinstance(n, dict) and t in n:
                n = n[t]
            else:
                raise Missing((doc, jp))
        return n

    def deref(self, node, doc, limit=30):
        while isinstance(node, dict) and '$ref' in node:
            doc, jp = self.target(node['$ref'], doc)
            node = self.node(doc, jp)
            limit -= 1
            if not limit:
                raise Missing('cycle')
        return node, doc

    def name_of(self, node, doc):
        pass

    # -- operations -----------------------------------------------------------
    @property
    def root(self):
        return self.docs[self.entry]

    def ops(self):
        out = {}
        for path, pi in self.root['paths'].items():
            pi, doc = self.deref(pi, self.entry)
            for m in METHODS:
                if m in pi and 'operationId' in pi[m]:
                    out[pi[m]['operationId']] = OpModel(self, path, m, pi, doc)
        return out


class OpModel(object):
    def __init__(self, model, path, method, pi, doc):
        self.m = model
        self.path = path
        self.method = method
        self.op = pi[method]
        self.doc = doc
        ps = [model.deref(p, doc) for p in self.op.get('parameters', [])]
        names = [p[0]['name'] for p in ps]
        for p in pi.get('parameters', []):
            n = model.deref(p, doc)
            if n[0]['name'] not in names:
                ps.append(n)
        self.params = ps

    def param(self, name):
        for p, d in self.params:
            if p['name'] == name:
                return p, d
        return None, None

    @property
    def consumes(self):
        return self.op.get('consumes') or self.m.root.get('consumes') or []

    @property
    def produces(self):
        return self.op.get('produces') or self.m.root.get('produces') or []

    def schemes(self, loaded_from):
        return self.op.get('schemes') or self.m.root.get('schemes') or ([loaded_from] if loaded_from else [])

    @property
    def security(self):
        s = self.op.get('security')
        return (self.m.root.get('security') if s is None else s) or []

    def security_names(self):
        return set(n for r in self.security for n in r)

    def response(self, status):
        rs = self.op.get('responses', {})
        r = rs.get(str(status), rs.get('default'))
        if r is None:
            return None, None
        return self.m.deref(r, self.doc)

    # -- what a call puts on the wire --------------------------------------------
    def wire(self, args, netloc, loaded_from, creds=None, opt=None, headers=None, consume=None, produce=None, scheme=None):
        """canonical request of a call, or the name of the reason why the call
        must raise"""
        opt = opt or {}
        known = [p['name'] for p, _ in self.params]
        for p, _ in self.params:
            if p.get('required') and p['name'] not in args and 'default' not in p:
                return 'missing ' + p['name']
        for a in args:
            if a not in known:
                return 'unknown ' + a
        path = self.path
        query, form, hdr, files, body, has_body = [], [], {}, [], None, False
        for p, d in self.params:
            if p['name'] in args:
                v = args[p['name']]
            elif 'default' in p:
                v = p['default']
            else:
                continue
            loc = p['in']
            if loc == 'body':
                body, has_body = self.write(p['schema'], d, v), True
                bschema = self.m.deref(p['schema'], d)[0]
            elif p.get('type') == 'file':
                files.append((p['name'], v))
            elif p.get('type') == 'array' and p['items'].get('type') == 'file':
                for x in v:
                    files.append((p['name'], x))
            elif loc in ('query', 'formData'):
                for s in texts(p, v):
                    (query if loc == 'query' else form).append((p['name'], s))
            elif loc == 'header':
                hdr[p['name']] = ''.join(texts(p, v))
            elif loc == 'path':
                path = path.replace('{%s}' % p['name'], quote(''.join(texts(p, v))))
        schemes = self.schemes(loaded_from)
        if not set(schemes) & set(['http', 'https']):
            return 'no scheme'
        if scheme is not None:
            if scheme not in schemes:
                return 'scheme not offered'
            sch = [scheme]
        else:
            sch = [s for s in schemes if s in ('http', 'https')]
        if opt.get('url_scheme'):
            sch = [opt['url_scheme']]
        host = opt.get('url_netloc') or self.m.root.get('host') or netloc or 'localhost'
        full = (self.m.root.get('basePath') or '') + path
        for n in sorted(self.security_names()):
            if creds and n in creds:
                kind, key, val = creds[n]
                if kind == 'header':
                    hdr[key] = val
                else:
                    query = [q for q in query if q[0] != key] + [(key, val)]
        w = {'method': self.method.upper(), 'schemes': sch, 'host': host, 'path': full, 'query': query, 'headers': hdr}
        if files:
            w['multipart'] = (form, files)
        elif form:
            ct = 'application/x-www-form-urlencoded'
            if self.consumes and ct not in self.consumes:
                return 'content type'
            w['form'] = form
        elif has_body:
            ct = consume or (self.consumes[0] if self.consumes else 'application/json')
            if self.consumes and ct not in self.consumes:
                return 'content type'
            w['content_type'] = ct
            w['body'] = body
            w['plain'] = ct == 'text/plain'
        accept = produce or (self.produces[0] if self.produces else None)
        if accept:
            if self.produces and accept not in self.produces:
                return 'accept'
            hdr['Accept'] = accept
        return w

    # -- json -------------------------------------------------------------------
    def write(self, schema, doc, v):
        return convert(self.m, schema, doc, v, False)

    def read(self, schema, doc, v):
        return convert(self.m, schema, doc, v, True)


def quote(s):
    return urllib.parse.quote(s, safe='')


def pyvalue(v):
    """decode {'$py': [kind, text]} of a plan into the python object to pass"""
    import datetime
    import uuid
    if isinstance(v, dict) and '$py' in v:
        k, s = v['$py']
        if k == 'date':
            return datetime.date(*[int(x) for x in s.split('-')])
        if k == 'datetime':
            return datetime.datetime(*[int(x) for x in re.split('[-T:]', s)])
        if k == 'uuid':
            return uuid.UUID(s)
    if isinstance(v, dict):
        return dict((k, pyvalue(x)) for k, x in v.items())
    if isinstance(v, list):
        return [pyvalue(x) for x in v]
    return v


def text(d, v):
    """the text of one primitive value outside of a body"""
    if isinstance(v, dict) and '$py' in v:
        return v['$py'][1]
    t, f = d.get('type'), d.get('format')
    if t == 'integer' or t == 'number' and f in ('int32', 'int64'):
        return str(int(v))
    if t == 'number':
        return repr(float(v))
    if t == 'boolean':
        return 'true' if v else 'false'
    return v


def texts(p, v):
    if p['type'] != 'array':
        return [text(p, v)]
    vals = [text(p['items'], x) for x in v]
    if p.get('uniqueItems'):
        out = []
        for x in vals:
            if x not in out:
                out.append(x)
        vals = out
    cf = p.get('collectionFormat', 'csv')
    if cf == 'multi':
        return vals
    return [{'csv': ',', 'ssv': ' ', 'tsv': '\t', 'pipes': '|'}[cf].join(vals)]


def prim_json(d, v, read):
    if isinstance(v, dict) and '$py' in v:
        return v['$py'][1]
    t, f = d.get('type'), d.get('format')
    if t == 'integer':
        return int(v)
    if t == 'number':
        return int(v) if f in ('int32', 'int64') else float(v)
    if t == 'boolean':
        return bool(v)
    if f in ('byte', 'binary'):
        return base64.urlsafe_b64encode(v.encode('utf-8')).decode('ascii')
    return v


def all_props(m, schema, doc):
    """every property an object schema declares or inherits"""
    s, d = m.deref(schema, doc)
    out = {}
    for a in s.get('allOf', ()):
        out.update(all_props(m, a, d))
    for k, p in s.get('properties', {}).items():
        out[k] = (p, d)
    return out


def convert(m, schema, doc, v, read):
    s, d = m.deref(schema, doc)
    if v is None:
        return None
    t = s.get('type')
    if t == 'array':
        return [convert(m, s['items'], d, x, read) for x in v]
    if t == 'object' or 'allOf' in s or 'properties' in s:
        props = all_props(m, s, d)
        out = {}
        addp = s.get('additionalProperties', True)
        for k, x in v.items():
            if k in props:
                out[k] = convert(m, props[k][0], props[k][1], x, read)
            elif addp is True:
                out[k] = x
            elif addp is not False:
                out[k] = convert(m, addp, d, x, read)
        for k, (p, pd) in props.items():
            # a default that is written where the property is declared
            if k not in out and 'default' in p:
                out[k] = convert(m, p, pd, p['default'], read)
        return out
    if t is None:
        return v
    return prim_json(s, v, read)


def gen_value(rng, m, schema, doc, py=False, full=False, depth=0):
    """a value that a schema describes"""
    from .gen import gen_prim_value, chance
    s, d = m.deref(schema, doc)
    t = s.get('type')
    if t == 'array':
        return [gen_value(rng, m, s['items'], d, py, full, depth + 1) for _ in range(rng.randint(0 if depth else 1, 3))]
    if t == 'object' or 'allOf' in s or 'properties' in s:
        props = all_props(m, s, d)
        req = set(required(m, s, d))
        out = {}
        for k in sorted(props):
            if full or k in req or chance(rng, .65 if depth < 2 else .3):
                out[k] = gen_value(rng, m, props[k][0], props[k][1], py, full, depth + 1)
        addp = s.get('additionalProperties', True)
        if isinstance(addp, dict) and chance(rng, .5):
            out['extra1'] = gen_prim_value(rng, addp, 'body')
        if not out and props:
            k = sorted(props)[0]
            out[k] = gen_value(rng, m, props[k][0], props[k][1], py, full, depth + 1)
        return out
    return gen_prim_value(rng, s, 'body', py)


def required(m, schema, doc):
    s, d = m.deref(schema, doc)
    out = list(s.get('required', ()))
    for a in s.get('allOf', ()):
        out.extend(required(m, a, d))
    return out


# --- comparing a wire with the model's canonical request --------------------------------------

LIBRARY_HEADERS = set(['user-agent', 'accept-encoding', 'connection', 'content-length', 'host', 'accept', 'content-type', 'transfer-encoding'])


def group(pairs):
    out = {}
    for k, v in pairs:
        out.setdefault(k, []).append(v)
    return out


INSTANT = re.compile(r'(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d)(?:\.(\d+))?(Z|[+-]\d\d:\d\d)?')


def instants(s):
    """the text with its date-times written one way, up to microseconds"""
    return INSTANT.sub(lambda m: m.group(1) + '.' + (m.group(2) or '').ljust(6, '0')[:6] + {None: '', 'Z': '+00:00', '-00:00': '+00:00'}.get(m.group(3), m.group(3) or ''), s)


def same_texts(a, b):
    """lists of texts, booleans compared without case"""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        if instants(x) == instants(y):
            continue
        if {x.lower(), y.lower()} <= {'true', 'false'} and x.lower() == y.lower():
            continue
        # an array of booleans
        if x.lower() == y.lower() and ('true' in x.lower() or 'false' in x.lower()):
            continue
        if num(x) is not None and num(x) == num(y):
            continue
        return False
    return True


def num(x):
    try:
        return float(x)
    except ValueError:
        return None


def parse_multipart(body, ctype):
    """strict multipart/form-data parser: [(name, filename or None, content type or None, bytes)]"""
    mm = re.search(r'boundary="?([^";]+)"?', ctype)
    if not mm:
        raise ValueError('no boundary in %r' % ctype)
    bd = mm.group(1).encode('latin-1')
    delim = b'\r\n--' + bd
    data = b'\r\n' + body
    parts = []
    i = data.find(delim)
    if i != 0:
        raise ValueError('does not start with the boundary')
    while True:
        i += len(delim)
        if data[i:i + 2] == b'--':
            rest = data[i + 2:]
            if rest not in (b'', b'\r\n'):
                raise ValueError('data after the final boundary: %r' % rest[:60])
            return parts
        if data[i:i + 2] != b'\r\n':
            raise ValueError('boundary line continues: %r' % data[i:i + 30])
        i += 2
        j = data.find(delim, i - 2)
        if j < 0:
            raise ValueError('no final boundary')
        part = data[i:j]
        h, sep, content = part.partition(b'\r\n\r\n')
        if not sep:
            raise ValueError('part without header end')
        hd = {}
        for ln in h.split(b'\r\n'):
            k, c, v = ln.partition(b':')
            if not c:
                raise ValueError('bad part header %r' % ln)
            if k.strip().lower() in hd:
                raise ValueError('repeated part header %r' % ln)
            hd[k.strip().lower()] = v.strip()
        for k in hd:
            if k not in (b'content-disposition', b'content-type', b'content-transfer-encoding', b'content-length'):
                raise ValueError('unexpected part header %r' % k)
        cd = hd.get(b'content-disposition', b'').decode('utf-8')
        name, fname = disposition(cd)
        ct = hd.get(b'content-type')
        cte = hd.get(b'content-transfer-encoding')
        parts.append((name, fname, ct.decode('latin-1') if ct is not None else None, content, cte.decode('latin-1') if cte is not None else None))
        i = j


def disposition(cd):
    """name and filename of a Content-Disposition value (quoted-string with
    backslash or percent escapes, or RFC 2231 filename*)"""
    if not cd.lower().startswith('form-data'):
        raise ValueError('disposition %r' % cd)
    rest = cd[len('form-data'):]
    out = {}
    while rest:
        mm = re.match(r'\s*;\s*([A-Za-z*]+)\s*=\s*("(?:[^"\\]|\\.)*"|[^;]*)', rest, re.S)
        if not mm:
            raise ValueError('disposition %r' % cd)
        k, v = mm.group(1).lower(), mm.group(2)
        if v.startswith('"'):
            v = v[1:-1]
        if k in out:
            raise ValueError('repeated %s in %r' % (k, cd))
        out[k] = v
        rest = rest[mm.end():]
    def star(v):
        enc, _, val = v.split("'", 2)
        return urllib.parse.unquote(val, encoding=enc or 'utf-8')
    name = star(out['name*']) if 'name*' in out else out.get('name')
    fname = star(out['filename*']) if 'filename*' in out else out.get('filename')
    return name, fname


def name_readings(s):
    """what a quoted name may mean: browsers (and urllib3) escape quotes and
    line breaks as %22, %0D, %0A and nothing else; others use backslashes"""
    if s is None:
        return (None,)
    return (s, s.replace('%22', '"').replace('%0D', '\r').replace('%0A', '\n'), re.sub(r'\\(.)', r'\1', s, flags=re.S))


def compare_wire(exp, wire, user_headers=None, creds_names=()):
    """difference between expected canonical request and a wire, or None"""
    if wire.method != exp['method']:
        return 'method %s, expected %s' % (wire.method, exp['method'])
    u = urllib.parse.urlsplit(wire.url)
    if u.scheme not in exp['schemes']:
        return 'scheme %s, expected %s' % (u.scheme, exp['schemes'])
    host = u.netloc
    if host != exp['host']:
        return 'host %s, expected %s' % (host, exp['host'])
    a = [urllib.parse.unquote(x) for x in u.path.split('/')]
    b = [urllib.parse.unquote(x) for x in exp['path'].split('/')]
    if wire.client == 'flask':
        # a WSGI server sees the path unquoted
        a, b = '/'.join(a), '/'.join(b)
    if a != b and not same_texts(a if isinstance(a, list) else a.split('/'), b if isinstance(b, list) else b.split('/')):
        return 'path %s, expected %s' % (u.path, exp['path'])
    if u.fragment:
        return 'fragment in url %s' % wire.url
    q = group(urllib.parse.parse_qsl(u.query, keep_blank_values=True))
    e = group(exp['query'])
    if set(q) != set(e) or any(not same_texts(q[k], e[k]) for k in q):
        return 'query %s, expected %s' % (q, e)
    # headers
    want = {}
    for k, v in exp['headers'].items():
        want.setdefault(k.lower(), []).append(v)
    for k, v in user_headers or ():
        want.setdefault(k.lower(), []).append(v)
    have = {}
    for k, v in wire.headers:
        have.setdefault(k.lower(), []).append(v)
    if wire.client == 'flask':
        # the environment of a WSGI application doesn't tell - from _
        want = dict((k.replace('_', '-'), v) for k, v in want.items())
        have = dict((k.replace('_', '-'), v) for k, v in have.items())
    for k, v in want.items():
        if k not in have:
            return 'header %s missing, expected %s' % (k, v)
        own = [x for n, x in exp['headers'].items() if n.lower() == k]
        added = split([x for n, x in user_headers or () if n.lower() == k])
        if own and added:
            # what a caller adds to a header of the operation comes behind it
            got = split(have[k])
            if not same_texts(got[:-len(added)], split(own)) or got[-len(added):] != added:
                return 'header %s: %s, expected %s' % (k, have[k], v)
            continue
        if not same_texts(sorted(split(have[k])), sorted(split(v))):
            return 'header %s: %s, expected %s' % (k, have[k], v)
        if k not in set(x.lower() for x in exp['headers']) and split(have[k]) != split(v):
            return 'header %s: %s, not in the order %s' % (k, have[k], v)
    for k in have:
        if k not in want and k not in LIBRARY_HEADERS:
            return 'unexpected header %s: %s' % (k, have[k])
    if 'accept' in have and 'accept' not in want and have['accept'] != ['*/*']:
        return 'unexpected accept %s' % have['accept']
    # body
    ct = (have.get('content-type') or [''])[0]
    body = wire.body
    if isinstance(body, str):
        body = body.encode('utf-8')
    body = body or b''
    if 'multipart' in exp:
        return None if not ct == '' else 'no content type on multipart'
    if 'form' in exp:
        if ct.split(';')[0] != 'application/x-www-form-urlencoded':
            return 'content type %r, expected a form' % ct
        f = group(urllib.parse.parse_qsl(body.decode('utf-8'), keep_blank_values=True))
        e = group(exp['form'])
        if set(f) != set(e) or any(not same_texts(f[k], e[k]) for k in f):
            return 'form %s, expected %s' % (f, e)
        return None
    if 'body' in exp:
        if ct != exp['content_type']:
            return 'content type %r, expected %r' % (ct, exp['content_type'])
        if exp['plain']:
            if body.decode('utf-8') != exp['body']:
                return 'body %r, expected %r' % (body, exp['body'])
            return None
        try:
            got = json.loads(body.decode('utf-8'))
        except ValueError:
            return 'body is not json: %r' % body[:80]
        d = jdiff(got, exp['body'])
        return d and 'body: ' + d
    if body:
        return 'unexpected body %r' % body[:80]
    if ct:
        return 'unexpected content type %r' % ct
    return None


def split(vals):
    """header values: repeated headers mean the same as one joined by commas"""
    return [x.strip() for v in vals for x in v.split(',')]


def jdiff(a, b, at=''):
    """difference of two json values, or None"""
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a is b else '%s: %r, expected %r' % (at or '.', a, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return None if a == b else '%s: %r, expected %r' % (at or '.', a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return '%s/%s: missing, expected %r' % (at, k, b[k])
            if k not in b:
                return '%s/%s: unexpected %r' % (at, k, a[k])
            d = jdiff(a[k], b[k], '%s/%s' % (at, k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d items, expected %d' % (at or '.', len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = jdiff(x, y, '%s/%d' % (at, i))
            if d:
                return d
        return None
    if isinstance(a, str) and isinstance(b, str) and instants(a) == instants(b):
        return None
    if type(a) != type(b) and not (isinstance(a, str) and isinstance(b, str)):
        return '%s: %r, expected %r' % (at or '.', a, b)
    return None if a == b else '%s: %r, expected %r' % (at or '.', a, b)
