"""shared by the scenarios"""
import hashlib
import json
import os
import traceback

from .. import model, observe
from ..gen import chance, pick, gen_param_value


def h(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode('utf-8', 'backslashreplace')).hexdigest()[:16]


def tb(e, n=3):
    out = []
    for fr in traceback.extract_tb(e.__traceback__)[-n:]:
        out.append('%s:%d %s' % (os.path.basename(fr.filename), fr.lineno, fr.name))
    return '(' + ' < '.join(reversed(out)) + ')'


def components(kind):
    real = ['pyswagger (all of it, from the working tree of /repo; every statement is a scheduling point)', 'json, yaml, weakref and the garbage collector']
    stub = ['clock and sleep (virtual)', 'os.urandom and random (seeded)', 'thread scheduling, threading.Lock/RLock (simulated)']
    if kind in ('load', 'both'):
        real += ['urllib and http.client down to the socket', 'io.TextIOWrapper/BufferedReader over simulated raw files']
        stub += ['document servers, sockets and the file system below /simfs (in memory, with faults)']
    if kind in ('call', 'both'):
        real += ['requests Session/prepare/Response with urllib3 and http.client response parsing', 'werkzeug test client', 'tornado HTTPRequest/HTTPResponse and AsyncHTTPClient down to fetch_impl, asyncio']
        stub += ['the API server and the network between it and the clients (HTTPAdapter.send, fetch_impl, the WSGI application)', 'the event loop clock']
    return {'real': real, 'stub': stub}


def gen_args(rng, m, om, rid, files=None):
    """arguments for one call of an operation, as plan JSON"""
    args = {}
    for p, d in om.params:
        n = p['name']
        if n in ('rid', 'X-Rid') and p.get('type') == 'string':
            args[n] = rid
            continue
        if not p.get('required') and chance(rng, .35):
            continue
        if p['in'] == 'body':
            args[n] = model.gen_value(rng, m, p['schema'], d, py=True)
        elif p.get('type') == 'file':
            args[n] = {'$file': files(rng)} if files else {'$file': gen_file(rng)}
        elif p.get('type') == 'array' and p['items'].get('type') == 'file':
            args[n] = [{'$file': (files or gen_file)(rng)} for _ in range(pick(rng, [1, 2, 2, 3, 3, 11]))]
        else:
            args[n] = gen_param_value(rng, p, p['in'])
    return args


def gen_file(rng):
    return {'data': pick(rng, ['', 'x', 'hello\nworld', 'a' * 300]), 'filename': pick(rng, ['a.txt', 'b.bin', 'c d.txt']), 'ctype': pick(rng, [None, 'text/plain', 'image/png'])}


def gen_cred(rng, d, tag):
    t = 'cred-%s-%d' % (tag, rng.randrange(1000))
    if d['type'] == 'basic':
        return [t, pick(rng, ['secret', 'pass:word', ' p w ', ''])]
    if d['type'] == 'apiKey' and d['in'] == 'query':
        return t + pick(rng, ['', ' and space', '&x=1', '+=/'])
    return t + pick(rng, ['', ' tail', '='])


def gen_secs(rng, api, n):
    """credentials of `n` Security objects; some schemes stay without"""
    defs = api['docs'][api['entry']].get('securityDefinitions') or {}
    return [dict((k, gen_cred(rng, defs[k], '%d-%s-v0' % (i, k))) for k in sorted(defs) if chance(rng, .8)) for i in range(n)]


def gen_plain_calls(rng, api, n):
    m = model.Model(api['docs'], api['entry'])
    ops = m.ops()
    out = []
    for i in range(n):
        k = pick(rng, sorted(ops))
        out.append({'op': k, 'args': gen_args(rng, m, ops[k], 'rid-%d-z' % i)})
    return out


def pyargs(args, opener=None):
    """plan JSON to the objects to pass"""
    import io

    def conv(v):
        if isinstance(v, dict) and '$file' in v:
            f = v['$file']
            out = {'filename': f['filename'], 'data': io.BytesIO(f['data'].encode('latin-1'))}
            if f.get('ctype'):
                out['header'] = {'Content-Type': f['ctype']}
            return out
        if isinstance(v, dict) and '$py' in v:
            return model.pyvalue(v)
        if isinstance(v, dict):
            return dict((k, conv(x)) for k, x in v.items())
        if isinstance(v, list):
            return [conv(x) for x in v]
        return v
    return dict((k, conv(v)) for k, v in args.items())


def body_of(data):
    """a JSON body without the order of its members, which is the order of
    the document and differs between formats"""
    if isinstance(data, (str, bytes)):
        try:
            return ['json', json.dumps(json.loads(data), sort_keys=True)]
        except ValueError:
            pass
    return data


def requests_of(app, pub, calls):
    """requests as built, without sending them"""
    out = []
    for c in calls:
        try:
            req, _ = app.op[c['op']](**pyargs(c['args']))
            req.prepare(scheme='http', handle_files=False)
            url = req.url
            if not app.root.host:
                url = url.replace('//' + (pub.netloc or 'localhost'), '//<netloc>', 1)
            data = body_of(req.data)
            out.append(h([req.method, url, req.path, req.base_path, sorted(map(list, req.query)), sorted((k.lower(), v) for k, v in req.header.items()),
                          data if isinstance(data, (str, list, type(None))) else repr(data), sorted(req.files)]))
        except Exception as e:
            out.append('%s: %s %s' % (type(e).__name__, str(e)[:200], tb(e)))
    return out


# --- references -----------------------------------------------------------------------------

def esc(t):
    return t.replace('~', '~0').replace('/', '~1')


def ref_targets(api):
    """every [document, pointer, kind] of a 2.0 document set that a reference
    may name; kind tells which parser the caller has to pass"""
    out = []

    def schema(doc, jp, n, depth=0):
        out.append([doc, jp, 'schema'])
        if depth > 2 or not isinstance(n, dict):
            return
        for k in sorted(n.get('properties') or {}):
            schema(doc, jp + '/properties/' + esc(k), n['properties'][k], depth + 1)
        for i, x in enumerate(n.get('allOf') or ()):
            schema(doc, jp + '/allOf/%d' % i, x, depth + 1)
        if isinstance(n.get('items'), dict):
            schema(doc, jp + '/items', n['items'], depth + 1)
        if isinstance(n.get('additionalProperties'), dict):
            schema(doc, jp + '/additionalProperties', n['additionalProperties'], depth + 1)

    for doc in sorted(api['docs']):
        d = api['docs'][doc]
        full = 'swagger' in d
        if full:
            out.append([doc, '#', 'swagger'])
        elif not set(d) & set(['definitions', 'parameters', 'responses', 'pathitems', 'x-types']) and d:
            schema(doc, '#', d)
            continue
        for k in sorted(d.get('definitions') or {}):
            schema(doc, '#/definitions/' + esc(k), d['definitions'][k])
        for k in sorted(d.get('x-types') or {}):
            schema(doc, '#/x-types/' + esc(k), d['x-types'][k])
        for k in sorted(d.get('parameters') or {}):
            out.append([doc, '#/parameters/' + esc(k), 'parameter'])
        for k in sorted(d.get('responses') or {}):
            out.append([doc, '#/responses/' + esc(k), 'response'])
            s = d['responses'][k].get('schema')
            if s:
                schema(doc, '#/responses/%s/schema' % esc(k), s)
        for k in sorted(d.get('pathitems') or {}):
            out.append([doc, '#/pathitems/' + esc(k), 'pathitem'])
        for k in sorted(d.get('paths') or {}):
            pi = d['paths'][k]
            if '$ref' in pi:
                continue
            out.append([doc, '#/paths/' + esc(k), 'pathitem'])
            for m in model.METHODS:
                if m in pi:
                    out.append([doc, '#/paths/%s/%s' % (esc(k), m), 'operation'])
    return out


def bad_targets(rng, api):
    """references to nothing"""
    ts = ref_targets(api)
    doc, jp, kind = pick(rng, ts)
    k = rng.randrange(9)
    if k == 6:
        # no such element of a list
        lists = [t for t in ts if t[1].rsplit('/', 1)[0].endswith('/allOf')]
        if lists:
            doc, jp, kind = pick(rng, lists)
            n = len([t for t in lists if t[0] == doc and t[1].rsplit('/', 1)[0] == jp.rsplit('/', 1)[0]])
            return [doc, jp.rsplit('/', 1)[0] + '/' + pick(rng, [str(n), str(n + 1), '-1', '-%d' % n, '00', '01', '+0', ' 0', '0x0', '', 'x', '99999999999999999999']), kind]
    if k == 7:
        # not in the document, whatever the python object might have
        return [doc, jp + '/' + pick(rng, ['final', 'ref_obj', 'name', 'dump', 'resolve', 'merge', '_parent_', '_children_', '__class__', '__dict__', 'method', 'url', 'base_path',
                                           'cached_schemes', 'readOnly', 'collectionFormat', 'deprecated', 'maximum', 'exclusiveMaximum', 'externalDocs', 'example', 'xml', 'ref', '$ref']), kind]
    if k == 8:
        # below something that is not an object
        return [doc, jp + pick(rng, ['/type', '/description', '/format', '/required', '/in', '/operationId', '/summary']) + pick(rng, ['/x', '/0/x', '/', '/length']), kind]
    if k == 0:
        return [pick(rng, ['gone.json', 'defs/gone.json']), '#/definitions/X', 'schema']
    if k == 1:
        return [doc, jp + '/nope', kind]
    if k == 2:
        return [doc, '#/definitions/Nope', 'schema']
    if k == 3 and jp.count('/') == 2:
        return [doc, jp[:-1] + '_', kind]
    if k == 4 and jp != '#':
        return [doc, jp + 'List', kind]
    return [doc, '#/nope/nope', 'schema']


def plain_targets(api):
    """things in documents that are no objects of the specification"""
    out = []
    for doc, jp, kind in ref_targets(api):
        n = model.Model(api['docs'], api['entry']).node(doc, jp)
        for k in ('description', 'type', 'required', 'enum', 'properties', 'allOf', 'operationId', 'definitions', 'parameters', 'responses'):
            if isinstance(n, dict) and n.get(k) not in (None, [], {}) and not (k == 'parameters' and kind == 'operation'):
                out.append([doc, (jp if jp != '#' else '#') + '/' + k, None])
    return out


def exists(api, t):
    try:
        model.Model(api['docs'], api['entry']).node(t[0], t[1])
        return True
    except model.Missing:
        return False


def parser_of(kind):
    from pyswagger.spec.v2_0 import parser as p
    return {None: None, 'schema': p.SchemaContext, 'parameter': p.ParameterContext, 'response': p.ResponseContext,
            'pathitem': p.PathItemContext, 'operation': p.OperationContext, 'swagger': p.SwaggerContext}[kind]


def resolve(app, pub, t, local=False):
    doc, jp, kind = t[:3]
    if local and doc == pub.back[pub.entry]:
        return app.resolve(jp, parser_of(kind))
    return app.resolve(pub.absolute(doc + ('' if jp == '#' and len(t) > 3 and t[3] else jp)), parser_of(kind))


def expected_of(api, t):
    """the raw node a reference means and the document it is in"""
    m = model.Model(api['docs'], api['entry'])
    return m, m.node(t[0], t[1])


def faithful(api, t, desc):
    """difference between a resolved object's description and the documents"""
    m, raw = expected_of(api, t)
    if 'swagger' in raw:
        # not part of the specification: no attribute of a Swagger object
        raw = dict((k, v) for k, v in raw.items() if k not in ('pathitems', 'x-types'))
    e = observe.contains(desc['obj'], raw, t[0], m, exact=False)
    if e:
        return e
    for ref, d in desc['refs'].items():
        node, doc = m.deref({'$ref': ref}, '')
        e = observe.contains(d, node, doc, m, exact=False)
        if e:
            return 'reference %s: %s' % (ref, e)
    return None


def parse_something(app, api, call, seed):
    """let an operation read a response as its description says"""
    import random
    rng = random.Random('%s' % seed)
    m = model.Model(api['docs'], api['entry'])
    om = m.ops().get(call['op'])
    if om is None:
        return None
    _, resp = app.op[call['op']](**pyargs(call['args']))
    st = pick(rng, sorted(k for k in om.op['responses']) or ['200'])
    st = 299 if st == 'default' else int(st)
    r, d = om.response(st)
    if not r or not r.get('schema'):
        resp.apply_with(status=st, raw=b'', header={})
        return resp
    v = model.gen_value(rng, m, r['schema'], d)
    resp.apply_with(status=st, header={'Content-Type': 'application/json'}, raw=json.dumps(v).encode('utf-8'))
    return resp


def typed(api, op, name):
    """is a parameter anything but a plain form string?"""
    m = model.Model(api['docs'], api['entry'])
    p, _ = m.ops()[op].param(name)
    return p is None or p['in'] != 'formData' or p.get('type') != 'string' or bool(p.get('format')) or bool(p.get('enum')) or any(k in p for k in ('minLength', 'maxLength'))
