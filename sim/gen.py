"""Generators: document sets and programs of calls.  Everything they return is
plain JSON, drawn from one random.Random."""
import posixpath

NAMES = ['User', 'UserList', 'Us', 'User~x', 'a/b', 'Item', 'ItemRef', 'Order', 'OrderLine', 'Pet', 'Pets', 'Tag', 'T', 'Err', 'Error', 'Node', u'List\xabPet\xbb', 'My Type', 'a~1b', 'User~01x']
PROPS = ['id', 'name', 'kind', 'n', 'flag', 'when', 'day', 'tags', 'owner', 'ref', 'note', 'amount', 'uid', 'meta']
TEXTS = ['x', 'hello world', 'a+b', 'a&b=c', '50%', 'q?x#y', 'a/b', u'caf\xe9', u'\u65e5\u672c', 'yes', 'null', '1.0', '007', "it's", 'say "hi"', 'back\\slash', 'a:b', 'UPPER', 'tab\there', '%41', 'a;b', '~tilde', '{brace}', u'\U0001f40d', ' lead', 'trail ', 'line\nbreak']
HTEXTS = ['x', 'hello world', 'a+b', 'a=b; c', '50%', 'q?x#y', 'a/b', 'UPPER', 'comma,d', '"quoted"', '%41', 'tok-123', '{brace}']
WORDS = ['alpha', 'beta', 'gamma', 'delta', 'omega', 'pi']


def pick(rng, seq):
    return seq[rng.randrange(len(seq))]


def chance(rng, p):
    return rng.random() < p


def sub(rng, seq, lo=0, hi=None):
    seq = list(seq)
    n = rng.randint(lo, min(len(seq), hi if hi is not None else len(seq)))
    rng.shuffle(seq)
    return seq[:n]


# --- primitive types ----------------------------------------------------------------

def gen_prim(rng, loc, allow_byte=False, plain=False):
    """a primitive type description valid at a location"""
    t = pick(rng, ['string', 'string', 'integer', 'integer', 'number', 'boolean', 'date', 'date-time', 'uuid', 'enum'] + (['byte'] if allow_byte else []))
    d = {}
    if t == 'string':
        d = {'type': 'string'}
        if not plain and chance(rng, .2):
            d['maxLength'] = 40
        if not plain and chance(rng, .1):
            d['format'] = 'password'
    elif t == 'integer':
        d = {'type': 'integer'}
        if chance(rng, .6):
            d['format'] = pick(rng, ['int32', 'int64'])
        if not plain and chance(rng, .3):
            d['minimum'] = -1000
            d['maximum'] = 100000
    elif t == 'number':
        d = {'type': 'number'}
        if chance(rng, .5):
            d['format'] = pick(rng, ['float', 'double'])
        if not plain and chance(rng, .15):
            # json and yaml write these differently
            d['minimum'] = pick(rng, [-1e22, -1000.5, -2.5e5])
            d['maximum'] = pick(rng, [1e22, 1e6, 12345678901234567890])
    elif t == 'boolean':
        d = {'type': 'boolean'}
    elif t == 'enum':
        d = {'type': 'string', 'enum': list(WORDS[:rng.randint(2, 6)])}
    else:
        d = {'type': 'string', 'format': t}
    return d


def gen_prim_value(rng, d, loc, py=False):
    """a value for a primitive; {'$py': [kind, text]} stands for a python object"""
    t, f = d.get('type'), d.get('format')
    if t == 'integer':
        return pick(rng, [0, 1, 7, 42, 999, 65536, rng.randint(-900, 90000)])
    if t == 'number':
        return pick(rng, [0.5, 1.25, -2.75, 1024.0, 3, 1e-3, 0, 0.0])
    if t == 'boolean':
        return chance(rng, .5)
    if d.get('enum'):
        return pick(rng, d['enum'])
    if f == 'date':
        s = '20%02d-%02d-%02d' % (rng.randint(0, 37), rng.randint(1, 12), rng.randint(1, 28))
        return {'$py': ['date', s]} if py and chance(rng, .4) else s
    if f == 'date-time':
        s = '20%02d-%02d-%02dT%02d:%02d:%02d' % (rng.randint(0, 37), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
        if py and chance(rng, .4):
            return {'$py': ['datetime', s]}
        return s + pick(rng, ['', '', '', '.5', '.25', '.001', '.000007', '.123456', '.1234567', '.9999999999']) + pick(rng, ['', '+00:00', '+09:30', '-05:00', 'Z', '-03:30', '-00:30'])
    if f == 'uuid':
        s = '%08x-%04x-4%03x-a%03x-%012x' % (rng.getrandbits(32), rng.getrandbits(16), rng.getrandbits(12), rng.getrandbits(12), rng.getrandbits(48))
        return {'$py': ['uuid', s]} if py and chance(rng, .4) else s
    if f == 'byte':
        return pick(rng, ['hello', 'a b c', 'x' * 20])
    if loc == 'header':
        return pick(rng, HTEXTS)
    s = pick(rng, TEXTS) if loc == 'path' or not chance(rng, .06) else ''
    if loc == 'path' and s.strip('.') == '':
        s = 'x'
    return s


# --- schemas ------------------------------------------------------------------------------

class Universe(object):
    """documents under construction"""

    def __init__(self, rng, ndocs=3, ndefs=6, cyclic=False, kinds=('bag', 'full', 'bare')):
        self.rng = rng
        self.docs = {}
        self.parts = []
        self.kind = {}
        self.shapes = {}
        self.defs = []               # (doc, pointer) in an order that references respect
        self.entry = 'swagger.json'
        self.docs[self.entry] = {'swagger': '2.0', 'info': {'title': pick(rng, TEXTS[:10]), 'version': '1.0'}, 'paths': {}}
        self.kind[self.entry] = 'full'
        pool = ['defs.json', 'defs/common.json', 'defs/common2.json', 'ext/full.json', 'ext/User.json', 'ext/UserList.json', 'other/deep/types.json', 'full2.json', 'my types.json', u'donn\xe9es/defs (1).json']
        for n in sub(rng, pool, min(ndocs - 1, len(pool)), ndocs - 1):
            k = pick(rng, [x for x in kinds])
            if n.startswith('ext/User') and 'bare' in kinds:
                k = 'bare'
            if n.endswith('full.json') or n.endswith('full2.json'):
                k = 'full' if 'full' in kinds else 'bag'
            self.kind[n] = k
            if k == 'bag':
                self.docs[n] = {}
            elif k == 'full':
                self.docs[n] = {'swagger': '2.0', 'info': {'title': 'ext ' + n, 'version': '2'}, 'paths': {}}
            else:
                self.docs[n] = None      # filled when first used
        self._fill(ndefs)
        for n in sorted(self.docs):
            if self.docs[n] is None:
                self.docs[n] = self.relativise(self.schema(2), n)
                self.defs.append((n, '#'))

    def _fill(self, ndefs):
        rng = self.rng
        for _ in range(ndefs):
            n = pick(rng, sorted(self.docs))
            s = self.schema(2, top=True)
            if self.kind[n] == 'bare':
                if self.docs[n] is not None:
                    continue
                self.docs[n] = self.relativise(s, n)
                self.shapes[n, '#'] = self.shape(s)
                self.defs.append((n, '#'))
                continue
            sec = 'x-types' if chance(rng, .12) else 'definitions'
            d = self.docs[n].setdefault(sec, {})
            free = [x for x in NAMES if x not in d]
            if not free:
                continue
            name = pick(rng, free)
            d[name] = self.relativise(s, n)
            self.defs.append((n, '#/%s/' % sec + name.replace('~', '~0').replace('/', '~1')))
            self.shapes[self.defs[-1]] = self.shape(s)

    # references are generated as ('$abs', doc, pointer) and made relative to
    # the document they end up in
    def relativise(self, node, doc):
        if isinstance(node, dict):
            if '$abs' in node:
                return {'$ref': self.rel(doc, node['$abs'])}
            return dict((k, self.relativise(v, doc)) for k, v in node.items())
        if isinstance(node, list):
            return [self.relativise(v, doc) for v in node]
        return node

    def rel(self, doc, target):
        tdoc, jp = target
        if tdoc == doc:
            return jp
        p = posixpath.relpath(tdoc, posixpath.dirname(doc) or '.')
        return p if jp == '#' else p + jp

    def aref(self):
        return {'$abs': list(pick(self.rng, self.defs))}

    def schema(self, depth, top=False):
        rng = self.rng
        k = rng.random()
        if self.defs and k < (.15 if top else .35):
            if top and k < .08:
                return self.aref()          # a definition that is only a reference
            if not top:
                return self.aref()
        if depth <= 0 or k < .45 and not top:
            return gen_prim(rng, 'body')
        if k < .6:
            d = {'type': 'array', 'items': self.schema(depth - 1)}
            return d
        if k < .72 and self.objects():
            o = self.obj(depth - 1)
            o.pop('additionalProperties', None)
            b = pick(rng, self.objects())
            inherited = sorted(self.shapes[b])
            for k in inherited:
                o['properties'].pop(k, None)
            o.pop('required', None)
            o.pop('discriminator', None)
            if not o['properties']:
                return {'$abs': list(b)}
            if chance(rng, .3):
                o['required'] = sorted(sub(rng, sorted(o['properties']) + (inherited if chance(rng, .5) else []), 1))
            if chance(rng, .5):
                return {'allOf': [{'$abs': list(b)}, o]}
            o['allOf'] = [{'$abs': list(b)}]
            if chance(rng, .3):
                o.pop('type')
            return o
        return self.obj(depth - 1)

    def objects(self):
        """definitions that are objects, whose properties are known"""
        return [d for d in self.defs if self.shapes.get(d) is not None]

    def shape(self, s):
        """names of all the properties of an object schema (references not yet relative)"""
        if '$abs' in s:
            return None
        if s.get('type', 'object') != 'object' or 'additionalProperties' in s:
            return None
        out = set(s.get('properties') or ())
        for a in s.get('allOf') or ():
            x = self.shapes.get(tuple(a['$abs'])) if '$abs' in a else self.shape(a)
            if x is None:
                return None
            out |= x
        return out

    def obj(self, depth):
        rng = self.rng
        props = {}
        for p in sub(rng, PROPS, 1, 4):
            s = self.schema(depth)
            if 'type' in s and s['type'] in ('integer', 'string') and 'format' not in s and 'enum' not in s and chance(rng, .15):
                s['default'] = 5 if s['type'] == 'integer' else 'dflt'
            props[p] = s
        o = {'type': 'object', 'properties': props}
        if chance(rng, .4):
            o['required'] = sorted(sub(rng, sorted(props), 1))
        names = [p for p in sorted(props) if props[p] == {'type': 'string'}]
        if names and chance(rng, .3):
            # the base of other models: this one tells which of them it is
            o['discriminator'] = pick(rng, names)
            o['required'] = sorted(set(o.get('required', [])) | set([o['discriminator']]))
        if chance(rng, .15):
            o['additionalProperties'] = pick(rng, [False, {'type': 'string'}, {'type': 'integer'}])
        if chance(rng, .3):
            o['description'] = pick(rng, TEXTS[:12])
        return o


# --- operations ------------------------------------------------------------------------------

def gen_param(rng, u, loc, name, required=None):
    p = {'name': name, 'in': loc}
    if loc != 'path' and chance(rng, .25):
        items = gen_prim(rng, loc, plain=True)
        cf = pick(rng, [None, 'csv', 'ssv', 'tsv', 'pipes'] + (['multi', 'multi'] if loc in ('query', 'formData') else []))
        if cf == 'tsv' and loc == 'header':
            cf = 'pipes'
        p.update({'type': 'array', 'items': items})
        if cf:
            p['collectionFormat'] = cf
        if chance(rng, .2):
            p['uniqueItems'] = True
    else:
        p.update(gen_prim(rng, loc))
    if loc == 'path':
        p['required'] = True
    elif required or (required is None and chance(rng, .4)):
        p['required'] = True
    elif p['type'] != 'array' and chance(rng, .25):
        v = gen_prim_value(rng, p, loc)
        p['default'] = v
    if chance(rng, .2):
        p['description'] = pick(rng, TEXTS[:12])
    return p


def gen_param_value(rng, p, loc):
    if p['type'] == 'array':
        n = rng.randint(1, 4)
        vals = [gen_prim_value(rng, p['items'], loc, py=True) for _ in range(n)]
        if p.get('uniqueItems') and chance(rng, .5):
            vals.append(vals[0])
        return vals
    return gen_prim_value(rng, p, loc, py=True)


FIELD_NAMES = ['field two', 'qu"ote', u'd\xe9', u'\u65e5', 'semi;x', 'eq=al', 'back\\s', "ap'os", 'file', 'name', 'filename', 'a[]']
JSON_TYPES = ['application/json', 'text/json']


def gen_api(rng, ndocs=2, ndefs=5, nops=4, security=False, files=False, refs=True, kinds=('bag', 'full', 'bare'), pathitem_ref=True, forms=True, parts=False):
    """an API with operations whose every call can be recognised on the wire
    by a request id (parameter 'rid' in path, query or header)"""
    u = Universe(rng, ndocs=ndocs, ndefs=ndefs, kinds=kinds)
    root = u.docs[u.entry]
    if parts:
        # documents of parameters and responses only: wanted late
        u.parts = ['parts/%s.json' % n for n in ('p', 'q', 'r')]
        for n in u.parts:
            u.docs[n] = {}
            u.kind[n] = 'bag'
    if chance(rng, .8):
        root['host'] = pick(rng, ['api.sim', 'api.sim:8080', 'sub.api.sim'])
    if chance(rng, .7):
        root['basePath'] = pick(rng, ['/v1', '/api/v2'])
    if chance(rng, .4):
        root['schemes'] = sub(rng, ['http', 'https'], 1)
    if chance(rng, .3):
        root['consumes'] = sub(rng, JSON_TYPES, 1)
    if chance(rng, .3):
        root['produces'] = sub(rng, JSON_TYPES, 1)
    if security:
        gen_security_defs(rng, root)
    shared = {}
    bags = [n for n in sorted(u.docs) if u.kind[n] != 'bare']
    for i in range(nops):
        gen_op(rng, u, root, i, shared, bags, security, files, refs, pathitem_ref, forms)
    for n in u.parts:
        if not u.docs[n]:
            del u.docs[n]
    return {'docs': u.docs, 'entry': u.entry}


def gen_security_defs(rng, root):
    sd = {}
    if chance(rng, .7):
        sd['basic1'] = {'type': 'basic'}
    if chance(rng, .7):
        sd['key_h'] = {'type': 'apiKey', 'in': 'header', 'name': 'X-Api-Key'}
    if chance(rng, .7):
        sd['key_q'] = {'type': 'apiKey', 'in': 'query', 'name': pick(rng, ['api_key', 'api_key', 'Authorization', 'X-Api-Key'])}
    if chance(rng, .5):
        sd['oauth'] = {'type': 'oauth2', 'flow': 'implicit', 'authorizationUrl': 'http://auth.sim', 'scopes': {'read': 'r'}}
    if chance(rng, .4):
        sd['key_h2'] = {'type': 'apiKey', 'in': 'header', 'name': pick(rng, ['X-Other-Key', 'api_key'])}
    if not sd:
        sd['key_h'] = {'type': 'apiKey', 'in': 'header', 'name': 'X-Api-Key'}
    root['securityDefinitions'] = sd
    if chance(rng, .5):
        root['security'] = gen_requirement(rng, sd)


def gen_header(rng):
    """what a response says about one of its headers"""
    def prim():
        return pick(rng, [{'type': 'integer'}, {'type': 'integer', 'format': 'int64', 'minimum': 0, 'maximum': 99}, {'type': 'number'}, {'type': 'number', 'format': 'double', 'minimum': -1.5},
                          {'type': 'boolean'}, {'type': 'string', 'format': 'date'}, {'type': 'string', 'format': 'date-time'}, {'type': 'string', 'format': 'uuid'},
                          {'type': 'string'}, {'type': 'string', 'minLength': 1, 'maxLength': 8}, {'type': 'string', 'enum': WORDS[:3]}])
    if chance(rng, .6):
        return prim()
    out = {'type': 'array', 'items': prim()}
    if chance(rng, .7):
        out['collectionFormat'] = pick(rng, ['csv', 'ssv', 'pipes', 'tsv'])
    if chance(rng, .2):
        out['maxItems'] = 3
    return out


def gen_header_text(rng, h):
    """what a server may send for it"""
    t, f = h['type'], h.get('format')
    if t == 'array':
        return {'csv': ',', 'ssv': ' ', 'pipes': '|', 'tsv': '\t'}[h.get('collectionFormat', 'csv')].join(gen_header_text(rng, h['items']) for _ in range(rng.randint(1, 3)))
    if t == 'integer':
        return str(rng.randint(0, 99) if 'maximum' in h else pick(rng, [0, -5, 9999, rng.randint(-5, 9999), 2 ** 31]))
    if t == 'number':
        return pick(rng, ['0', '0.5', '12', '1e3', '3.25', '100.0'] + ([] if 'minimum' in h else ['-7.5']))
    if t == 'boolean':
        return pick(rng, ['true', 'false', 'false', 'True', 'False'])
    if h.get('enum'):
        return pick(rng, h['enum'])
    if f == 'date':
        return '2015-0%d-1%d' % (rng.randint(1, 9), rng.randint(0, 9))
    if f == 'date-time':
        return '2015-0%d-1%dT0%d:30:00' % (rng.randint(1, 9), rng.randint(0, 9), rng.randint(0, 9)) + pick(rng, ['+02:00', 'Z', '-03:30', '.25Z', '.1234567-08:00', ''])
    if f == 'uuid':
        return '%08x-0000-4000-8000-%012x' % (rng.randrange(1 << 32), rng.randrange(1 << 48))
    return pick(rng, ['a', 'one', 'x', '0', 'False', '1e5', 'W/"q"'])


def gen_bad_header_text(rng, h):
    """what it must not send, or None"""
    t, f = h['type'], h.get('format')
    if t == 'array':
        sep = {'csv': ',', 'ssv': ' ', 'pipes': '|', 'tsv': '\t'}[h.get('collectionFormat', 'csv')]
        if 'maxItems' in h and chance(rng, .5):
            return sep.join(gen_header_text(rng, h['items']) for _ in range(h['maxItems'] + 1))
        b = gen_bad_header_text(rng, h['items'])
        if b is None:
            return None
        return sep.join([gen_header_text(rng, h['items']) for _ in range(rng.randint(0, 1))] + [b])
    if 'maximum' in h and chance(rng, .5):
        return pick(rng, ['100', '-1', '5000000000'])
    if 'minimum' in h and t == 'number' and chance(rng, .5):
        return pick(rng, ['-2', '-1.75', '-1e9'])
    if 'maxLength' in h:
        return 'abcdefghi'
    if h.get('enum'):
        return 'nope'
    if t == 'integer':
        return pick(rng, ['many', '1.5', '0x10', '--1'])
    if t == 'number':
        return pick(rng, ['many', '1.2.3', '1-2'])
    if f:
        return pick(rng, ['soon', '20150101', '1'])
    return None


def gen_requirement(rng, sd):
    names = sub(rng, sorted(sd), 1, 3)
    if chance(rng, .5):
        return [dict((n, []) for n in names)]
    return [{n: []} for n in names]


def place(rng, u, root, doc, section, name, node, refs, bags):
    """put a parameter/response inline, or behind a local or external reference"""
    if not refs or chance(rng, .25 if u.parts else .6):
        return u.relativise(node, doc)
    tdoc = pick(rng, u.parts or bags) if chance(rng, .6) else doc
    d = u.docs[tdoc].setdefault(section, {})
    d[name] = u.relativise(node, tdoc)
    tgt = (tdoc, '#/%s/%s' % (section, name))
    if chance(rng, .2):
        # one more hop
        t2 = pick(rng, u.parts or bags)
        u.docs[t2].setdefault(section, {})[name + 'Hop'] = {'$ref': u.rel(t2, tgt)}
        tgt = (t2, '#/%s/%sHop' % (section, name))
    return {'$ref': u.rel(doc, tgt)}


def gen_op(rng, u, root, i, shared, bags, security, files, refs, pathitem_ref, forms):
    method = pick(rng, ['get', 'get', 'post', 'post', 'put', 'delete', 'patch'])
    if files == 'only':
        method = pick(rng, ['post', 'post', 'put', 'patch'])
    ridloc = pick(rng, ['path', 'path', 'query', 'header'])
    base = pick(rng, ['/users', '/items', '/a/b', '/x-y', '/m;v=']) + str(i)
    params = []
    if ridloc == 'path':
        tpl = base + '/{rid}'
    else:
        tpl = base
    if chance(rng, .3):
        tpl += '/sub/{pk}'
        params.append(gen_param(rng, u, 'path', 'pk'))
    rid = {'name': 'X-Rid' if ridloc == 'header' else 'rid', 'in': ridloc, 'type': 'string', 'required': True}
    params.append(rid)
    for q in sub(rng, ['q', 'limit', 'sort', 'when', 'Api_Key', 'Limit'], 0, 3):
        params.append(gen_param(rng, u, 'query', q))
    for h in sub(rng, ['X-Trace', 'X-Level', 'x-lower'], 0, 2):
        params.append(gen_param(rng, u, 'header', h))
    op = {'operationId': 'op%d' % i, 'responses': {}}
    if chance(rng, .5):
        op['tags'] = [pick(rng, ['user', 'item'])]
    carrier = None
    if method in ('post', 'put', 'patch'):
        k = rng.random()
        if files == 'only' or files and k < .6:
            carrier = 'file'
        elif forms and k < .3:
            carrier = 'form'
        elif k < .85:
            carrier = 'body'
    elif method == 'delete' and chance(rng, .3):
        carrier = 'body'
    if carrier == 'body':
        if chance(rng, .12):
            op['consumes'] = ['text/plain']
            params.append({'name': 'payload', 'in': 'body', 'required': True, 'schema': {'type': 'string'}})
        else:
            s = u.aref() if u.defs and chance(rng, .7) else u.schema(2)
            b = {'name': 'payload', 'in': 'body', 'schema': s}
            if chance(rng, .7):
                b['required'] = True
            params.append(b)
            if chance(rng, .5):
                op['consumes'] = sub(rng, JSON_TYPES, 1)
    elif carrier == 'form':
        for f in sub(rng, ['f1', 'f2', 'fx', 'fy'], 1, 3):
            params.append(gen_param(rng, u, 'formData', f))
        if root.get('consumes') or chance(rng, .5):
            op['consumes'] = pick(rng, [['application/x-www-form-urlencoded'], ['multipart/form-data', 'application/x-www-form-urlencoded']])
    elif carrier == 'file':
        params.append({'name': 'file1', 'in': 'formData', 'type': 'file', 'required': True})
        if chance(rng, .4):
            params.append({'name': 'files', 'in': 'formData', 'type': 'array', 'items': {'type': 'file'}, 'required': chance(rng, .5)})
        for f in sub(rng, ['f1', 'f2', 'fx'], 0, 2):
            params.append(gen_param(rng, u, 'formData', f))
        if files == 'only':
            for f in sub(rng, FIELD_NAMES, 0, 3):
                k = rng.random()
                if k < .3:
                    params.append({'name': f, 'in': 'formData', 'type': 'file'})
                elif k < .5:
                    params.append({'name': f, 'in': 'formData', 'type': 'array', 'items': {'type': 'file'}})
                else:
                    params.append(gen_param(rng, u, 'formData', f))
        if root.get('consumes') or chance(rng, .5):
            op['consumes'] = pick(rng, [['multipart/form-data'], ['application/x-www-form-urlencoded', 'multipart/form-data']])
    if chance(rng, .3):
        op['produces'] = sub(rng, JSON_TYPES, 1)
    if chance(rng, .2):
        op['schemes'] = sub(rng, ['http', 'https'], 1)
    if security:
        sd = root['securityDefinitions']
        k = rng.random()
        if k < .5:
            op['security'] = gen_requirement(rng, sd)
        elif k < .65:
            op['security'] = []
    # responses
    for st in sub(rng, ['200', '201', '404', '500'], 1, 3) + (['default'] if chance(rng, .5) else []):
        r = {'description': pick(rng, TEXTS[:8])}
        if chance(rng, .8):
            r['schema'] = u.aref() if u.defs and chance(rng, .7) else u.schema(2)
        if chance(rng, .5):
            hs = {}
            for h in sub(rng, ['X-Count', 'X-When', 'X-Names', 'X-Flag', 'X-Any', 'X-More'], 1, 3):
                hs[h] = {'X-Count': {'type': 'integer', 'format': 'int32'}, 'X-When': {'type': 'string', 'format': 'date-time'},
                         'X-Names': {'type': 'array', 'items': {'type': 'string'}}, 'X-Flag': {'type': 'string', 'enum': WORDS[:4]}}.get(h) or gen_header(rng)
            r['headers'] = hs
        op['responses'][st] = r
    # where the pieces live
    use_pi = pathitem_ref and chance(rng, .12) and len(bags) > 1
    doc = pick(rng, bags[:]) if use_pi else u.entry
    if use_pi and doc == u.entry:
        use_pi = False
    op['responses'] = dict((st, place(rng, u, root, doc, 'responses', 'r%d_%s' % (i, st), r, refs, bags)) for st, r in op['responses'].items())
    pi = {}
    opp, pip = [], []
    for p in params:
        n = place(rng, u, root, doc, 'parameters', 'p%d_%s' % (i, p['name']), p, refs and p.get('type') != 'file', bags)
        if p['in'] in ('path', 'query', 'header') and chance(rng, .25):
            pip.append(n)
            if chance(rng, .3):
                # overridden by the operation
                q = dict(p)
                q.pop('default', None)
                opp.append(u.relativise(q, doc))
        else:
            opp.append(n)
    if opp or chance(rng, .5):
        op['parameters'] = opp
    if pip:
        pi['parameters'] = pip
    pi[method] = op
    if chance(rng, .3):
        # a sibling operation on the same path
        sib = 'options'
        s = {'operationId': 'sib%d' % i, 'responses': {'200': {'description': 'ok'}}, 'parameters': []}
        names = set()
        for p in params:
            if p['in'] == 'path' or p is rid:
                s['parameters'].append(dict(p))
                names.add(p['name'])
        pi[sib] = s
    if use_pi:
        u.docs[doc].setdefault('pathitems', {})['pi%d' % i] = pi
        root['paths'][tpl] = {'$ref': u.rel(u.entry, (doc, '#/pathitems/pi%d' % i))}
    else:
        root['paths'][tpl] = pi


# --- schedules, deliveries, faults -------------------------------------------------------------

def gen_sched(rng, tasks, maxgap=20000, n=None):
    """a schedule with preemptions at several scales"""
    d = {}
    k = rng.random()
    if k < .75:
        scale = pick(rng, [8, 60, 400, 3000, maxgap])
        cnt = n if n is not None else rng.randint(1, 12 if scale < 1000 else 6)
        d['preempt'] = [[rng.randrange(scale if chance(rng, .8) else maxgap), rng.randrange(tasks)] for _ in range(cnt)]
    else:
        m = pick(rng, [17, 61, 211, 701])
        d['hot'] = [m, rng.randrange(m), rng.randint(4, 60)]
    if chance(rng, .4):
        # at places of one task, however long the others run
        d['per'] = {}
        for t in sub(rng, range(tasks), 1, 2):
            scale = pick(rng, [6, 30, 150, 1000])
            d['per'][str(t)] = [[rng.randrange(scale), rng.randrange(tasks), pick(rng, [0, 0, .1, 3, 100])] for _ in range(rng.randint(1, 6))]
    d['picks'] = [rng.randrange(tasks) for _ in range(rng.randint(0, 10))]
    return d


def gen_delivery(rng):
    d = {}
    if chance(rng, .6):
        d['sizes'] = [pick(rng, [1, 3, 17, 128, 1024, 100000]) for _ in range(rng.randint(1, 4))]
        if max(d['sizes']) < 128:
            d['sizes'].append(1024)
    if chance(rng, .3):
        d['delays'] = [pick(rng, [0, 0.01, 1, 30]) for _ in range(3)]
    d['framing'] = pick(rng, ['length', 'chunked', 'close'])
    d['chunk'] = pick(rng, [1, 7, 64, 5000])
    if d['chunk'] == 1:
        d['chunk'] = 13
    if chance(rng, .3):
        d['redirect'] = rng.randint(1, 3)
    return d


def gen_faults(rng, kinds, n, within):
    out = {}
    for _ in range(n):
        out[str(rng.randrange(max(1, within)))] = [pick(rng, kinds), rng.randrange(1, 4000)]
    return out


def gen_doc_faults(rng, kinds, n, docs):
    """faults of the first, second, ... delivery of certain documents"""
    out = {}
    for _ in range(n):
        out['%s@%d' % (pick(rng, docs), rng.choice([0, 0, 0, 1]))] = [pick(rng, kinds), rng.randrange(1, 4000)]
    return out


# --- APIs to call ------------------------------------------------------------------------------

def gen_plan_api(rng, p12=.1, security=False, files=False, **k):
    """the beginnings of a plan that calls an API: 2.0, or 1.2 that the
    model reads as the 2.0 it means"""
    from . import gen12, rig
    if chance(rng, p12):
        a = gen12.gen_api12(rng, security=security, files=files)
        return {'api12': a, 'api': gen12.convert12(a), 'place': rig.gen_place(rng, v12=True, how=False)}
    return {'api': gen_api(rng, security=security, files=files, **k), 'place': rig.gen_place(rng, how=False)}


def gen_api12(rng, nres=None):
    from . import gen12
    return gen12.gen_api12(rng, nres, files=chance(rng, .3))
