"""Swagger 1.2: generated resource listings with their API declarations, and an
independent reading of them as the one 2.0 document they mean (the reference
model works on 2.0)."""
import posixpath

from .gen import pick, chance, sub, TEXTS, WORDS

RES = ['user', 'pet', 'store', 'order']
MODELS = ['User', 'Pet', 'Tag', 'Order']
BASE = 'http://api.sim/v12'


def prim12(rng, loc, multi=False):
    t = pick(rng, ['string', 'string', 'integer', 'number', 'boolean', 'date', 'date-time', 'enum'])
    if t == 'integer':
        d = {'type': 'integer', 'format': pick(rng, ['int32', 'int64'])}
        if not multi and chance(rng, .25):
            d.update(minimum='-1000', maximum=pick(rng, ['100000', '100000.0']))
        return d
    if t == 'number':
        d = {'type': 'number', 'format': pick(rng, ['float', 'double'])}
        if not multi and chance(rng, .25):
            d.update(minimum='-1000.5', maximum='100000')
        return d
    if t == 'boolean':
        return {'type': 'boolean'}
    if t == 'enum':
        return {'type': 'string', 'enum': list(WORDS[:rng.randint(2, 6)])}
    if t == 'string':
        return {'type': 'string'}
    return {'type': 'string', 'format': t}


def default12(rng, d):
    if d.get('enum'):
        return pick(rng, d['enum'])
    if d['type'] == 'string' and not d.get('format'):
        return pick(rng, ['x', 'hello world', 'a+b'])
    if d['type'] == 'integer':
        return pick(rng, [0, 7])
    return None


def prop12(rng, mnames, j):
    k = rng.random()
    if j and k < .2:
        return {'$ref': mnames[0]}
    if j and k < .35:
        return {'type': 'array', 'items': {'$ref': mnames[0]}}
    if k < .45:
        return {'type': 'array', 'items': pick(rng, [{'type': 'string'}, {'type': 'integer', 'format': 'int64'}, {'type': 'string', 'format': 'date'}])}
    p = prim12(rng, 'body')
    if chance(rng, .2):
        p['description'] = pick(rng, TEXTS[:12])
    if chance(rng, .12):
        v = default12(rng, p)
        if v is not None:
            p['defaultValue'] = v
    return p


def param12(rng, loc, name):
    p = {'name': name, 'paramType': loc, 'required': loc == 'path' or chance(rng, .4)}
    multi = loc in ('query', 'header', 'path') and chance(rng, .25)
    p.update(prim12(rng, loc, multi))
    if multi:
        p['allowMultiple'] = True
        if chance(rng, .3):
            p['uniqueItems'] = True
    elif loc in ('query', 'form') and chance(rng, .15):
        for k in ('enum', 'format', 'minimum', 'maximum'):
            p.pop(k, None)
        p.update(type='array', items=pick(rng, [{'type': 'string'}, {'type': 'integer', 'format': 'int32'}]))
    if not p['required'] and p['type'] != 'array' and chance(rng, .3):
        v = default12(rng, p)
        if v is not None:
            p['defaultValue'] = v
    if chance(rng, .2):
        p['description'] = pick(rng, TEXTS[:12])
    return p


def gen_auths(rng):
    out = {'key1': {'type': 'apiKey', 'passAs': 'header', 'keyname': 'X-Old-Key'}}
    if chance(rng, .5):
        out['key2'] = {'type': 'apiKey', 'passAs': 'query', 'keyname': 'old_key'}
    if chance(rng, .4):
        out['basic1'] = {'type': 'basicAuth'}
    if chance(rng, .4):
        out['oauth'] = {'type': 'oauth2', 'scopes': [{'scope': 'read', 'description': 'r'}, {'scope': 'write', 'description': 'w'}],
                        'grantTypes': pick(rng, [{'implicit': {'loginEndpoint': {'url': 'http://auth.sim/login'}, 'tokenName': 'token'}},
                                                 {'authorization_code': {'tokenRequestEndpoint': {'url': 'http://auth.sim/req'}, 'tokenEndpoint': {'url': 'http://auth.sim/token'}}}])}
    return out


def need_auth(rng, auths):
    out = {}
    for n in sorted(sub(rng, sorted(auths), 1, 2)):
        out[n] = [{'scope': 'read', 'description': 'r'}] if auths[n]['type'] == 'oauth2' else []
    return out


def gen_api12(rng, nres=None, security=None, files=False):
    """a Swagger 1.2 resource listing and its API declarations"""
    names = sub(rng, RES, 2, nres or 3)
    auths = gen_auths(rng)
    listing = {'apiVersion': '1.0', 'swaggerVersion': '1.2', 'apis': [{'path': '/' + n, 'description': pick(rng, TEXTS[:8])} for n in names],
               'info': {'title': 'listing', 'description': pick(rng, TEXTS[:10])}, 'authorizations': auths}
    if chance(rng, .3):
        listing['info'].update(contact='me@api.sim', license='MIT', licenseUrl='http://lic.sim')
    if chance(rng, .2):
        listing['info']['termsOfServiceUrl'] = 'http://tos.sim'
    docs = {'resource_list.json': listing}
    for n in names:
        models = {}
        mnames = sub(rng, MODELS, 1, 4)
        for j, mn in enumerate(mnames):
            props = {'id': {'type': 'integer', 'format': 'int64'}, 'name': {'type': 'string'}}
            if j:
                props['other'] = {'$ref': mnames[0]}
                props['all'] = {'type': 'array', 'items': {'$ref': mnames[0]}}
            for i in range(rng.randint(0, 3)):
                props['p%d' % i] = prop12(rng, mnames, j)
            models[mn] = {'id': mn, 'properties': props, 'required': ['id']}
            if chance(rng, .2):
                models[mn]['description'] = pick(rng, TEXTS[:12])
        if len(mnames) > 2 and chance(rng, .4):
            # the last one inherits from the one before
            a, b = mnames[-2], mnames[-1]
            models[a]['subTypes'] = [b]
            models[a]['discriminator'] = 'kind'
            models[a]['properties']['kind'] = {'type': 'string'}
            models[a]['required'] = ['id', 'kind']
            for p in [p for p in models[b]['properties'] if p[0] == 'p' and p in models[a]['properties']]:
                del models[b]['properties'][p]
        apis = []
        up = {}
        for j in range(rng.randint(1, 3)):
            ops = []
            for m in sub(rng, ['GET', 'POST', 'DELETE', 'PUT', 'PATCH'], 1, 2):
                i = len(ops)
                ps = [{'name': 'rid', 'required': True, 'type': 'string', 'paramType': 'path'}]
                op = {'method': m, 'nickname': '%sOp%d%s' % (n, j, 'b' * i), 'summary': 's', 'parameters': ps,
                      'responseMessages': [{'code': 404, 'message': 'no'}]}
                body = m in ('POST', 'PUT', 'PATCH')
                if body and chance(rng, .5 if files == 'only' else .2) and files:
                    op['consumes'] = ['multipart/form-data']
                    for f in sub(rng, ['file1', 'up load', u'd\xe9'], 1, 2):
                        ps.append({'name': f, 'required': chance(rng, .8), 'type': 'File', 'paramType': 'form'})
                    for f in sub(rng, ['f1', 'f2'], 0, 2):
                        ps.append(param12(rng, 'form', f))
                elif body and chance(rng, .4):
                    for f in sub(rng, ['f1', 'f2', 'f3'], 1, 3):
                        ps.append(param12(rng, 'form', f))
                elif body:
                    ps.append({'name': 'payload', 'required': chance(rng, .8), 'type': pick(rng, mnames), 'paramType': 'body'})
                for q in sub(rng, ['limit', 'sort', 'q'], 0, 2):
                    ps.append(param12(rng, 'query', q))
                if chance(rng, .2):
                    ps.append(param12(rng, 'header', 'X-Old'))
                rt = rng.random()
                if rt < .25:
                    op['type'] = 'void'
                elif rt < .4:
                    op.update(type='array', items={'$ref': pick(rng, mnames)})
                elif rt < .5:
                    op['type'] = 'string'
                else:
                    op['type'] = pick(rng, mnames)
                if chance(rng, .3):
                    op['notes'] = pick(rng, TEXTS[:12])
                if chance(rng, .2):
                    op['produces'] = ['text/json', 'application/json']
                if chance(rng, .1):
                    op['deprecated'] = 'true'
                if security is not False and chance(rng, .6 if security else .4):
                    op['authorizations'] = need_auth(rng, auths)
                ops.append(op)
            apis.append({'path': '/%s%d/{rid}' % (n, j), 'operations': ops})
        d = {'apiVersion': '1.0', 'swaggerVersion': '1.2', 'basePath': BASE, 'resourcePath': '/' + n, 'produces': ['application/json'], 'apis': apis, 'models': models}
        if security is not False and chance(rng, .2):
            d['authorizations'] = need_auth(rng, auths)
        docs[n + '.json'] = d
    return {'docs': docs, 'entry': 'resource_list.json', 'v12': True}


PRIM = ('integer', 'number', 'string', 'boolean', 'array', 'object', 'file')


def _bound(d, v):
    return int(float(v)) if d.get('type') == 'integer' else float(v)


def _datatype(d, scope, sep):
    """a data type of 1.2 as a schema"""
    ref = lambda n: '#/definitions/%s%s%s' % (scope, sep, n)
    out = {}
    if '$ref' in d:
        out['$ref'] = ref(d['$ref'])
    t = d.get('type')
    if t in PRIM:
        out['type'] = t
    elif t:
        out['$ref'] = ref(t)
    for k in ('format', 'uniqueItems', 'enum'):
        if k in d:
            out[k] = d[k]
    if 'defaultValue' in d:
        out['default'] = d['defaultValue']
    for k in ('minimum', 'maximum'):
        if k in d:
            out[k] = _bound(d, d[k])
    if 'items' in d:
        i = d['items']
        out['items'] = {'$ref': ref(i['$ref'])} if '$ref' in i else dict((k, i[k]) for k in ('type', 'format') if k in i)
    return out


def _param(p, scope, sep):
    o = {'name': p['name'], 'in': 'formData' if p['paramType'] == 'form' else p['paramType']}
    if p.get('required'):
        o['required'] = True
    if 'description' in p:
        o['description'] = p['description']
    if o['in'] == 'body':
        o['schema'] = _datatype(p, scope, sep)
        return o
    if p.get('allowMultiple') and 'items' not in p:
        o.update(type='array', collectionFormat='csv', items=dict((k, p[k]) for k in ('type', 'format', 'enum') if k in p))
        if p.get('uniqueItems'):
            o['uniqueItems'] = True
        if 'defaultValue' in p:
            o['default'] = [p['defaultValue']]
        return o
    o['type'] = p['type'].lower()
    for k in ('format', 'enum'):
        if k in p:
            o[k] = p[k]
    if 'defaultValue' in p:
        o['default'] = p['defaultValue']
    for k in ('minimum', 'maximum'):
        if k in p:
            o[k] = _bound(p, p[k])
    if 'items' in p:
        o.update(collectionFormat='csv', items=dict(p['items']))
        if p.get('uniqueItems'):
            o['uniqueItems'] = True
    return o


def convert12(api, sep='!##!'):
    """the 2.0 document that a 1.2 document set means"""
    listing = api['docs'][api['entry']]
    li = listing['info']
    info = {'version': listing['apiVersion'], 'title': li['title']}
    for a, b in (('description', 'description'), ('termsOfServiceUrl', 'termsOfService')):
        if a in li:
            info[b] = li[a]
    if 'contact' in li:
        info['contact'] = {'email': li['contact']}
    if 'license' in li:
        info['license'] = {'name': li['license'], 'url': li['licenseUrl']}
    root = {'swagger': '2.0', 'info': info, 'host': 'api.sim', 'schemes': ['http', 'https'], 'paths': {}, 'definitions': {}, 'securityDefinitions': {}}
    for n, a in listing['authorizations'].items():
        s = {'type': 'basic' if a['type'] == 'basicAuth' else a['type']}
        if a['type'] == 'apiKey':
            s.update({'name': a['keyname'], 'in': a['passAs']})
        if a['type'] == 'oauth2':
            s['scopes'] = dict((x['scope'], x['description']) for x in a['scopes'])
            g = a['grantTypes']
            if 'implicit' in g:
                s.update(flow='implicit', authorizationUrl=g['implicit']['loginEndpoint']['url'])
            else:
                s.update(flow='access_code', tokenUrl=g['authorization_code']['tokenEndpoint']['url'])
        root['securityDefinitions'][n] = s
    for doc in sorted(api['docs']):
        if doc == api['entry']:
            continue
        d, scope = api['docs'][doc], posixpath.splitext(doc)[0]
        for a in d['apis']:
            pi = root['paths'].setdefault('/v12' + a['path'], {})
            for op in a['operations']:
                o = {'tags': [scope], 'operationId': op['nickname'], 'summary': op['summary'], 'parameters': [_param(p, scope, sep) for p in op['parameters']],
                     'security': [dict([(n, [x['scope'] for x in v])]) for n, v in sorted((op.get('authorizations') or d.get('authorizations') or {}).items())]}
                if 'notes' in op:
                    o['description'] = op['notes']
                if op.get('deprecated') == 'true':
                    o['deprecated'] = True
                for k in ('consumes', 'produces'):
                    v = op.get(k) or d.get(k)
                    if v:
                        o[k] = v
                o['responses'] = {'default': {'schema': _datatype(op, scope, sep)} if op['type'] != 'void' else {}}
                pi[op['method'].lower()] = o
        for n, mo in d['models'].items():
            s = root['definitions'].setdefault(scope + sep + n, {})
            s['properties'] = dict((k, dict(_datatype(p, scope, sep), **({'description': p['description']} if 'description' in p else {}))) for k, p in mo['properties'].items())
            for k in ('required', 'discriminator', 'description'):
                if k in mo:
                    s[k] = mo[k]
            for t in mo.get('subTypes', ()):
                root['definitions'].setdefault(scope + sep + t, {}).setdefault('allOf', []).append({'$ref': '#/definitions/' + scope + sep + n})
    return {'docs': {api['entry']: root}, 'entry': api['entry']}
