"""What a user can see of a loaded application, as plain JSON: the attributes
the Swagger specification names, `pyswagger.utils.deref` / `final`, and the
documented shortcuts.  Nothing here depends on how pyswagger stores things."""
from . import kernel
from .model import jp_tokens

COMMON = ('type', 'format', 'items', 'default', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'maxLength',
          'minLength', 'maxItems', 'minItems', 'multipleOf', 'enum', 'pattern', 'uniqueItems')
METHODS = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')
FIELDS = {
    'Swagger': ('swagger', 'info', 'host', 'basePath', 'schemes', 'consumes', 'produces', 'paths', 'definitions', 'parameters', 'responses',
                'securityDefinitions', 'security', 'tags', 'externalDocs'),
    'Info': ('version', 'title', 'description', 'termsOfService', 'contact', 'license'),
    'Contact': ('name', 'url', 'email'),
    'License': ('name', 'url'),
    'PathItem': ('$ref',) + METHODS + ('parameters',),
    'Operation': ('tags', 'operationId', 'consumes', 'produces', 'schemes', 'parameters', 'responses', 'deprecated', 'security',
                  'description', 'summary', 'externalDocs', 'method', 'path', 'base_path'),
    'Parameter': ('$ref', 'name', 'in', 'required', 'schema', 'collectionFormat', 'description') + COMMON,
    'Header': ('collectionFormat', 'description') + COMMON,
    'Items': ('collectionFormat',) + COMMON,
    'Response': ('$ref', 'schema', 'headers', 'description', 'examples'),
    'Schema': ('$ref', 'maxProperties', 'minProperties', 'required', 'allOf', 'properties', 'additionalProperties', 'title', 'description',
               'discriminator', 'readOnly', 'example', 'name') + COMMON,
    'SecurityScheme': ('type', 'name', 'in', 'flow', 'authorizationUrl', 'tokenUrl', 'scopes', 'description'),
    'Tag': ('name', 'description'),
    'ExternalDocumentation': ('description', 'url'),
    'XMLObject': ('name', 'namespace', 'prefix', 'attribute', 'wrapped'),
}
EMPTY = (None, [], {})
# sets in all but name: the order the library merges them in means nothing
UNORDERED = ('required', 'enum', 'tags', 'consumes')


class View(object):
    """canon: maps an absolute reference to a canonical one"""

    def __init__(self, canon, netloc=None):
        self.canon = canon
        self.netloc = netloc
        self.refs = {}
        self.todo = []

    def value(self, v, key=None):
        kind = type_name(v)
        if kind in FIELDS:
            return self.obj(v)
        if isinstance(v, dict):
            return dict((str(k), self.value(x)) for k, x in v.items())
        if isinstance(v, (list, tuple)):
            return [self.value(x) for x in v]
        if isinstance(v, bool) or v is None or isinstance(v, (int, float)):
            return v
        if isinstance(v, str):
            return self.canon(v) if key == '$ref' else v
        if isinstance(v, (set, frozenset)):
            return sorted(self.value(x) for x in v)
        return '<%s %s>' % (kind, v)

    def obj(self, o):
        kind = type_name(o)
        out = {}
        for f in FIELDS[kind]:
            try:
                v = getattr(o, f)
            except AttributeError:
                continue
            if v in EMPTY:
                continue
            out[f] = self.value(v, f)
        if kind == 'Schema' and '$ref' in out:
            self.ref(out['$ref'], o)
        if kind in ('Parameter', 'Response') and '$ref' in out:
            from pyswagger.utils import final
            fo = final(o)
            if fo is not o:
                out['final'] = dict((f, self.value(getattr(fo, f), f)) for f in FIELDS[kind] if f != '$ref' and getattr(fo, f) not in EMPTY)
        return out

    def ref(self, canon, o):
        if canon in self.refs:
            return
        self.refs[canon] = None
        self.todo.append((canon, o))

    def finish(self):
        from pyswagger.utils import deref, final
        while self.todo:
            canon, o = self.todo.pop(0)
            t = deref(o)
            d = self.obj(t)
            f = final(t)
            if f is not t:
                d['all'] = sorted(getattr(f, 'properties', None) or {})
            self.refs[canon] = d
        return self.refs


def type_name(v):
    # the class seen through a weak proxy is the real one
    return getattr(v, '__class__', type(v)).__name__


def norm(d, key=None):
    """forget orders that carry no meaning"""
    if isinstance(d, dict):
        return dict((k, norm(v, k)) for k, v in d.items())
    if isinstance(d, list):
        v = [norm(x) for x in d]
        if key in UNORDERED and all(isinstance(x, str) for x in v):
            return sorted(set(v))
        return v
    return d


def lookups(app, sep):
    """the documented ways to name an operation, a model or a path that do not
    lead to it"""
    out = []
    for what, d in (('op', app.op), ('m', app.m)):
        keys = sorted(d.keys())
        last = [k.split(sep)[-1] for k in keys]
        for k in keys:
            o = dict.__getitem__(d, k)
            parts = k.split(sep)
            ways = [k, tuple(parts)]
            if last.count(parts[-1]) == 1:
                ways.append(parts[-1])
            for w in ways:
                try:
                    if d[w] is not o:
                        out.append('%s[%r] is not %r' % (what, w, k))
                except Exception as e:
                    out.append('%s[%r]: %s: %s' % (what, w, type(e).__name__, str(e)[:80]))
    for p in sorted(app.root.paths or ()):
        for w in (p, p[1:]):
            try:
                o = app.s(w)
                if sorted(m for m in METHODS if getattr(o, m)) != sorted(m for m in METHODS if getattr(app.root.paths[p], m)):
                    out.append('s(%r) is something else' % w)
            except Exception as e:
                out.append('s(%r): %s: %s' % (w, type(e).__name__, str(e)[:80]))
    return out


METHODS = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')


def describe(app, pub, exact=False, sep='!##!'):
    """everything a prepared application says about the API"""
    view = View(pub.canon)
    root = app.root
    out = {'root': view.value(root), 'version': app.version}
    ops = {}
    for k in sorted(app.op.keys()):
        op = dict.__getitem__(app.op, k)
        d = view.value(op)
        url = op.url
        if url is not None and not root.host:
            url = url.replace('//' + (pub.netloc or 'localhost'), '//<netloc>', 1)
        d['url'] = url
        sch = list(op.cached_schemes or [])
        if not root.schemes and sch == [pub.scheme]:
            sch = ['<scheme>'] if not op.schemes else sch
        d['cached_schemes'] = sch
        ops[k] = d
    out['ops'] = ops
    out['m'] = sorted(app.m.keys())
    out['refs'] = view.finish()
    out['lookups'] = lookups(app, sep)
    return out if exact else norm(out)


def describe_obj(o, canon):
    """a resolved object and what hangs below it"""
    view = View(canon)
    d = view.value(o)
    r = view.finish()
    return norm({'obj': d, 'refs': r})


def contains(desc, raw, doc, model, at='', exact=True):
    """None when a description of an object agrees with the raw node it was
    read from, else the difference"""
    if isinstance(raw, dict):
        if not isinstance(desc, dict):
            return '%s: %r, expected an object' % (at or '.', desc)
        for k, v in raw.items():
            if v in EMPTY or k.startswith('x-') or k == 'readOnly' and v is False:
                continue
            if k == 'collectionFormat' and v == 'csv' and k not in desc:
                continue
            if k not in desc:
                if v is False or v is True and k == 'additionalProperties':
                    continue
                return '%s/%s: missing, expected %r' % (at, k, v)
            if k == '$ref' and isinstance(v, str):
                t = model.target(v, doc)
                want = t[0] + ('' if t[1] == '#' else t[1])
                got = desc[k]
                if got.endswith('#'):
                    got = got[:-1]
                if got != want:
                    return '%s/$ref: %r, expected %r' % (at, desc[k], want)
                continue
            if k in UNORDERED and isinstance(v, list) and all(isinstance(x, str) for x in v):
                if not isinstance(desc[k], list) or not set(v) <= set(desc[k]):
                    return '%s/%s: %r, expected %r' % (at, k, desc[k], v)
                continue
            e = contains(desc[k], v, doc, model, '%s/%s' % (at, k), exact)
            if e:
                return e
        if exact:
            for k in desc:
                if k in raw or k in ('name', 'collectionFormat', 'final', 'method', 'path', 'base_path', 'additionalProperties', 'deprecated',
                                     'consumes', 'produces', 'security', 'parameters', 'schemes', 'all'):
                    continue
                if '$ref' in raw and at == '' or desc[k] is False:
                    continue
                return '%s/%s: unexpected %r' % (at, k, desc[k])
        return None
    if isinstance(raw, list):
        if not isinstance(desc, list) or len(desc) < len(raw):
            return '%s: %r, expected %r' % (at or '.', desc, raw)
        for i, v in enumerate(raw):
            e = contains(desc[i], v, doc, model, '%s/%d' % (at, i), exact)
            if e:
                return e
        if len(desc) > len(raw) and not at.endswith('/parameters'):
            return '%s: %d items, expected %d' % (at, len(desc), len(raw))
        return None
    if isinstance(raw, bool) or isinstance(desc, bool):
        return None if raw is desc else '%s: %r, expected %r' % (at or '.', desc, raw)
    return None if raw == desc else '%s: %r, expected %r' % (at or '.', desc, raw)


def check_model(desc, model, sep='!##!'):
    """differences between a description and the raw documents"""
    out = list(desc.get('lookups', ()))
    want = {}
    for oid, om in model.ops().items():
        for t in (om.op.get('tags') or [None]):
            want[(t + sep if t else '') + oid] = om
    if sorted(want) != sorted(desc['ops']):
        out.append('operations %s, expected %s' % (sorted(desc['ops']), sorted(want)))
    for k, om in want.items():
        d = desc['ops'].get(k)
        if d is None:
            continue
        if d.get('method') != om.method or d.get('path') != om.path:
            out.append('%s: %s %s, expected %s %s' % (k, d.get('method'), d.get('path'), om.method, om.path))
        have = {}
        for p in d.get('parameters', []):
            p = p.get('final', p)
            have[p.get('name')] = p
        exp = dict((p['name'], (p, pd)) for p, pd in om.params)
        if sorted(map(str, have)) != sorted(exp):
            out.append('%s: parameters %s, expected %s' % (k, sorted(map(str, have)), sorted(exp)))
        for n, (p, pd) in exp.items():
            if n in have:
                e = contains(have[n], p, pd, model, exact=False)
                if e:
                    out.append('%s: parameter %s: %s' % (k, n, e))
        rs = d.get('responses', {})
        if sorted(rs) != sorted(om.op['responses']):
            out.append('%s: responses %s, expected %s' % (k, sorted(rs), sorted(om.op['responses'])))
        for st in om.op['responses']:
            r, rd = model.deref(om.op['responses'][st], om.doc)
            if st in rs:
                e = contains(rs[st].get('final', rs[st]), r, rd, model, exact=False)
                if e:
                    out.append('%s: response %s: %s' % (k, st, e))
    for n, raw in (model.root.get('definitions') or {}).items():
        e = contains(desc['root'].get('definitions', {}).get(n), raw, model.entry, model)
        if e:
            out.append('definition %s: %s' % (n, e))
    for ref, d in desc['refs'].items():
        node, doc = model.deref({'$ref': ref}, '')
        e = contains(d, node, doc, model)
        if e:
            out.append('reference %s: %s' % (ref, e))
    return out


def first_diff(a, b):
    from .model import jdiff
    return jdiff(a, b)
