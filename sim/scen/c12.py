"""C12: rendered input is accepted and respects every declared limit."""
import datetime
import json
import uuid

from . import util
from .. import gen, kernel, model, rig
from ..gen import chance, pick, sub
from ..world import World

ID = 'C12'
RUNS = {'quick': 900, 'thorough': 60000}
BATCH = 225
RULE = 'a run in which an operation with at least one declared limit was rendered; distinct by API, options, random seed and interleaving of the renderers'
COMPONENTS = {'real': ['pyswagger (all of it, from the working tree of /repo; every statement is a scheduling point)', 'json'],
              'stub': ['random and os.urandom (seeded; a share of the draws replaced by the extremes of their range)', 'clock (virtual)', 'thread scheduling', 'the documents (in memory)']}
ASSUMPTIONS = ['some input within all the limits exists: contradictory descriptions are not generated, neither are options that contradict the description',
               'schemas without cycles: strict preparation, the default, refuses the others',
               'types and formats the renderer knows; it says so when it meets another one',
               'patterns, limits on the text of dates, uuids and bytes, and minProperties that only undeclared properties could satisfy are not rendered (TODOs of the library)',
               'a format is declared beside its type',
               'numbers are multiples of binary fractions: for others floating point has no exact multiples']
SHRINK = ('calls', 'lanes', 'api.docs.*.paths', 'api.docs.*.paths.*.*.parameters', 'api.docs.*.definitions', 'api.docs.*.definitions.*.properties', 'calls.*.opt', 'calls.*', 'extreme')
NAMES = ['id', 'name', 'kind', 'a', 'Z', 'aa', 'tags', 'owner', 'note']


# --- descriptions with limits that some value satisfies ------------------------------------

def gen_int(rng):
    d = {'type': 'integer'}
    if chance(rng, .6):
        d['format'] = pick(rng, ['int32', 'int64'])
    if chance(rng, .1):
        d['enum'] = sub(rng, [0, 1, -1, 7, 42, 100000], 1)
        return d
    k = rng.random()
    if k < .25:
        return d
    big = 2 ** 40 if d.get('format') == 'int64' else 2 ** 31 - 3
    lo = pick(rng, [0, 0, 1, -1, 10, -10, -1000, 5, -7, 100, 2 ** 30 + 5, -big, big - 100])
    width = pick(rng, [0, 1, 2, 3, 10, 1000])
    ex = [chance(rng, .3), chance(rng, .3)]
    if k < .4:
        d['minimum'] = lo
    elif k < .55:
        d['maximum'] = -lo
    else:
        d['minimum'] = lo
        d['maximum'] = min(lo + width, 2 ** 31 - 2) if d.get('format') != 'int64' else lo + width
    if 'minimum' in d and ex[0]:
        d['exclusiveMinimum'] = pick(rng, [True, True, False])
    if 'maximum' in d and ex[1]:
        d['exclusiveMaximum'] = pick(rng, [True, True, False])
    a = d['minimum'] + (1 if d.get('exclusiveMinimum') else 0) if 'minimum' in d else None
    b = d['maximum'] - (1 if d.get('exclusiveMaximum') else 0) if 'maximum' in d else None
    if a is not None and b is not None and a > b:
        d['maximum'] += 2
        b += 2
    if chance(rng, .4):
        for m in sub(rng, [2, 3, 5, 7, 10, 64], 1, 6):
            if a is None or b is None or b // m * m >= a:
                d['multipleOf'] = m
                break
    return d


def gen_num(rng):
    d = {'type': 'number'}
    if chance(rng, .6):
        d['format'] = pick(rng, ['float', 'double'])
    if chance(rng, .1):
        d['enum'] = sub(rng, [0.0, 0.5, -1.25, 3.0], 1)
        return d
    k = rng.random()
    lo = pick(rng, [0, 0, 0.5, -0.5, 1, -1, -10, 10, 100.25, -100.25, 1e6])
    if k < .25:
        pass
    elif k < .4:
        d['minimum'] = lo
    elif k < .55:
        d['maximum'] = -lo
    else:
        d['minimum'] = lo
        d['maximum'] = lo + pick(rng, [0, 0.25, 0.5, 1, 5, 1000])
    if 'minimum' in d and chance(rng, .3):
        d['exclusiveMinimum'] = pick(rng, [True, True, False])
    if 'maximum' in d and chance(rng, .3):
        d['exclusiveMaximum'] = pick(rng, [True, True, False])
    if 'minimum' in d and 'maximum' in d and d['minimum'] == d['maximum'] and (d.get('exclusiveMinimum') or d.get('exclusiveMaximum')):
        d['maximum'] += 1
    if chance(rng, .4):
        for m in sub(rng, [0.25, 0.5, 2, 5, 1, 1.5], 1, 6):
            if 'minimum' in d and 'maximum' in d:
                n = int(d['minimum'] // m) - 1
                ok = False
                while n * m <= d['maximum'] and not ok:
                    v = n * m
                    ok = (v > d['minimum'] or v == d['minimum'] and not d.get('exclusiveMinimum')) and (v < d['maximum'] or v == d['maximum'] and not d.get('exclusiveMaximum'))
                    n += 1
                if not ok:
                    continue
            d['multipleOf'] = m
            break
    return d


def gen_str(rng):
    k = rng.random()
    if k < .2:
        return {'type': 'string', 'format': pick(rng, ['date', 'date-time', 'uuid', 'byte'])}
    if k < .3:
        d = {'type': 'string', 'format': 'email'}
        if chance(rng, .5):
            d['maxLength'] = pick(rng, [16, 40, 64, 254])
        if chance(rng, .3):
            d['minLength'] = pick(rng, [0, 3, 6])
        return d
    if k < .36:
        return {'type': 'string', 'format': 'date', 'enum': sub(rng, ['2015-01-02', '1999-12-31', '2016-02-29'], 1)}
    if k < .42:
        return {'type': 'string', 'format': 'uuid', 'enum': ['00000000-0000-4000-a000-000000000000', '12345678-1234-4123-a123-123456789012'][:rng.randint(1, 2)]}
    if k < .55:
        return {'type': 'string', 'enum': sub(rng, ['alpha', 'beta', '', 'x y'], 1)}
    d = {'type': 'string'}
    if chance(rng, .2):
        d['format'] = 'password'
    if chance(rng, .5):
        d['minLength'] = pick(rng, [0, 1, 5, 99, 101, 150])
    if chance(rng, .5):
        d['maxLength'] = d.get('minLength', 0) + pick(rng, [0, 0, 1, 20, 200])
    return d


def gen_scalar(rng):
    k = rng.random()
    if k < .35:
        return gen_int(rng)
    if k < .55:
        return gen_num(rng)
    if k < .9:
        return gen_str(rng)
    d = {'type': 'boolean'}
    if chance(rng, .4):
        d['enum'] = [chance(rng, .4)]
    return d


def domain(s):
    """a lower bound of how many different values a scalar may have"""
    if s.get('enum'):
        return len(set(map(repr, s['enum'])))
    t = s['type']
    if t == 'boolean':
        return 2
    if t == 'integer':
        if 'minimum' in s and 'maximum' in s:
            a, b, m = s['minimum'], s['maximum'], s.get('multipleOf', 1)
            return max(1, (b - a) // m - 1)
        return 1000
    if t == 'number':
        if 'minimum' in s and 'maximum' in s:
            if s['minimum'] == s['maximum']:
                return 1
            return 1000 if 'multipleOf' not in s else max(1, int((s['maximum'] - s['minimum']) / s['multipleOf']) - 1)
        return 1000
    if s.get('format') == 'byte':
        return 1000
    return 1000 if s.get('maxLength', 9) > 1 else 1 if s.get('maxLength') == 0 else 20


def gen_array(rng, items, scalar=True):
    d = {'type': 'array', 'items': items}
    most = domain(items) if scalar else 1000
    if chance(rng, .35):
        d['uniqueItems'] = pick(rng, [True, True, False])
    if chance(rng, .5):
        n = pick(rng, [0, 1, 2, 3, 5])
        d['minItems'] = min(n, max(0, most - 1)) if d.get('uniqueItems') else n
    if chance(rng, .6):
        d['maxItems'] = d.get('minItems', 0) + pick(rng, [0, 0, 1, 4])
    return d


class Gen(object):
    def __init__(self, rng):
        self.rng = rng
        self.defs = []

    def schema(self, depth, doc='swagger.json'):
        rng = self.rng
        k = rng.random()
        if self.defs and k < .3:
            n = pick(rng, self.defs)
            return {'$ref': ('' if n[0] == doc else n[0]) + n[1]}
        if depth <= 0 or k < .55:
            return self.maybe_split(gen_scalar(rng))
        if k < .72:
            it = self.schema(depth - 1, doc)
            a = gen_array(rng, it if 'type' in it and it['type'] not in ('object', 'array') else gen_scalar(rng))
            if a['items'].get('type') and chance(rng, .5) and not a.get('uniqueItems'):
                a['items'] = it
            a.setdefault('maxItems', a.get('minItems', 0) + 3)
            return a
        return self.obj(depth, doc)

    def maybe_split(self, s):
        """the same limits, stated in two parts"""
        if not chance(self.rng, .08) or s['type'] == 'boolean':
            return s
        a, b = {'type': s['type']}, {}
        for k in sorted(s):
            if k in ('exclusiveMinimum', 'exclusiveMaximum'):
                continue
            if k != 'type':
                t = a if k == 'format' else pick(self.rng, [a, b])
                t[k] = s[k]
                e = {'minimum': 'exclusiveMinimum', 'maximum': 'exclusiveMaximum'}.get(k)
                if e in s:
                    t[e] = s[e]
        parts = [x for x in (a, b) if x]
        return {'allOf': parts} if len(parts) > 1 else s

    def obj(self, depth, doc):
        rng = self.rng
        props = {}
        for n in sub(rng, NAMES, 0, 5):
            props[n] = self.schema(depth - 1, doc)
        o = {'type': 'object'}
        req = sorted(sub(rng, sorted(props), 0))
        ro = []
        for n in sorted(props):
            if n not in req and '$ref' not in props[n] and 'allOf' not in props[n] and chance(rng, .12):
                props[n]['readOnly'] = True
                ro.append(n)
        parts = None
        if len(props) > 1 and chance(rng, .15):
            cut = rng.randint(1, len(props) - 1)
            ks = sorted(props)
            parts = [{'type': 'object', 'properties': dict((k, props[k]) for k in ks[:cut])}, {'type': 'object', 'properties': dict((k, props[k]) for k in ks[cut:])}]
            if req and chance(rng, .3):
                o['required'] = req
            for p in parts if 'required' not in o else ():
                r = [k for k in req if k in p['properties']]
                if r:
                    p['required'] = r
            o['allOf'] = parts
        else:
            if props:
                o['properties'] = props
            if req:
                o['required'] = req
        usable = [n for n in props if n not in ro]
        if parts is None:
            # with inherited properties the converters of additional ones are another story
            if chance(rng, .35):
                o['additionalProperties'] = gen_scalar(rng) if chance(rng, .8) or not self.defs else {'$ref': self.ref_of(doc)}
                if chance(rng, .5):
                    o['minProperties'] = pick(rng, [0, 1, 3, 6])
                if chance(rng, .5):
                    o['maxProperties'] = max(o.get('minProperties', 0), len(req)) + pick(rng, [0, 1, 5])
            else:
                if chance(rng, .25) and usable:
                    o['minProperties'] = rng.randint(0, len(usable))
                if chance(rng, .25):
                    o['maxProperties'] = max(o.get('minProperties', 0), len(req)) + pick(rng, [0, 0, 1])
                if chance(rng, .2):
                    o['additionalProperties'] = pick(rng, [True, False])
        return o

    def ref_of(self, doc):
        n = pick(self.rng, self.defs)
        return ('' if n[0] == doc else n[0]) + n[1]


def gen_api(rng):
    g = Gen(rng)
    docs = {'swagger.json': {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'host': 'api.sim', 'schemes': ['http'], 'paths': {}}}
    if chance(rng, .5):
        docs['defs.json'] = {}
    for i in range(rng.randint(0, 5)):
        d = pick(rng, sorted(docs))
        n = pick(rng, ['User', 'Item', 'Node', 'Tag', 'Order']) + str(i)
        docs[d].setdefault('definitions', {})[n] = g.schema(2, d)
        g.defs.append((d, '#/definitions/' + n))
    for i in range(rng.randint(1, 4)):
        m = pick(rng, ['get', 'post', 'put'])
        ps, path = [], '/op%d' % i
        kinds = []
        for n in sub(rng, ['p1', 'q1', 'q2', 'h1', 'q3', 'p2'], 0 if m != 'get' else 1, 5):
            loc = {'p': 'path', 'q': 'query', 'h': 'header'}[n[0]]
            p = gen_scalar(rng)
            if loc != 'path' and chance(rng, .3):
                p = gen_array(rng, p)
                cf = pick(rng, [None, 'csv', 'ssv', 'tsv', 'pipes'] + (['multi'] if loc == 'query' else []))
                if cf:
                    p['collectionFormat'] = cf
            p.update({'name': n, 'in': loc})
            if loc == 'path':
                path += '/{%s}' % n
                p['required'] = True
            elif chance(rng, .4):
                p['required'] = True
            kinds.append(p)
        if m != 'get':
            k = rng.random()
            if k < .65:
                kinds.append({'name': 'payload', 'in': 'body', 'required': chance(rng, .7), 'schema': g.schema(2)})
            elif k < .85:
                for n in sub(rng, ['f1', 'f2', 'file', 'files'], 1, 3):
                    if n == 'file':
                        p = {'type': 'file'}
                    elif n == 'files':
                        p = gen_array(rng, {'type': 'file'}, scalar=False)
                        p.pop('uniqueItems', None)
                        p.setdefault('maxItems', p.get('minItems', 0) + 2)
                    else:
                        p = gen_scalar(rng)
                    p.update({'name': n, 'in': 'formData', 'required': chance(rng, .6)})
                    kinds.append(p)
        pip = []
        for p in kinds:
            if chance(rng, .25):
                d = pick(rng, sorted(docs))
                nm = 'op%d_%s' % (i, p['name'])
                if 'schema' in p and '$ref' in json.dumps(p['schema']) and d != 'swagger.json':
                    d = 'swagger.json'
                docs[d].setdefault('parameters', {})[nm] = p
                p = {'$ref': ('' if d == 'swagger.json' else d) + '#/parameters/' + nm}
                ps.append(p)
            elif p['in'] in ('path', 'query', 'header') and chance(rng, .2):
                pip.append(p)
            else:
                ps.append(p)
        pi = {m: {'operationId': 'op%d' % i, 'parameters': ps, 'responses': {'200': {'description': 'ok'}}}}
        if pip:
            pi['parameters'] = pip
        docs['swagger.json']['paths'][path] = pi
    return {'docs': docs, 'entry': 'swagger.json'}


def gen_opt(rng, many):
    o = {}
    if chance(rng, .3):
        o['max_str_length'] = pick(rng, [0, 1, 5, 300])
    if chance(rng, .3):
        o['max_array_length'] = pick(rng, [0, 1, 3])
    else:
        o['max_array_length'] = 4
    if many and 'max_str_length' in o:
        # one empty text is no list of different ones
        o['max_str_length'] = max(1, o['max_str_length'])
    if chance(rng, .2):
        o['max_name_length'] = pick(rng, [1, 2, 8])
    if chance(rng, .2):
        o['max_byte_length'] = pick(rng, [1 if many else 0, 1, 7])
    if chance(rng, .2):
        o['max_file_length'] = pick(rng, [0, 1, 7])
    if chance(rng, .2):
        o['max_prop_count'] = pick(rng, [8, 10])
    if chance(rng, .2):
        o['minimal_parameter'] = True
    elif chance(rng, .25):
        o['max_parameter'] = True
    if chance(rng, .2):
        o['minimal_property'] = True
    elif chance(rng, .25):
        o['max_property'] = True
    if chance(rng, .2):
        o['files'] = [{'filename': 'given%d.txt' % i, 'text': 'given %d' % i} for i in range(rng.randint(1, 2))]
    return o


def generate(rng, tier):
    api = gen_api(rng)
    plan = {'api': api, 'extreme': pick(rng, [0, 0, .3, .6, .85])}
    m = model.Model(api['docs'], api['entry'])
    ops = m.ops()
    calls = []
    for _ in range(rng.randint(2, 6)):
        k = pick(rng, sorted(ops))
        om = ops[k]
        c = {'op': k, 'opt': gen_opt(rng, 'uniqueItems' in json.dumps(api)), 'times': rng.randint(1, 4)}
        if chance(rng, .15):
            c['default'] = True
        names = sorted(p['name'] for p, _ in om.params)
        if chance(rng, .2):
            c['exclude'] = sub(rng, names, 0, 2)
        if chance(rng, .2) and names:
            # a template: any value that the parameter accepts
            n = pick(rng, names)
            p, d = om.param(n)
            if p.get('type') in ('string', 'integer') and not p.get('enum') and p.get('format') in (None, 'int32', 'int64', 'password'):
                c['ptpl'] = {n: fit(p)}
        if chance(rng, .2):
            c['otpl'] = {'name': None}
        if chance(rng, .3):
            c['alone'] = sub(rng, sorted(api['docs'][api['entry']].get('definitions', ())), 0, 2)
            if not c['alone']:
                c['alone'] = ['-']
        calls.append(c)
    plan['calls'] = calls
    n = rng.randint(1, 3)
    plan['lanes'] = [[i for i in range(len(calls)) if i % n == j] for j in range(n)]
    plan['sched'] = gen.gen_sched(rng, n, 3000)
    return plan


def fit(p):
    """a simple value within the limits of a string or integer"""
    if p['type'] == 'string':
        return 't' * max(p.get('minLength', 0), min(3, p.get('maxLength', 3)))
    m = p.get('multipleOf', 1)
    a, b = p.get('minimum'), p.get('maximum')
    if a is not None:
        if p.get('exclusiveMinimum'):
            a += 1
        return -(-a // m) * m
    if b is not None:
        if p.get('exclusiveMaximum'):
            b -= 1
        return b // m * m
    return 0


# --- judging a value ---------------------------------------------------------------------------

def flat(m, schema, doc):
    """one schema with everything its parts declare; properties with their documents"""
    s, d = m.deref(schema, doc)
    out = dict((k, v) for k, v in s.items() if k not in ('allOf', 'properties', 'required'))
    out['required'] = list(s.get('required', ()))
    out['properties'] = dict((k, (p, d)) for k, p in (s.get('properties') or {}).items())
    for a in s.get('allOf', ()):
        f, fd = flat(m, a, d)
        for k, v in f.items():
            if k == 'properties':
                for n, p in v.items():
                    out[k].setdefault(n, p)
            elif k == 'required':
                out[k] += v
            else:
                out.setdefault(k, v)
    return out, d


def judge(m, schema, doc, v, o, at='', size=None):
    """why a rendered value is not one the schema and the options allow"""
    s, d = flat(m, schema, doc)
    t, f = s.get('type'), s.get('format')
    here = at or '.'
    if t == 'object':
        if not isinstance(v, dict):
            return '%s: %r is no object' % (here, v)
        props = s['properties']
        ro = [n for n in props if m.deref(*props[n])[0].get('readOnly')]
        for n in sorted(set(s['required'])):
            if n not in v:
                return '%s: required property %r is missing' % (here, n)
        for n in sorted(v):
            if not isinstance(n, str):
                return '%s: property named %r' % (here, n)
            if n in ro:
                return '%s: %r is read only' % (here, n)
            if n in o['object_template'] and n in props:
                if v[n] is not o['object_template'][n]:
                    return '%s: property %r is %r, its template says %r' % (here, n, v[n], o['object_template'][n])
                continue
            if n in props:
                e = judge(m, props[n][0], props[n][1], v[n], o, at + '/' + n)
            elif isinstance(s.get('additionalProperties'), dict):
                e = judge(m, s['additionalProperties'], d, v[n], o, at + '/' + n)
                if len(n) > o['max_name_length']:
                    e = 'name of %d characters' % len(n)
            else:
                e = '%s: undeclared property %r' % (here, n)
            if e:
                return e
        c = len(v)
        if 'maxProperties' in s and c > s['maxProperties']:
            return '%s: %d properties, at most %d' % (here, c, s['maxProperties'])
        if c < s.get('minProperties', 0):
            return '%s: %d properties, at least %d' % (here, c, s['minProperties'])
        if 'maxProperties' not in s and c > max(o['max_prop_count'], s.get('minProperties', 0), len(set(s['required'])), len(props) if not isinstance(s.get('additionalProperties'), dict) or o['max_property'] else 0):
            return '%s: %d properties, option says %d' % (here, c, o['max_prop_count'])
        if o['minimal_property'] and 'minProperties' not in s and not isinstance(s.get('additionalProperties'), dict):
            for n in v:
                if n not in s['required'] and n not in o['object_template']:
                    return '%s: property %r, but only required ones are asked for' % (here, n)
        if o['max_property'] and 'maxProperties' not in s:
            for n in props:
                if n not in v and n not in ro:
                    return '%s: no property %r, but all are asked for' % (here, n)
        return None
    if t == 'array':
        if not isinstance(v, list):
            return '%s: %r is no list' % (here, v)
        if len(v) < s.get('minItems', 0) or 'maxItems' in s and len(v) > s['maxItems']:
            return '%s: %d items, allowed are %s to %s' % (here, len(v), s.get('minItems'), s.get('maxItems'))
        if 'maxItems' not in s and len(v) > max(o['max_array_length'], s.get('minItems', 0)):
            return '%s: %d items, option says %d' % (here, len(v), o['max_array_length'])
        if s.get('uniqueItems'):
            for i, x in enumerate(v):
                if any(x == y for y in v[:i]):
                    return '%s: %r twice' % (here, x)
        for i, x in enumerate(v):
            e = judge(m, s['items'], d, x, o, '%s/%d' % (at, i))
            if e:
                return e
        return None
    if t == 'file':
        if o['files']:
            return None if any(x is v for x in o['files']) else '%s: not one of the given files' % here
        text = v['data'].getvalue()
        if len(text) > o['max_file_length']:
            return '%s: file of %d characters' % (here, len(text))
        return None
    en = s.get('enum')
    if t == 'boolean':
        if not isinstance(v, bool):
            return '%s: %r is no boolean' % (here, v)
    elif t == 'integer':
        if isinstance(v, bool) or not isinstance(v, int):
            return '%s: %r is no integer' % (here, v)
    elif t == 'number':
        if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v or v in (float('inf'), float('-inf')):
            return '%s: %r is no number' % (here, v)
    elif f == 'date':
        if not isinstance(v, datetime.date) or isinstance(v, datetime.datetime):
            return '%s: %r is no date' % (here, v)
        v = v.isoformat()
    elif f == 'date-time':
        if not isinstance(v, datetime.datetime):
            return '%s: %r is no date and time' % (here, v)
        v = v.isoformat()
    elif f == 'uuid':
        if not isinstance(v, uuid.UUID):
            return '%s: %r is no uuid' % (here, v)
        v = str(v)
    elif f == 'byte':
        if not isinstance(v, bytes):
            return '%s: %r is no bytes' % (here, v)
        if len(v) > (o['max_byte_length'] + 2) // 3 * 4:
            return '%s: %d bytes, option says %d' % (here, len(v), o['max_byte_length'])
        return None
    elif not isinstance(v, str):
        return '%s: %r is no string' % (here, v)
    if en:
        return None if any(x == v and isinstance(x, bool) == isinstance(v, bool) for x in en) else '%s: %r is none of %r' % (here, v, en)
    if t in ('integer', 'number'):
        if 'minimum' in s and (v < s['minimum'] or v == s['minimum'] and s.get('exclusiveMinimum')):
            return '%s: %r is below the minimum %r%s' % (here, v, s['minimum'], ' (exclusive)' if s.get('exclusiveMinimum') else '')
        if 'maximum' in s and (v > s['maximum'] or v == s['maximum'] and s.get('exclusiveMaximum')):
            return '%s: %r is above the maximum %r%s' % (here, v, s['maximum'], ' (exclusive)' if s.get('exclusiveMaximum') else '')
        if s.get('multipleOf') and v % s['multipleOf'] != 0:
            return '%s: %r is no multiple of %r' % (here, v, s['multipleOf'])
        if t == 'integer' and not -2 ** 63 <= v < 2 ** 63 or f == 'int32' and not -2 ** 31 <= v < 2 ** 31:
            return '%s: %r is no %s' % (here, v, f or 'int64')
        return None
    if t == 'string' and f in (None, 'password', 'email'):
        if len(v) < s.get('minLength', 0) or 'maxLength' in s and len(v) > s['maxLength']:
            return '%s: %d characters, allowed are %s to %s' % (here, len(v), s.get('minLength'), s.get('maxLength'))
        if f != 'email' and 'maxLength' not in s and len(v) > max(o['max_str_length'], s.get('minLength', 0)):
            return '%s: %d characters, option says %d' % (here, len(v), o['max_str_length'])
        if f == 'email' and (v.count('@') != 1 or '.' not in v.split('@')[1]):
            return '%s: %r is no email address' % (here, v)
    return None


def limits(node):
    t = json.dumps(node)
    return any('"%s"' % k in t for k in ('minimum', 'maximum', 'minLength', 'maxLength', 'minItems', 'maxItems', 'enum', 'multipleOf', 'minProperties', 'maxProperties', 'uniqueItems', 'required'))


def plain(v):
    if isinstance(v, dict):
        return dict((k, plain(x)) for k, x in v.items())
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, (datetime.date, datetime.datetime)):
        return v.isoformat()
    if isinstance(v, uuid.UUID):
        return str(v)
    if isinstance(v, bytes):
        import base64
        return base64.urlsafe_b64encode(v).decode('ascii')
    return v


def execute(plan, sim, res):
    import io
    from pyswagger.primitives import Renderer
    api = plan['api']
    world = World(sim)
    pub = rig.Published(world, api['docs'], api['entry'], {'channel': 'getter_class'})
    ext, sim.random.extreme = sim.random.extreme, 0.0
    app = pub.create()
    sim.random.extreme = ext
    m = model.Model(api['docs'], api['entry'])
    ops = m.ops()
    rnd = Renderer()
    seen = []

    def options(c):
        o = Renderer.default()
        if c.get('default'):
            return o
        for k, v in c['opt'].items():
            o[k] = [{'filename': x['filename'], 'data': io.BytesIO(x['text'].encode())} for x in v] if k == 'files' else v
        if c.get('ptpl'):
            o['parameter_template'] = dict(c['ptpl'])
        if c.get('otpl') and tplable(m, api):
            o['object_template'] = {'name': 'templated'}
        return o

    def alone(c, om, op, o, n):
        """a parameter or a schema alone is rendered by the same rules"""
        from pyswagger.utils import final
        kw = {'opt': o}
        if c.get('default'):
            kw = [{}, {'opt': None}, kw][n % 3]
        todo = []
        by = dict((p['name'], (p, d)) for p, d in om.params)
        for po in op.parameters:
            p, d = by[final(po).name]
            sch = p['schema'] if p['in'] == 'body' else dict((k, v) for k, v in p.items() if k not in ('required', 'in', 'name', 'collectionFormat'))
            todo.append((p['name'], po, sch, d))
        for x in sorted(api['docs'][api['entry']].get('definitions', ())):
            if x in c['alone']:
                todo.append((x, app.resolve('#/definitions/' + x.replace('~', '~0').replace('/', '~1')), {'$ref': '#/definitions/' + x.replace('~', '~0').replace('/', '~1')}, api['entry']))
        for x, obj, sch, d in todo:
            try:
                v = rnd.render(obj, **kw)
            except (kernel.SimDeadlock, RecursionError, MemoryError) as e:
                return 'ends', '%s alone: %s' % (x, type(e).__name__)
            except Exception as e:
                return 'render', '%s alone: %s: %s %s' % (x, type(e).__name__, str(e)[:150], util.tb(e))
            sim.count('probe:rendered_alone')
            e = judge(m, sch, d, v, o)
            if e:
                return 'limit', '%s alone%s' % (x, e if e.startswith('/') else ' ' + e)
        return None

    def one(i):
        c = plan['calls'][i]
        om = ops.get(c['op'])
        if om is None:
            return
        names = [p['name'] for p, _ in om.params]
        for n in range(c['times']):
            o = options(c)
            ex = [x for x in c.get('exclude', ())]
            before = repr(sorted((k, v) for k, v in o.items() if k != 'files'))
            op = app.op[c['op']]
            res.checks += 1
            d0 = sim.random.draws
            try:
                kw = {'opt': o}
                if c.get('default') and n % 2:
                    kw = {}
                if ex:
                    kw['exclude'] = ex
                got = rnd.render_all(op, **kw)
            except (kernel.SimDeadlock, RecursionError, MemoryError) as e:
                return res.bad('ends', '%s: %s' % (c['op'], type(e).__name__))
            except Exception as e:
                return res.bad('render', '%s: %s: %s %s' % (c['op'], type(e).__name__, str(e)[:150], util.tb(e)))
            sim.count('probe:rendered')
            sim.count('probe:draws', sim.random.draws - d0)
            if repr(sorted((k, v) for k, v in o.items() if k != 'files')) != before:
                res.bad('options', '%s changed the options it was given' % c['op'])
            if not isinstance(got, dict):
                return res.bad('render', '%s: %r' % (c['op'], got))
            tpl = o['parameter_template']
            for x in got:
                if x not in names:
                    return res.bad('names', '%s: unknown parameter %r' % (c['op'], x))
                if x in ex:
                    return res.bad('names', '%s: %r is excluded' % (c['op'], x))
            for p, d in om.params:
                x = p['name']
                if x in ex:
                    continue
                if x in tpl:
                    if x not in got or got[x] != tpl[x]:
                        return res.bad('template', '%s: %s is %r, its template says %r' % (c['op'], x, got.get(x), tpl[x]))
                    continue
                if x not in got:
                    if p.get('required'):
                        return res.bad('required', '%s: required parameter %s is not rendered' % (c['op'], x))
                    if o['max_parameter']:
                        return res.bad('options', '%s: no parameter %s, but all are asked for' % (c['op'], x))
                    continue
                if o['minimal_parameter'] and not p.get('required'):
                    return res.bad('options', '%s: parameter %s, but only required ones are asked for' % (c['op'], x))
                sch = p['schema'] if p['in'] == 'body' else dict((k, v) for k, v in p.items() if k not in ('required', 'in', 'name', 'collectionFormat'))
                e = judge(m, sch, d, got[x], o)
                if e:
                    return res.bad('limit', '%s %s%s' % (c['op'], x, e if e.startswith('/') else ' ' + e))
            seen.append(limits([p for p, _ in om.params]))
            if c.get('alone'):
                e = alone(c, om, op, o, n)
                if e:
                    return res.bad(*e)
            # accepted
            args = dict(got)
            for p, d in om.params:
                if p['name'] in ex and p.get('required'):
                    args = None
            if args is None:
                continue
            try:
                req, _ = op(**args)
            except Exception as e:
                return res.bad('accept', '%s refuses what was rendered for it: %s: %s %s' % (c['op'], type(e).__name__, str(e)[:150], util.tb(e)))
            sim.count('probe:accepted')
            try:
                req.prepare(scheme='http', handle_files=True)
            except Exception as e:
                return res.bad('accept', '%s can not be prepared with what was rendered: %s: %s %s' % (c['op'], type(e).__name__, str(e)[:150], util.tb(e)))
            for p, d in om.params:
                if p['in'] == 'body' and p['name'] in got:
                    body = json.loads(req.data)
                    e = model.jdiff(strip(body, got[p['name']]), plain(got[p['name']]))
                    if e:
                        return res.bad('body', '%s: the body is not what was rendered: %s' % (c['op'], e))
    lanes = plan['lanes']

    def lane(l):
        def f():
            for i in l:
                if i < len(plan['calls']):
                    one(i)
        return f
    sim.section()
    if len(lanes) == 1:
        lane(lanes[0])()
    else:
        for t in sim.run_tasks([lane(l) for l in lanes], plan['sched']):
            if t.error is not None:
                res.bad('hang' if sim.hung else 'thread', '%s: %s %s' % (type(t.error).__name__, t.error, util.tb(t.error)))
    sim.count('fault:extreme_draws', sim.random.extremes)
    res.nontrivial = any(seen)
    res.sig = util.h([api, plan['calls'], plan.get('run'), sorted(sim.sigs)])
    res.sample = {'operations': sorted(ops), 'calls': [[c['op'], c['opt']] for c in plan['calls'][:4]], 'extreme': plan['extreme'], 'schedule': plan['sched']}


def strip(body, got):
    return body


def tplable(m, api):
    """may a text be put wherever a property is called name?"""
    def walk(n):
        if isinstance(n, dict):
            p = n.get('properties')
            if isinstance(p, dict) and 'name' in p:
                s = p['name']
                if s.get('type') != 'string' or s.get('format') or s.get('enum') or s.get('readOnly') or not s.get('minLength', 0) <= 9 <= s.get('maxLength', 9):
                    return False
            # an array of equal objects could not be unique
            if n.get('uniqueItems'):
                return False
            return all(walk(x) for x in n.values())
        if isinstance(n, list):
            return all(walk(x) for x in n)
        return True
    return all(walk(d) for d in api['docs'].values())
