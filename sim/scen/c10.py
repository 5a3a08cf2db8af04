"""C10: applications in one process are isolated."""
import gc
import json
import re

from . import util
from .. import clients, gen, model, net, observe, rig
from ..gen import chance, pick
from ..world import World

ID = 'C10'
RUNS = {'quick': 500, 'thorough': 30000}
BATCH = 63
RULE = 'a run that uses at least two applications which differ in documents, version or customisation; distinct by documents, customisations, histories and interleaving'
COMPONENTS = util.components('both')
ASSUMPTIONS = ['customisations are made by one thread per application, and not while that application is being used by another',
               'a factory or a codec table handed to one application only is that application\'s own',
               'documents published at one address for several applications in turn are loaded by each while they are its own']
SHRINK = ('lanes', 'lanes.*', 'apps.*.regs', 'apps.*.sub.calls', 'apps.*.sub.calls.*.args', 'apps.*.sub.calls.*.replies', 'apps.*.api.docs.*.paths',
          'apps.*.api.docs.*.definitions', 'apps.*.api.docs')
STEP = 100                    # rids of one application

BODY = {'type': 'object', 'properties': {'up': {'type': 'string', 'format': 'x-up'}, 'day': {'type': 'string', 'format': 'date'},
                                         'num': {'type': 'integer', 'format': 'int32'}, 'plain': {'type': 'string'},
                                         'ups': {'type': 'array', 'items': {'type': 'string', 'format': 'x-up'}}}}
OWN = 'application/x-own'
JSON = 'application/json'
PRIMS = [['string', 'x-up'], ['string', 'date'], ['integer', 'int32'], ['string', None], ['money', 'eur']]


def custom_op(api):
    root = api['docs'][api['entry']]
    root.setdefault('definitions', {})['Custom'] = BODY
    root['paths']['/custom'] = {'post': {
        'operationId': 'customOp', 'consumes': [OWN, JSON, 'text/plain'], 'produces': [JSON, OWN],
        'parameters': [{'name': 'body', 'in': 'body', 'required': True, 'schema': {'$ref': '#/definitions/Custom'}},
                       {'name': 'q', 'in': 'query', 'type': 'string', 'format': 'x-up'},
                       {'name': 'n', 'in': 'header', 'type': 'integer', 'format': 'int32'}],
        'responses': {'200': {'description': 'd', 'schema': {'$ref': '#/definitions/Custom'}, 'headers': {'X-Up': {'type': 'string', 'format': 'x-up'}}}}}}


def gen_regs(rng, i, generic):
    """what an application registers; with generic calls nothing that they use"""
    out = []
    for t, f in PRIMS:
        if generic and (t, f) != ('string', 'x-up') and t != 'money':
            continue
        if chance(rng, .5 if generic else .4):
            out.append({'what': 'prim', 'type': t, 'format': f, 'tag': 'p%d%s' % (i, f or 'any'), 'late': chance(rng, .4)})
    if chance(rng, .5):
        out.append({'what': 'codec', 'mime': pick(rng, [OWN, OWN.upper()]), 'tag': 'c%d' % i, 'late': chance(rng, .4)})
    if not generic and chance(rng, .35):
        out.append({'what': 'codec', 'mime': JSON, 'tag': 'j%d' % i, 'late': chance(rng, .4)})
    if not generic and chance(rng, .25):
        out.append({'what': 'uncodec', 'mime': 'text/plain', 'late': chance(rng, .4)})
    return out


def renumber(calls, base):
    return json.loads(re.sub(r'rid-(\d+)-z', lambda m: 'rid-%d-z' % (int(m.group(1)) + base), json.dumps(calls)))


def gen_app(rng, i, group):
    v12 = chance(rng, .25)
    if v12:
        api = gen.gen_api12(rng)
    else:
        api = gen.gen_api(rng, ndocs=rng.randint(1, 3), ndefs=rng.randint(1, 5), nops=rng.randint(1, 3), security=chance(rng, .4), files=chance(rng, .15))
        clients.reachable(rng, api, 1)
    place = rig.gen_place(rng, v12=v12, how=False)
    place['base'] = 'a%d/%s' % (i, pick(rng, ['x', 'y/z']))
    a = {'api': api, 'place': place, 'sub': {}, 'group': group}
    if chance(rng, .3):
        a['sep'] = pick(rng, [':', '--', '!'])
    generic = chance(rng, .6) and not v12
    if not v12:
        if generic:
            sub = {'api': api}
            if 'securityDefinitions' in api['docs'][api['entry']]:
                sub['secs'] = util.gen_secs(rng, api, 1)
            clients.gen_calls(rng, sub, rng.randint(1, 4), faults=pick(rng, [0, .2]), bad=.1, wrong=.05, loops=False,
                              file_fn=lambda r: clients.gen_file(r, ['bytesio', 'raw']))
            del sub['api'], sub['lanes']
            base = i * STEP
            sub['calls'] = dict((str(int(k) + base), renumber(c, base)) for k, c in sub['calls'].items())
            a['sub'] = sub
        custom_op(api)
        a['plain'] = util.gen_plain_calls(rng, dict(api), 2)
        if any(r['op'] == 'customOp' for r in a['plain']):
            a['plain'] = [r for r in a['plain'] if r['op'] != 'customOp']
    else:
        a['plain'] = plain12(api)
    a['regs'] = gen_regs(rng, i, generic)
    if not generic:
        # requests without customs: they would use them
        a['plain'] = a['plain'] if v12 and not [r for r in a['regs'] if r['what'] == 'prim' or r.get('mime') == JSON] else []
    if chance(rng, .2):
        ks = ['missing']
        if place['fmt'] in rig.PLAIN_JSON and not place.get('as_dict'):
            ks.append('torn')
        if not v12:
            ks.append('badref')
        a['broken'] = pick(rng, ks)
    return a


def plain12(api):
    out = []
    for n in sorted(api['docs']):
        for x in api['docs'][n].get('apis', ()):
            for o in x.get('operations', ()):
                args = {'rid': 'rid-1-z'}
                for p in o['parameters']:
                    if p['name'] == 'payload':
                        args['payload'] = {'id': 3, 'name': 'n'}
                    elif p['name'] == 'limit':
                        args['limit'] = 4
                    elif p['name'] == 'sort':
                        args['sort'] = ['a', 'b']
                out.append({'op': o['nickname'], 'args': args})
    return out


def gen_steps(rng, i, a):
    v12 = a['api'].get('v12')
    steps = []
    ts = [] if v12 or a['group'] is not None else util.ref_targets(a['api'])
    for rid in sorted(a['sub'].get('calls', {}), key=int):
        steps.append([i, 'call', rid])
    for _ in range(rng.randint(0, 2)):
        steps.append([i, 'describe'])
    if a['plain']:
        steps.append([i, 'requests'])
    for _ in range(rng.randint(0, 3)):
        if ts:
            steps.append([i, 'resolve', pick(rng, ts)])
    if not v12:
        for j in range(rng.randint(1, 4)):
            steps.append([i, 'custom', j, pick(rng, [OWN, JSON, JSON, 'text/plain'])])
    steps.append([i, 'factory'])
    rng.shuffle(steps)
    if any(r['late'] for r in a['regs']):
        steps.insert(rng.randrange(len(steps) + 1), [i, 'late'])
    steps.insert(0, [i, 'load'])
    if chance(rng, .15):
        k = rng.randint(1, len(steps))
        steps = steps[:k] + [[i, 'drop', chance(rng, .3)]]
    return steps


def merge(rng, hs):
    """one of the interleavings of histories, in runs"""
    hs = [list(h) for h in hs if h]
    out = []
    while hs:
        h = pick(rng, hs)
        for _ in range(rng.randint(1, 4)):
            if h:
                out.append(h.pop(0))
        hs = [x for x in hs if x]
    return out


def generate(rng, tier):
    n = pick(rng, [2, 2, 3, 3, 4])
    apps = []
    group = 0 if chance(rng, .3) else None
    for i in range(n):
        apps.append(gen_app(rng, i, group if i < 2 else None))
    if group is not None:
        apps[1]['place'] = dict(apps[0]['place'])
        if bool(apps[0]['api'].get('v12')) != bool(apps[1]['api'].get('v12')):
            for a in apps[:2]:
                a['place'].pop('ext', None)
                if a['place']['fmt'] == 'yaml-int':
                    a['place']['fmt'] = 'yaml'
        for a in apps[:2]:
            if a.get('broken') == 'torn' and (a['place']['fmt'] not in rig.PLAIN_JSON or a['place'].get('as_dict')):
                a['broken'] = 'missing'
    nl = rng.randint(1, min(3, n))
    lanes = [[] for _ in range(nl)]
    for i in range(n):
        lanes[0 if apps[i]['group'] is not None else rng.randrange(nl)].append(gen_steps(rng, i, apps[i]))
    lanes = [merge(rng, l) for l in lanes]
    lanes = [l for l in lanes if l]
    return {'apps': apps, 'lanes': lanes, 'sched': gen.gen_sched(rng, len(lanes), 20000), 'delivery': gen.gen_delivery(rng)}


# --- customisations ------------------------------------------------------------------------------

class Own(object):
    """a user's codec, as the documentation shows one"""

    def __init__(self, tag):
        self.tag = tag

    def told(self, k):
        # what the documentation says is available
        got = tuple(k.get(x) for x in ('name', '_type', '_format'))
        if got != ('Custom', 'object', None):
            raise ValueError('the codec is told of %r' % (got,))

    def marshal(self, value, **k):
        self.told(k)
        from pyswagger.primitives.comm import PrimJSONEncoder
        return self.tag + '|' + json.dumps(value, cls=PrimJSONEncoder, sort_keys=True)

    def unmarshal(self, data, **k):
        self.told(k)
        if isinstance(data, bytes):
            data = data.decode('utf-8')
        t, _, rest = data.partition('|')
        if t != self.tag:
            raise ValueError('%s is not for %s' % (data[:30], self.tag))
        return json.loads(rest)


def creater(tag):
    return lambda obj, val, ctx: tag + ':' + str(val)


class One(object):
    """one application and everything its user knows about it"""

    def __init__(self, plan, i, w, sim):
        self.plan = plan['apps'][i]
        self.i = i
        self.w = w
        self.sim = sim
        self.app = None
        self.st = None
        self.pub = None
        self.prims = {}
        self.codecs = {}
        self.gone = []
        self.outs = []

    @property
    def sep(self):
        return self.plan.get('sep') or '!##!'

    def publish(self):
        a = self.plan['api']
        if self.pub is None:
            self.pub = rig.Published(self.w, a['docs'], a['entry'], self.plan['place'], bool(a.get('v12')))
        else:
            self.pub.set(a['docs'])

    def load(self, broken=True):
        from pyswagger.primitives import Primitive, MimeCodec
        self.publish()
        kw = {}
        now = [r for r in self.plan['regs'] if not r['late']]
        if any(r['what'] == 'prim' for r in now):
            kw['prim'] = Primitive()
        if any(r['what'] != 'prim' for r in now):
            kw['codec'] = MimeCodec()
        if self.plan.get('sep'):
            kw['sep'] = self.plan['sep']
        for r in now:
            self.register(r, kw.get('prim'), kw.get('codec'))
        err = None
        if broken and self.plan.get('broken'):
            self.break_it()
            try:
                self.pub.create(**kw)
            except Exception as e:
                err = e
            if err is None:
                return 'a broken document (%s) loads' % self.plan['broken']
            self.sim.count('probe:failed_load')
            self.publish()
        self.app = self.pub.create(**kw)
        sub = self.plan['sub']
        if sub:
            self.st = clients.Stage(sub, self.sim, self.app, self.pub, api=self.plan['api'], registry=True)
        return None

    def break_it(self):
        k = self.plan['broken']
        ent = self.plan['api']['entry']
        st, key = self.pub.key(ent)
        if k == 'missing':
            self.pub.remove(ent)
        elif k == 'torn':
            st[key] = st[key][:len(st[key]) // 2]
        else:
            docs = json.loads(json.dumps(self.plan['api']['docs']))
            docs[ent].setdefault('definitions', {})['Dangling'] = {'type': 'object', 'properties': {'x': {'$ref': '#/definitions/Nowhere'}}}
            self.pub.set(docs)

    def register(self, r, prim, codec):
        if r['what'] == 'prim':
            prim.register(r['type'], r['format'], creater(r['tag']))
            self.prims[(r['type'], r['format'])] = r['tag']
        elif r['what'] == 'codec':
            codec.register(r['mime'], Own(r['tag']))
            self.codecs[r['mime'].lower()] = r['tag']
        else:
            codec.unregister(r['mime'])
            self.gone.append(r['mime'])

    def late(self):
        for r in self.plan['regs']:
            if r['late']:
                self.register(r, self.app.prim_factory, self.app.mime_codec)

    # what the customisations make of values
    def conv(self, t, f, v):
        tag = self.prims.get((t, f))
        if tag is None and f in ('x-up',):
            tag = self.prims.get((t, None))
        if tag is not None:
            return tag + ':' + str(v)
        return v

    def body(self, v):
        return {'up': self.conv('string', 'x-up', v['up']), 'day': self.conv('string', 'date', v['day']), 'num': self.conv('integer', 'int32', v['num']),
                'plain': self.conv('string', None, v['plain']), 'ups': [self.conv('string', 'x-up', x) for x in v['ups']]}

    def custom(self, j, mime):
        """a difference, or None"""
        v = {'up': 'v%d' % j, 'day': '2015-01-0%d' % (j + 1), 'num': j, 'plain': 'p%d' % j, 'ups': ['u', 'w%d' % j]}
        op = self.app.op['customOp']
        req, resp = op(body=json.loads(json.dumps(v)), q='q%d' % j, n=j)
        want = self.body(v)
        req.consume(mime)
        gone = mime in self.gone or mime == OWN and OWN not in self.codecs
        try:
            req.prepare(scheme='http')
        except Exception as e:
            return None if gone else 'prepare for %s: %s %s' % (mime, e, util.tb(e))
        if gone:
            return '%s is encoded though there is no codec: %r' % (mime, req.data)
        if dict(req.query).get('q') != self.conv('string', 'x-up', 'q%d' % j):
            return 'query %r, expected %r' % (req.query, self.conv('string', 'x-up', 'q%d' % j))
        if req.header.get('n') != [str(self.conv('integer', 'int32', j))] and req.header.get('n') != str(self.conv('integer', 'int32', j)):
            return 'header n %r, expected %r' % (req.header.get('n'), self.conv('integer', 'int32', j))
        tag = self.codecs.get(mime)
        if mime != 'text/plain':
            text = req.data
            if tag is not None:
                t, _, text = text.partition('|')
                if t != tag:
                    return '%s body %r, expected the codec %s' % (mime, req.data, tag)
            try:
                got = json.loads(text)
            except ValueError:
                return '%s body %r is not of the codec %s' % (mime, req.data, tag)
            d = model.jdiff(got, want)
            if d:
                return '%s body%s' % (mime, d)
        # and the way back
        back = JSON if mime == 'text/plain' else mime
        tag = self.codecs.get(back)
        resp.apply_with(status=200, raw=((tag + '|' if tag else '') + json.dumps(v)).encode('utf-8'), header=[('Content-Type', back), ('X-Up', 'h%d' % j)])
        d = model.jdiff(clients.plain(resp.data), want)
        if d:
            return '%s response%s' % (back, d)
        if ('string', 'date') not in self.prims and type(resp.data['day']).__name__ != 'Date':
            return 'response: day is a %s' % type(resp.data['day']).__name__
        if resp.header.get('X-Up') != [self.conv('string', 'x-up', 'h%d' % j)]:
            return 'header X-Up %r, expected %r' % (resp.header.get('X-Up'), self.conv('string', 'x-up', 'h%d' % j))
        return None

    def factory(self):
        """what the application's own factory and codec table know"""
        out = []
        f = self.app.prim_factory
        if f.is_primitive('money') != (('money', 'eur') in self.prims):
            out.append('money is %sknown' % ('' if f.is_primitive('money') else 'un'))
        for m in (OWN, JSON, 'text/plain'):
            c = self.app.mime_codec.codec(m)
            if isinstance(c, Own) != (m in self.codecs) or isinstance(c, Own) and c.tag != self.codecs[m]:
                out.append('the codec of %s is %s' % (m, getattr(c, 'tag', c)))
            if (c is None) != (m in self.gone or m == OWN and m not in self.codecs):
                out.append('the codec of %s is %r' % (m, c))
        return '; '.join(out) or None


def outcome(f):
    try:
        return ['ok', f()]
    except Exception as e:
        return ['raised', '%s: %s %s' % (type(e).__name__, str(e)[:200], util.tb(e))]


def execute(plan, sim, res):
    w = World(sim, delivery=plan.get('delivery'))
    ones = [One(plan, i, w, sim) for i in range(len(plan['apps']))]
    stray = []

    def dispatch(wire):
        m = clients.RID.search(wire_text(wire))
        k = int(m.group(1)) // STEP if m else -1
        if not 0 <= k < len(ones) or ones[k].st is None:
            stray.append(wire)
            return net.Reply(500, [], b'{}')
        return ones[k].st.handle(wire)
    net.CallServer(sim, dispatch)
    seen = []                                    # (app, what, argument, outcome)
    bad = []

    def lane(steps):
        def f():
            for s in steps:
                o = ones[s[0]]
                if s[1] == 'load':
                    e = o.load()
                    if e:
                        bad.append((s[0], e))
                elif o.app is None:
                    continue
                elif s[1] == 'late':
                    o.late()
                elif s[1] == 'call':
                    if s[2] in o.plan['sub'].get('calls', {}):
                        o.st.call(s[2])
                elif s[1] == 'custom':
                    sim.count('probe:custom')
                    e = o.custom(s[2], s[3])
                    if e:
                        bad.append((s[0], 'customOp: ' + e))
                elif s[1] == 'factory':
                    e = o.factory()
                    if e:
                        bad.append((s[0], e))
                elif s[1] == 'describe':
                    seen.append((s[0], 'describe', None, outcome(lambda: observe.describe(o.app, o.pub, sep=o.sep))))
                elif s[1] == 'requests':
                    seen.append((s[0], 'requests', None, outcome(lambda: util.requests_of(o.app, o.pub, o.plan['plain']))))
                elif s[1] == 'resolve':
                    seen.append((s[0], 'resolve', s[2], outcome(lambda: observe.describe_obj(util.resolve(o.app, o.pub, s[2]), o.pub.canon))))
                elif s[1] == 'drop':
                    o.app = None
                    if o.st is not None:
                        o.st.app = None
                        o.st.pairs.clear()
                        o.st.secs = []
                        o.st.clients.clear()
                    if s[2]:
                        gc.collect()
        return f
    tasks = sim.run_tasks([lane(l) for l in plan['lanes']], plan.get('sched'))
    for t in tasks:
        if t.error is not None:
            res.bad('hang' if sim.hung else 'thread', 'lane %d: %s: %s %s' % (t.tid, type(t.error).__name__, str(t.error)[:300], util.tb(t.error)))
            return
    # everything once more, when all is over
    for o in ones:
        if o.app is not None:
            seen.append((o.i, 'describe', None, outcome(lambda: observe.describe(o.app, o.pub, sep=o.sep))))
            if o.plan['plain']:
                seen.append((o.i, 'requests', None, outcome(lambda: util.requests_of(o.app, o.pub, o.plan['plain']))))
            e = o.factory()
            if e:
                bad.append((o.i, 'afterwards: ' + e))
    for i, e in bad:
        res.bad('custom', 'application %d: %s' % (i, e))
    for wr in stray:
        res.bad('stray', 'a request that belongs to no call: %s %s' % (wr.method, wr.url))
    for o in ones:
        if o.st is None:
            continue
        for rec in o.st.recs:
            res.checks += 1
            sim.count('probe:calls')
            clients.judge_wire(o.st, rec, res, creds=o.st.creds_of(rec))
            if rec.where == 'send':
                clients.judge_reply(o.st, rec, res, mime=False)
    if res.violations:
        return
    # each of them alone
    want = {}
    used = sorted(set(s[0] for s in seen))
    w2 = None
    for i in used:
        w2 = World(sim)
        a = One(plan, i, w2, sim)
        e = a.load(broken=False)
        d = observe.describe(a.app, a.pub, sep=a.sep)
        want[(i, 'describe', None)] = ['ok', d]
        if a.plan['plain']:
            want[(i, 'requests', None)] = ['ok', util.requests_of(a.app, a.pub, a.plan['plain'])]
        for s in seen:
            if s[0] == i and s[1] == 'resolve':
                k = (i, 'resolve', repr(s[2]))
                if k not in want:
                    want[k] = outcome(lambda: observe.describe_obj(util.resolve(a.app, a.pub, s[2]), a.pub.canon))
        if not a.plan['api'].get('v12'):
            for x in observe.check_model(d, model.Model(a.plan['api']['docs'], a.plan['api']['entry']), a.sep):
                res.bad('alone', 'application %d alone: %s' % (i, x))
    for i, what, arg, got in seen:
        res.checks += 1
        sim.count('probe:compared_' + what)
        k = (i, what, None if arg is None else repr(arg))
        x = observe.first_diff(got, want[k])
        if x:
            res.bad('differs', 'application %d, %s %s: %s (alone: second)' % (i, what, '' if arg is None else arg[:2], x))
    kinds = set(json.dumps([sorted(plan['apps'][i]['api']['docs']), plan['apps'][i]['regs'], plan['apps'][i]['api'].get('v12')], sort_keys=True) for i in used)
    res.nontrivial = len(kinds) >= 2
    res.sig = util.h([plan['apps'], plan['lanes'], sorted(sim.sigs)])
    res.sample = {'apps': [{'version': '1.2' if a['api'].get('v12') else '2.0', 'regs': a['regs'], 'sep': a.get('sep'), 'broken': a.get('broken'), 'group': a['group']} for a in plan['apps']],
                  'lanes': plan['lanes'], 'schedule': plan.get('sched')}


def wire_text(wire):
    import urllib.parse
    return urllib.parse.unquote(wire.url) + ' ' + ' '.join(wire.header('X-Rid'))
