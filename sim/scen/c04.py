"""C04: each document is fetched once and everything reflects that fetch."""
import json

from .. import gen, rig, observe, model
from ..gen import chance, pick
from ..world import World
from . import util, c01

ID = 'C04'
RUNS = {'quick': 300, 'thorough': 10000}
BATCH = 40
RULE = 'a run drives groups of applications over documents that change with every fetch; distinct runs are counted by (document set, program, schedule)'
COMPONENTS = util.components('load')
ASSUMPTIONS = ['every fetch of a document sees a new version of it']
SHRINK = c01.SHRINK + ['steps', 'steps.*.sched.preempt', 'steps.*.work']


def stamp(node, v, key=None):
    """a version of a document: every description in it says which"""
    if isinstance(node, dict):
        out = dict((k, stamp(x, v, k)) for k, x in node.items())
        if key in ('info',):
            out['title'] = 'v%d' % v
        if 'type' in node and isinstance(node['type'], str) and key not in ('items',) and '$ref' not in node or 'responses' in node and 'operationId' in node \
                or key == 'schema' and '$ref' not in node or 'nickname' in node or 'resourcePath' in node:
            out['description'] = 'v%d' % v
        if 'description' in node:
            out['description'] = 'v%d' % v
        return out
    if isinstance(node, list):
        return [stamp(x, v, key) for x in node]
    return node


def many(rng, api):
    """many more documents, some wanted by the first one, some only later"""
    n = rng.randint(6, 24)
    names = ['many/t%d.json' % i for i in range(n)]
    root = api['docs'][api['entry']].setdefault('definitions', {})
    for i, d in enumerate(names):
        api['docs'][d] = {'definitions': {'A': {'type': 'object', 'description': 'd', 'properties': {'id': {'type': 'integer'}}}, 'B': {'type': 'string', 'description': 'd'}}}
        k = rng.random()
        if k < .5:
            root['Many%d' % i] = {'$ref': d + '#/definitions/' + pick(rng, ['A', 'B'])}
        elif k < .8:
            api['docs'][d]['definitions']['A']['properties']['next'] = {'$ref': 't%d.json#/definitions/A' % rng.randint(i, n - 1)}


def generate(rng, tier):
    v12 = chance(rng, .15)
    api = gen.gen_api12(rng) if v12 else gen.gen_api(rng, ndocs=pick(rng, [2, 3, 4, 5, 6]), ndefs=rng.randint(3, 10), nops=rng.randint(1, 3))
    if not v12 and chance(rng, .25):
        many(rng, api)
    entries = [api['entry']]
    ts = []
    if not v12:
        entries += [d for d in sorted(api['docs']) if d != api['entry'] and 'swagger' in api['docs'][d]]
        ts = util.ref_targets(api)
    steps = []
    apps = []
    ngroups = pick(rng, [1, 1, 2])
    for _ in range(rng.randint(1, 3)):
        g = rng.randrange(ngroups)
        e = api['entry'] if chance(rng, .7) else pick(rng, entries)
        if chance(rng, .3):
            # several applications at once
            es = [e if chance(rng, .5) else pick(rng, entries) for _ in range(rng.randint(2, 3))]
            steps.append({'do': 'together', 'g': g, 'entries': es, 'sched': gen.gen_sched(rng, len(es), 30000)})
            apps += [g] * len(es)
        else:
            steps.append({'do': 'create', 'g': g, 'entry': e})
            apps.append(g)
        for _ in range(rng.randint(0, 6)):
            k = rng.random()
            a = rng.randrange(len(apps))
            if v12 or not ts:
                continue
            if k < .55:
                steps.append({'do': 'resolve', 'app': a, 't': pick(rng, ts)})
            elif k < .8:
                n = rng.randint(2, 3)
                same = [i for i in range(len(apps)) if apps[i] == apps[a]]
                tt = [pick(rng, ts) for _ in range(rng.randint(1, 3))]
                work = [[[pick(rng, same), pick(rng, tt) if chance(rng, .6) else pick(rng, ts)] for _ in range(rng.randint(1, 3))] for _ in range(n)]
                steps.append({'do': 'threads', 'work': work, 'sched': gen.gen_sched(rng, n, 8000)})
            else:
                steps.append({'do': 'calls', 'app': a, 'calls': util.gen_plain_calls(rng, api, 2), 'seed': rng.randrange(1000)})
    n = len(api['docs'])
    place = rig.gen_place(rng, v12=v12, how=False)
    return {'api': api, 'place': place, 'delivery': gen.gen_delivery(rng), 'steps': steps, 'own': chance(rng, .3) and ngroups == 1,
            'faults': gen.gen_faults(rng, c01.kinds_for(place['channel']), rng.randint(1, 3), n + 2) if chance(rng, .4) else {}}


def execute(plan, sim, res):
    api = plan['api']
    v12 = bool(api.get('v12'))
    w = World(sim, delivery=plan.get('delivery'), faults=plan.get('faults'))
    pub = rig.Published(w, api['docs'], api['entry'], plan.get('place') or {}, v12)
    version = {}
    served = {}
    cur = {'g': None}

    def source(n, as_dict):
        def src(ok):
            version[n] = version.get(n, 0) + 1
            if ok:
                served.setdefault(cur['g'], {}).setdefault(n, []).append(version[n])
            pub.docs = dict(pub.docs)
            old = pub.docs[n]
            pub.docs[n] = stamp(api['docs'][n], version[n])
            data = pub.bytes_of(n)
            pub.docs[n] = old
            return json.loads(data.decode('utf-8')) if as_dict else data
        return src

    for n in api['docs']:
        st, k = pub.key(n)
        st[k] = source(n, isinstance(st[k], dict))
    resolvers = {}
    apps = []
    resolved = []
    built = []

    def attempt(what, fn, ok=lambda: True):
        for i in range(8):
            if i == 6:
                w.faults.off = True
            before = len(w.faults.fired)
            try:
                return fn()
            except Exception as e:
                sim.log('failed', what, type(e).__name__)
                if len(w.faults.fired) == before:
                    res.bad('failed', '%s: %s: %s %s' % (what, type(e).__name__, str(e)[:250], util.tb(e)))
                    return None
        return None

    for si, s in enumerate(plan['steps']):
        if res.violations:
            break
        sim.section()
        do = s['do']
        if do == 'create':
            if plan.get('own'):
                g = 'own%d' % si
                r = None
            else:
                g = s['g']
                if g not in resolvers:
                    resolvers[g] = pub.resolver()
                r = resolvers[g]
            cur['g'] = g
            if s['entry'] not in api['docs']:
                continue

            def create():
                # a failed create without a resolver to keep forgets all
                if plan.get('own'):
                    served.pop(g, None)
                a = pub.load(resolver=r, entry=s['entry'])
                a.prepare(strict=False)
                return a
            a = attempt('create %s' % s['entry'], create)
            if a is not None:
                apps.append((g, s['entry'], a))
        elif do == 'together':
            es = [e for e in s['entries'] if e in api['docs']]
            if not es or plan.get('own'):
                continue
            g = cur['g'] = s['g']
            if g not in resolvers:
                resolvers[g] = pub.resolver()

            def creator(e):
                def f():
                    for n in range(6):
                        try:
                            a = pub.load(resolver=resolvers[g], entry=e)
                            a.prepare(strict=False)
                            return a
                        except Exception as x:
                            me = sim.current.tid
                            if not [y for y in w.faults.fired if y[3] == me]:
                                raise
                            if n > 3:
                                w.faults.off = True
                return f
            for e, t in zip(es, sim.run_tasks([creator(e) for e in es], s.get('sched'))):
                if t.error is not None:
                    res.bad('thread', 'create %s: %s: %s %s' % (e, type(t.error).__name__, t.error, util.tb(t.error)))
                elif t.result is not None:
                    apps.append((g, e, t.result))
            sim.count('probe:concurrent_creates')
        elif do == 'resolve' and s['app'] < len(apps):
            g, e, a = apps[s['app']]
            cur['g'] = g
            t = s['t']
            if util.exists(api, t):
                o = attempt('resolve %s' % (t,), lambda: util.resolve(a, pub, t))
                if o is not None:
                    resolved.append((g, t, o))
        elif do == 'threads' and s['work'] and all(i < len(apps) for wk in s['work'] for i, t in wk):
            gs = set(apps[i][0] for wk in s['work'] for i, t in wk)
            if len(gs) != 1:
                continue
            cur['g'] = gs.pop()

            def task(wk):
                def f():
                    out = []
                    for i, t in wk:
                        if not util.exists(api, t):
                            continue
                        for n in range(6):
                            try:
                                out.append((apps[i][0], t, util.resolve(apps[i][2], pub, t)))
                                break
                            except Exception as e:
                                me = sim.current.tid
                                if not [x for x in w.faults.fired if x[3] == me]:
                                    out.append((t, e))
                                    break
                                if n > 3:
                                    w.faults.off = True
                    return out
                return f
            for t in sim.run_tasks([task(wk) for wk in s['work']], s.get('sched')):
                if t.error is not None:
                    res.bad('thread', '%s: %s %s' % (type(t.error).__name__, t.error, util.tb(t.error)))
                    continue
                for x in t.result:
                    if len(x) == 2:
                        res.bad('thread', 'resolving %s: %s: %s %s' % (x[0], type(x[1]).__name__, str(x[1])[:200], util.tb(x[1])))
                    else:
                        resolved.append(x)
            sim.count('probe:concurrent_sections')
        elif do == 'calls' and s['app'] < len(apps):
            g, e, a = apps[s['app']]
            if e != api['entry']:
                continue
            n = w.faults.n
            got = util.requests_of(a, pub, s['calls'])
            built.append((g, e, s['calls'], got))
            for c in s['calls']:
                util.parse_something(a, api, c, s['seed'])
            res.checks += 1
            if w.faults.n != n or w.fetches and False:
                res.bad('fetch', 'a call with a prepared application fetched documents: %s' % w.fetches[-3:])
        for g, d in served.items():
            for n, vs in d.items():
                res.checks += 1
                if len(vs) > 1:
                    res.bad('twice', '%s was fetched %d times (step %s)' % (n, len(vs), json.dumps(s)[:200]))
                    return
    total = sum(len(d) for d in served.values())
    sim.count('probe:documents_fetched', total)
    # against frozen snapshots
    for g in sorted(set(x[0] for x in apps), key=str):
        snap = dict((n, stamp(api['docs'][n], served.get(g, {}).get(n, [0])[0])) for n in api['docs'])
        w2 = World(sim)
        p2 = rig.Published(w2, snap, api['entry'], plan.get('place') or {}, v12)
        r2 = p2.resolver()
        frozen = {}
        for g2, e, a in apps:
            if g2 != g:
                continue
            sim.section()
            if e not in frozen:
                b = p2.load(resolver=r2, entry=e)
                b.prepare(strict=False)
                frozen[e] = (b, observe.describe(b, p2))
            res.checks += 1
            x = observe.first_diff(observe.describe(a, pub), frozen[e][1])
            if x:
                res.bad('mixed', 'application of group %s on %s does not show the documents it fetched %s: %s' % (g, e, served.get(g), x))
            if not v12 and e == api['entry']:
                m = model.Model(snap, e)
                for x in observe.check_model(observe.describe(a, pub), m)[:1]:
                    res.bad('mixed', 'application of group %s: %s' % (g, x))
        for g2, t, o in resolved:
            if g2 == g:
                res.checks += 1
                try:
                    x = util.faithful({'docs': snap, 'entry': api['entry']}, t, observe.describe_obj(o, pub.canon))
                except Exception as e:
                    x = '%s: %s' % (type(e).__name__, e)
                if x:
                    res.bad('mixed', 'group %s: %s resolved from something else than was fetched: %s' % (g, t, x))
        for g2, e, calls, got in built:
            if g2 == g and e in frozen:
                res.checks += 1
                if util.requests_of(frozen[e][0], p2, calls) != got:
                    res.bad('mixed', 'group %s builds other requests: %s' % (g, got[:2]))
    res.nontrivial = total > 1
    res.sig = util.h([api, plan['steps'], plan.get('faults')])
    res.sample = {'documents': sorted(api['docs']), 'steps': [s['do'] for s in plan['steps']], 'served': dict((str(g), d) for g, d in served.items())}
