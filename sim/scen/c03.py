"""C03: what a reference resolves to does not depend on history or garbage
collection."""
from .. import gen, rig, observe, model
from ..gen import chance, pick
from ..world import World
from . import util
from .c02 import close_cycle

ID = 'C03'
RUNS = {'quick': 380, 'thorough': 14000}
BATCH = 50
RULE = 'a run resolves references of one document set in two histories (orders, repetitions, failing references and collections in between) and compares every result with the documents and with the other history; distinct runs are counted by (document set, histories)'
COMPONENTS = util.components('load')
ASSUMPTIONS = ['references name objects of the specification and are resolved with the parser of that kind of object']
SHRINK = ['api.docs.*.paths', 'api.docs.*.definitions', 'api.docs.*.definitions.*.properties', 'api.docs', 'api.docs.*.parameters', 'api.docs.*.responses',
          'histories.*.steps', 'delivery', 'place', 'faults']


def generate(rng, tier):
    api = gen.gen_api(rng, ndocs=pick(rng, [1, 2, 3, 4, 5, 6]), ndefs=rng.randint(4, 14), nops=rng.randint(1, 3))
    if chance(rng, .25):
        close_cycle(rng, api)
    ts = util.ref_targets(api)
    # names that are prefixes of others, and things below one another, are the
    # interesting company
    n = rng.randint(2, 14)
    chosen = [pick(rng, ts) for _ in range(n)]
    for t in list(chosen):
        near = [x for x in ts if x[0] == t[0] and (x[1].startswith(t[1]) or t[1].startswith(x[1]) or x[1].rsplit('/', 1)[0] == t[1].rsplit('/', 1)[0])]
        if near and chance(rng, .5):
            chosen.append(pick(rng, near))
    hs = []
    plain = util.plain_targets(api)
    kinds = dict(((t[0], t[1]), t[2]) for t in ts)
    plain = [t for t in plain if t[0] != api['entry']] or plain
    plain = [pick(rng, plain) for _ in range(rng.randint(1, 3))] if plain and chance(rng, .3) else []
    for _ in range(2):
        steps = []
        pool = list(chosen)
        rng.shuffle(pool)
        for t in pool:
            k = rng.random()
            if k < .15:
                steps.append(['bad', util.bad_targets(rng, api)])
            elif k < .25:
                steps.append(['gc'])
            elif k < .32:
                steps.append(['drop'])
            elif k < .4:
                steps.append(['get', pick(rng, chosen), chance(rng, .5)])
            steps.append(['get', t, chance(rng, .5)])
        for _ in range(rng.randint(0, 3)):
            steps.append(['bad', util.bad_targets(rng, api)])
        for t in plain:
            # before and after what it is a part of
            if hs:
                steps.append(['get', [t[0], t[1].rsplit('/', 1)[0], kinds[(t[0], t[1].rsplit('/', 1)[0])]], False])
            steps.insert(len(steps) if hs else 0, ['plain', t])
        hs.append({'steps': steps})
    return {'api': api, 'place': rig.gen_place(rng, how=False), 'delivery': gen.gen_delivery(rng), 'histories': hs, 'share': chance(rng, .3)}


def execute(plan, sim, res):
    import gc
    api = plan['api']
    results = [{}, {}]
    plains = [{}, {}]
    rs = None
    for hi, hist in enumerate(plan['histories']):
        w = World(sim, delivery=plan.get('delivery'))
        pub = rig.Published(w, api['docs'], api['entry'], plan.get('place') or {})
        sim.section()
        try:
            app = pub.create()
        except Exception as e:
            res.bad('load', '%s: %s %s' % (type(e).__name__, str(e)[:200], util.tb(e)))
            return
        held = []
        done = []
        for s in hist['steps']:
            if s[0] == 'gc':
                gc.collect()
            elif s[0] == 'drop':
                held = []
            elif s[0] == 'plain':
                if not util.exists(api, s[1]):
                    continue
                sim.count('probe:plain_references')
                try:
                    o = util.resolve(app, pub, s[1])
                    o = sorted(o) if isinstance(o, dict) else [x if isinstance(x, (str, int)) else type(x).__name__ for x in o] if isinstance(o, list) else o
                except Exception as e:
                    o = 'raised %s' % type(e).__name__
                plains[hi].setdefault(repr(s[1]), (o, [d[1][:2] for d in done]))
            elif s[0] == 'bad':
                t = s[1]
                if util.exists(api, t):
                    continue
                res.checks += 1
                sim.count('probe:bad_references')
                try:
                    o = util.resolve(app, pub, t, hi == 0)
                except Exception:
                    done.append(['bad', t])
                    continue
                res.bad('ghost', '%s does not exist but resolves to %r after %s' % (t, str(o)[:80], [d[1] for d in done[-4:]]))
                return
            else:
                t = s[1]
                if not util.exists(api, t):
                    continue
                res.checks += 1
                sim.count('probe:references')
                try:
                    o = util.resolve(app, pub, t, len(s) > 2 and s[2])
                    d = observe.describe_obj(o, pub.canon)
                except Exception as e:
                    res.bad('failed', '%s cannot be resolved after %s: %s: %s %s' % (t, [d[1][:2] for d in done[-4:]], type(e).__name__, str(e)[:200], util.tb(e)))
                    return
                x = util.faithful(api, t, d)
                if x:
                    res.bad('wrong', '%s after %s: %s' % (t, [d[1][:2] for d in done[-4:]], x))
                    return
                k = repr(t[:2])
                if k in results[hi]:
                    x = observe.first_diff(d, results[hi][k])
                    if x:
                        res.bad('changed', '%s resolved twice: %s' % (t, x))
                        return
                results[hi][k] = d
                held.append((t, o, d))
                done.append(['get', t])
        gc.collect()
        for t, o, d in held:
            res.checks += 1
            try:
                x = observe.first_diff(observe.describe_obj(o, pub.canon), d)
            except Exception as e:
                x = '%s: %s' % (type(e).__name__, e)
            if x:
                res.bad('stale', '%s handed out earlier: %s' % (t, x))
                return
        sim.log('history', hi, util.h(results[hi]))
    for k in results[0]:
        if k in results[1]:
            x = observe.first_diff(results[0][k], results[1][k])
            if x:
                res.bad('history', '%s: %s' % (k, x))
    for k in plains[0]:
        if k in plains[1]:
            res.checks += 1
            (a, ha), (b, hb) = plains[0][k], plains[1][k]
            if a != b:
                res.bad('plain', '%s: %s after %s, %s after %s' % (k, a, ha[-3:], b, hb[-3:]))
    res.sig = util.h([api, plan['histories']])
    res.sample = {'documents': sorted(api['docs']), 'history': [s[:2] for s in plan['histories'][0]['steps'][:8]]}
