"""C02: a transient failure of a load, a preparation or a resolution leaves no
trace: the same call works once the fault has gone."""
from .. import gen, rig, observe, model
from ..gen import chance, pick
from ..world import World
from . import util, c01

ID = 'C02'
RUNS = {'quick': 380, 'thorough': 14000}
BATCH = 50
RULE = 'a run drives one program of load/prepare/create/resolve steps, each repeated until it succeeds, under faults; nontrivial when a step failed; distinct runs are counted by (document set, program, faults fired)'
COMPONENTS = util.components('load')
ASSUMPTIONS = c01.ASSUMPTIONS + ['a getter instance is used for one load only (its list of urls is consumed by design); getter classes and callbacks are called again']
SHRINK = c01.SHRINK + ['steps']


def generate(rng, tier):
    v12 = chance(rng, .15)
    api = gen.gen_api12(rng) if v12 else gen.gen_api(rng, ndocs=pick(rng, [2, 3, 4, 5, 6]), ndefs=rng.randint(3, 12), nops=rng.randint(1, 3), parts=chance(rng, .5))
    if not v12 and chance(rng, .35):
        close_cycle(rng, api)
    place = rig.gen_place(rng, v12=v12, how=False)
    if place['channel'].startswith('hook') and chance(rng, .4):
        place['flaky_hook'] = True
    steps = [pick(rng, [['load', 'prepare'], ['load', 'prepare'], ['create']])]
    steps = [[s] for s in steps[0]]
    if not v12:
        ts = util.ref_targets(api)
        for _ in range(rng.randint(0, 8)):
            steps.append(['resolve', pick(rng, ts)])
    if chance(rng, .3):
        steps.append(['again'])
        if not v12:
            for _ in range(rng.randint(0, 4)):
                steps.append(['resolve', pick(rng, ts)])
    n = len(api['docs'])
    return {'api': api, 'place': place, 'delivery': gen.gen_delivery(rng), 'steps': steps, 'gc': chance(rng, .5),
            'shared': chance(rng, .5), 'churn': chance(rng, .5),
            'faults': faults(rng, c01.kinds_for(place['channel']), sorted(api['docs']), n)}


def faults(rng, kinds, docs, n):
    out = {}
    if chance(rng, .6):
        out.update(gen.gen_faults(rng, kinds, pick(rng, [1, 1, 2, 3, 4]), pick(rng, [2, n, n + 2, 2 * n + 2])))
    if not out or chance(rng, .5):
        out.update(gen.gen_doc_faults(rng, kinds, rng.randint(1, 3), docs))
    return out


def close_cycle(rng, api):
    """documents whose objects refer to each other in a circle"""
    docs = [d for d in sorted(api['docs']) if 'definitions' in api['docs'][d] or 'swagger' in api['docs'][d]]
    if len(docs) < 2:
        return
    import posixpath

    def rel(a, b, jp):
        return (posixpath.relpath(b, posixpath.dirname(a) or '.') if a != b else '') + jp
    k = rng.randint(2, min(3, len(docs)))
    ring = gen.sub(rng, docs, k, k)
    for i, d in enumerate(ring):
        nxt = ring[(i + 1) % k]
        api['docs'][d].setdefault('definitions', {})['Ring%d' % i] = {
            'type': 'object', 'properties': {'id': {'type': 'integer'}, 'next': {'$ref': rel(d, nxt, '#/definitions/Ring%d' % ((i + 1) % k))}}}
    # and something in the ring that needs one more document
    others = [d for d in docs if d not in ring]
    if others:
        o = pick(rng, others)
        api['docs'][o].setdefault('definitions', {})['Leaf'] = {'type': 'object', 'properties': {'leaf': {'type': 'string'}}}
        d = pick(rng, ring)
        api['docs'][d]['definitions']['Ring%d' % ring.index(d)]['properties']['zleaf'] = {'$ref': rel(d, o, '#/definitions/Leaf')}
    e = api['entry']
    if chance(rng, .6):
        api['docs'][e].setdefault('definitions', {})['Start'] = {'type': 'object', 'properties': {'ring': {'$ref': rel(e, ring[0], '#/definitions/Ring0')}}}


def execute(plan, sim, res):
    import gc
    api = plan['api']
    v12 = bool(api.get('v12'))
    # what it looks like when nothing fails
    w0 = World(sim)
    p0 = rig.Published(w0, api['docs'], api['entry'], plan.get('place') or {}, v12)
    try:
        a0 = p0.create()
        d0 = observe.describe(a0, p0)
    except Exception as e:
        res.bad('clean', 'load without faults: %s: %s %s' % (type(e).__name__, str(e)[:300], util.tb(e)))
        return
    ref = {}

    try:
        for s in plan['steps']:
            if s[0] == 'resolve' and util.exists(api, s[1]):
                ref[repr(s[1])] = observe.describe_obj(util.resolve(a0, p0, s[1]), p0.canon)
    except Exception as e:
        res.bad('clean', 'resolve without faults: %s: %s %s' % (type(e).__name__, str(e)[:300], util.tb(e)))
        return

    w = World(sim, delivery=plan.get('delivery'), faults=plan.get('faults'))
    pub = rig.Published(w, api['docs'], api['entry'], plan.get('place') or {}, v12)
    rs = pub.resolver()
    st = {'app': None}
    held = []
    failures = [0]

    def attempt(what, fn):
        """until it succeeds; a failure needs a fault of its own"""
        for n in range(8):
            if n == 6:
                w.faults.off = True
            before = len(w.faults.fired)
            sim.section()
            try:
                return True, fn()
            except Exception as e:
                sim.log('failed', what, type(e).__name__)
                res.checks += 1
                if len(w.faults.fired) == before:
                    res.bad('stuck', '%s (attempt %d, after %s) fails although nothing is wrong any more: %s: %s %s' % (
                        what, n + 1, [f[2] for f in w.faults.fired], type(e).__name__, str(e)[:250], util.tb(e)))
                    return False, None
                failures[0] += 1
                check_held('after a failed ' + what)
            if plan.get('gc'):
                gc.collect()
        res.bad('stuck', '%s never succeeds' % what)
        return False, None

    def check_held(when):
        for t, o, d in held:
            res.checks += 1
            try:
                x = observe.first_diff(observe.describe_obj(o, pub.canon), d)
            except Exception as e:
                x = '%s: %s' % (type(e).__name__, e)
            if x:
                res.bad('held', '%s: %s resolved earlier changed: %s' % (when, t, x))
                return

    def check_app(what):
        res.checks += 1
        try:
            x = observe.first_diff(observe.describe(st['app'], pub), d0)
        except Exception as e:
            x = '%s: %s %s' % (type(e).__name__, e, util.tb(e))
        if x:
            res.bad('differs', 'after %s the %s succeeded with something else: %s' % ([f[2] for f in w.faults.fired], what, x))

    for s in plan['steps']:
        if res.violations:
            break
        if s[0] == 'load':
            ok, a = attempt('load', lambda: pub.load(resolver=rs))
            if not ok:
                break
            st['app'] = a
        elif s[0] == 'prepare' and st['app'] is not None:
            ok, _ = attempt('prepare', lambda: st['app'].prepare(strict=False))
            if not ok:
                break
            check_app('prepare')
        elif s[0] in ('create', 'again'):
            if s[0] == 'again':
                check_held('before another application')
                if st['app'] is not None and plan.get('churn'):
                    st['app'] = None
                    del held[:]
                    gc.collect()
            r = rs if plan.get('shared') else None
            ok, a = attempt('create', lambda: pub.create(resolver=r))
            if not ok:
                break
            if held:
                # the applications that handed those out must live
                held[0] = held[0]
                st.setdefault('keep', []).append(st['app'])
            st['app'] = a
            check_app('create')
        elif s[0] == 'resolve' and st['app'] is not None:
            t = s[1]
            if not util.exists(api, t):
                continue
            want = ref[repr(t)]
            ok, o = attempt('resolve %s' % (t,), lambda: util.resolve(st['app'], pub, t))
            if not ok:
                break
            res.checks += 1
            try:
                x = observe.first_diff(observe.describe_obj(o, pub.canon), want)
            except Exception as e:
                x = '%s: %s' % (type(e).__name__, e)
            if x:
                res.bad('resolved', '%s after %s: %s' % (t, [f[2] for f in w.faults.fired], x))
                break
            held.append((t, o, want))
    if plan.get('gc'):
        gc.collect()
    check_held('at the end')
    res.nontrivial = failures[0] > 0
    sim.count('probe:failed_steps', failures[0])
    sim.count('probe:steps', len(plan['steps']))
    res.sig = util.h([api, plan['steps'], w.faults.fired])
    res.sample = {'channel': pub.channel, 'steps': plan['steps'][:6], 'faults': [list(f) for f in w.faults.fired], 'failed_attempts': failures[0]}
