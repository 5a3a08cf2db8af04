"""C01: a load that meets I/O faults raises or is complete."""
from .. import gen, gen12, rig, observe, model
from ..gen import chance, pick
from ..world import World, NET_FAULTS, FILE_FAULTS, GETTER_FAULTS
from . import util

ID = 'C01'
RUNS = {'quick': 520, 'thorough': 20000}
BATCH = 60
RULE = 'a run loads one document set with and without faults; nontrivial when at least one fault fired; distinct runs are counted by (document set, delivery, faults fired)'
COMPONENTS = util.components('load')
ASSUMPTIONS = ['a yaml document or a reply without declared length that ends early cannot be told from a shorter document, so those are not cut']
SHRINK = ['api.docs.*.paths', 'api.docs.*.paths.*.*.parameters', 'api.docs.*.paths.*.*.responses', 'api.docs.*.definitions', 'api.docs.*.definitions.*.properties',
          'api.docs.*.apis', 'api.docs', 'api.docs.*.parameters', 'api.docs.*.responses', 'delivery', 'place', 'faults']


def kinds_for(channel):
    if channel in ('http', 'hook_http'):
        return NET_FAULTS
    if channel in ('file', 'fileurl', 'hook_file'):
        return FILE_FAULTS
    return GETTER_FAULTS


def generate(rng, tier):
    v12 = chance(rng, .25)
    api = gen.gen_api12(rng) if v12 else gen.gen_api(rng, ndocs=pick(rng, [1, 2, 3, 3, 4, 5]), ndefs=rng.randint(2, 9), nops=rng.randint(1, 4), security=chance(rng, .3))
    place = rig.gen_place(rng, v12=v12, dict12=True)
    n = len(api['docs'])
    p = {'api': api, 'place': place, 'delivery': gen.gen_delivery(rng), 'locale': pick(rng, ['utf-8', 'ascii']),
         'faults': gen.gen_faults(rng, kinds_for(place['channel']), pick(rng, [1, 1, 1, 2, 3]), pick(rng, [1, n, n + 1]))}
    if place['channel'] in ('file', 'fileurl', 'hook_file') and chance(rng, .3):
        # a file that vanished, or was never there
        p['lost'] = [pick(rng, sorted(api['docs']))]
        if chance(rng, .5):
            p['faults'] = {}
    elif chance(rng, .15):
        p['lost'] = [pick(rng, sorted(api['docs']))]
        if chance(rng, .5):
            p['faults'] = {}
    if place['channel'] == 'http' and chance(rng, .1):
        p['faults'] = {}
        p['lost'] = []
    return p


def load(plan, sim, faults, lost=()):
    api = plan['api']
    w = World(sim, delivery=plan.get('delivery'), faults=faults, locale=plan.get('locale', 'utf-8'))
    w.error_bodies = True
    pub = rig.Published(w, api['docs'], api['entry'], plan.get('place') or {}, bool(api.get('v12')))
    for n in lost:
        pub.remove(n)
    sim.section()
    app = err = None
    try:
        app = pub.create()
    except Exception as e:
        err = e
    return w, pub, app, err


def needed(api, v12):
    """documents that a load has to read"""
    if v12:
        return set(api['docs'])
    m = model.Model(api['docs'], api['entry'])
    seen, todo, docs = set(), [(api['entry'], '#')], set()
    while todo:
        doc, jp = todo.pop()
        if (doc, jp) in seen:
            continue
        seen.add((doc, jp))
        docs.add(doc)
        st = [m.node(doc, jp)]
        while st:
            n = st.pop()
            if isinstance(n, dict):
                if isinstance(n.get('$ref'), str):
                    todo.append(m.target(n['$ref'], doc))
                st.extend(v for k, v in n.items() if doc != api['entry'] or k not in ('pathitems',))
            elif isinstance(n, list):
                st.extend(n)
    return docs


def execute(plan, sim, res):
    api = plan['api']
    v12 = bool(api.get('v12'))
    w0, p0, a0, e0 = load(plan, sim, {})
    if e0 is not None:
        res.bad('clean', 'load without faults: %s: %s %s' % (type(e0).__name__, str(e0)[:300], util.tb(e0)))
        return
    d0 = observe.describe(a0, p0)
    sim.log('clean', util.h(d0))
    meant = gen12.convert12(api) if v12 else api
    m = model.Model(meant['docs'], meant['entry'])
    res.checks += 1
    for e in observe.check_model(d0, m)[:2]:
        res.bad('model', e)
    lost = [n for n in plan.get('lost', ()) if n in api['docs']]
    w, pub, app, err = load(plan, sim, plan.get('faults'), lost)
    fired = w.faults.fired
    res.nontrivial = bool(fired or lost)
    sim.count('probe:loads_with_faults' if fired else 'probe:loads_without_faults')
    for n in lost:
        sim.count('fault:lost_document')
    res.checks += 1
    need = needed(api, v12)
    if err is not None:
        sim.log('raised', type(err).__name__)
        sim.count('probe:raised')
        if not fired and not set(lost) & need:
            res.bad('raise', 'load raised although nothing failed: %s: %s %s' % (type(err).__name__, str(err)[:300], util.tb(err)))
    else:
        sim.count('probe:completed')
        d = observe.describe(app, pub)
        sim.log('loaded', util.h(d))
        if set(lost) & need:
            res.bad('complete', 'load succeeded although %s cannot be read' % sorted(set(lost) & need))
        e = observe.first_diff(d, d0)
        if e:
            res.bad('partial', 'after %s the load succeeded with something else: %s' % ([f[2] for f in fired] or lost, e))
        res.checks += 1
        if fired:
            # whatever failed must have been read again
            got = set(l for c, l, ok in w.fetches if ok)
            bad = [l for c, l, ok in w.fetches if not ok and l not in got and '/' in l]
            if bad:
                res.bad('unread', 'load succeeded although %s was never received (%s)' % (bad, [f[2] for f in fired]))
        if fired:
            for e in observe.check_model(d, m)[:1]:
                res.bad('partial', e)
    res.sig = util.h([api, plan.get('place'), fired, lost])
    res.sample = {'channel': pub.channel, 'documents': sorted(api['docs']), 'faults': [list(f) for f in fired], 'outcome': type(err).__name__ if err is not None else 'loaded'}
