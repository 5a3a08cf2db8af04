"""C05: the same documents give the same API from any source, in any format
and however they are delivered."""
import json

from .. import gen, rig, observe, model
from ..gen import chance, pick
from ..world import World
from . import util

ID = 'C05'
RUNS = {'quick': 420, 'thorough': 12000}
BATCH = 60
RULE = 'a run loads one generated document set through two different deliveries and compares descriptions and requests; distinct runs are counted by (document set, both deliveries)'
COMPONENTS = util.components('load')
ASSUMPTIONS = ['documents are valid, acyclic and use the parts of the specification the generator covers']
SHRINK = ['api.docs.*.paths', 'api.docs.*.paths.*.*.parameters', 'api.docs.*.paths.*.*.responses', 'api.docs.*.definitions', 'api.docs.*.definitions.*.properties',
          'api.docs', 'api.docs.*.parameters', 'api.docs.*.responses', 'a.delivery', 'b.delivery', 'a.place', 'b.place', 'calls']


def generate(rng, tier):
    v12 = chance(rng, .2)
    api = gen.gen_api12(rng) if v12 else gen.gen_api(rng, ndocs=pick(rng, [1, 1, 2, 3, 4, 5]), ndefs=rng.randint(2, 9), nops=rng.randint(1, 5), security=chance(rng, .4), files=chance(rng, .3))
    p = {'api': api, 'locale': pick(rng, ['utf-8', 'utf-8', 'ascii', 'latin-1'])}
    for k in 'ab':
        p[k] = {'place': rig.gen_place(rng, v12=v12, dict12=True), 'delivery': gen.gen_delivery(rng)}
    if chance(rng, .3):
        p['b']['place'] = dict(p['a']['place'])
    p['calls'] = [] if v12 else util.gen_plain_calls(rng, api, 4)
    return p


def execute(plan, sim, res):
    api = plan['api']
    v12 = bool(api.get('v12'))
    got = []
    for k in 'ab':
        pl = plan[k]
        w = World(sim, delivery=pl.get('delivery'), locale=plan.get('locale', 'utf-8'))
        pub = rig.Published(w, api['docs'], api['entry'], pl.get('place') or {}, v12)
        sim.section()
        try:
            app = pub.create()
        except Exception as e:
            res.bad('load', '%s %s: %s: %s %s' % (pub.channel, pub.fmt, type(e).__name__, str(e)[:200], util.tb(e)))
            return
        d = observe.describe(app, pub)
        sim.log('described', util.h(d))
        sim.count('probe:loads')
        sim.count('probe:fetches', len(w.fetches))
        got.append((pub, app, d))
    (pa, aa, da), (pb, ab, db) = got
    e = observe.first_diff(da, db)
    res.checks += 1
    if e:
        res.bad('differ', '%s/%s vs %s/%s: %s' % (pa.channel, pa.fmt, pb.channel, pb.fmt, e))
    if not v12:
        m = model.Model(api['docs'], api['entry'])
        res.checks += 1
        for e in observe.check_model(db, m)[:3]:
            res.bad('model', '%s/%s: %s' % (pb.channel, pb.fmt, e))
        ra, rb = [util.requests_of(x, p, plan['calls']) for x, p in ((aa, pa), (ab, pb))]
        res.checks += len(ra)
        for c, x, y in zip(plan['calls'], ra, rb):
            if x != y:
                res.bad('requests', '%s: %s vs %s' % (c['op'], x, y))
                break
    res.sig = util.h([plan['api'], plan['a'], plan['b']])
    res.sample = {'channels': [[p.channel, p.fmt, p.base] for p in (pa, pb)], 'documents': sorted(api['docs']), 'deliveries': [plan[k].get('delivery') for k in 'ab']}
