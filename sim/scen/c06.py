"""C06: every call puts exactly its own request on the wire."""
from . import util
from .. import clients, gen, rig
from ..gen import chance
from ..world import World

ID = 'C06'
RUNS = {'quick': 1200, 'thorough': 60000}
BATCH = 250
RULE = 'a run that puts at least two requests on the wire; distinct by API, calls and interleaving of the lanes'
COMPONENTS = util.components('both')
ASSUMPTIONS = ['the webapp2 client refuses to work on Python 3 and is left out',
               'flask: the path is compared after the unquoting every WSGI server does',
               'numbers and booleans may be written in any equivalent way']
SHRINK = ('calls', 'lanes', 'calls.*.args', 'clients', 'calls.*.replies', 'calls.*', 'api.docs.*.paths', 'api12.docs.*.apis', 'api12.docs.*.models', 'hdrs.*', 'opts.*')


def generate(rng, tier):
    plan = gen.gen_plan_api(rng, ndocs=rng.randint(1, 3), ndefs=rng.randint(0, 5), nops=rng.randint(1, 5), files=chance(rng, .3))
    api = plan['api']
    clients.reachable(rng, api)
    clients.gen_calls(rng, plan, rng.randint(2, 9), faults=.15, bad=.1, wrong=.15, attempts=1 if chance(rng, .7) else 2)
    plan['sched'] = gen.gen_sched(rng, len(plan['lanes']), 12000)
    return plan


def execute(plan, sim, res):
    world = World(sim)
    pub = rig.publish(world, plan)
    app = pub.create()
    n0 = len(world.fetches)
    st = clients.Stage(plan, sim, app, pub)
    if not st.run(res):
        return
    judged = 0
    for rec in st.recs:
        res.checks += 1
        spec = st.spec(rec)
        if rec.wires:
            judged += 1
        clients.judge_wire(st, rec, res)
    for w in st.stray:
        res.bad('stray', 'a request that belongs to no call: %s %s' % (w.method, w.url))
    more = [f for f in world.fetches[n0:] if not f[1].startswith('/simfs/up/')]
    if more:
        res.bad('fetch', 'calls fetched documents: %s' % more[:3])
    sim.count('probe:wires', judged)
    sim.count('probe:refused', len([r for r in st.recs if r.err is not None and not r.wires]))
    for r in st.recs:
        if r.wires:
            sim.count('probe:over_' + r.kind)
    res.nontrivial = judged >= 2
    res.sig = util.h([plan['api'], plan['calls'], sorted(sim.sigs)])
    res.sample = {'lanes': plan['lanes'], 'clients': [c['kind'] for c in plan['clients']],
                  'wires': [[w.method, w.url[:80]] for r in st.recs[:4] for w in r.wires], 'schedule': plan['sched']}
