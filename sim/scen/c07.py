"""C07: a response is the one the server sent for this call, or the call raises."""
from . import util
from .. import clients, gen, rig
from ..gen import chance
from ..world import World

ID = 'C07'
RUNS = {'quick': 1200, 'thorough': 60000}
BATCH = 250
RULE = 'a run in which at least two replies reached a client; distinct by API, calls, replies and interleaving of the lanes'
COMPONENTS = util.components('both')
ASSUMPTIONS = ['tornado raises for error statuses, as its own documentation says',
               'a reply without any body where the description declares one may be delivered without data or raise',
               'a cut that leaves a flask response or an unframed one complete in itself cannot be noticed by anyone and is not injected']
SHRINK = ('calls', 'lanes', 'calls.*.args', 'clients', 'calls.*.replies', 'calls.*.replies.*', 'calls.*', 'api.docs.*.paths', 'api12.docs.*.apis', 'api12.docs.*.models', 'api.docs.*.definitions')


def generate(rng, tier):
    plan = gen.gen_plan_api(rng, ndocs=rng.randint(1, 3), ndefs=rng.randint(2, 7), nops=rng.randint(1, 5), files=chance(rng, .1))
    api = plan['api']
    clients.reachable(rng, api, 1)
    calm = chance(rng, .35)
    clients.gen_calls(rng, plan, rng.randint(2, 10), faults=0 if calm else .25, bad=.15, wrong=.03, attempts=1 if chance(rng, .8) else 2)
    for c in plan['calls'].values():
        for k in ('consume', 'produce', 'scheme'):
            if chance(rng, .8):
                c.pop(k, None)
    plan['sched'] = gen.gen_sched(rng, len(plan['lanes']), 12000)
    return plan


def timing(st, rec, res):
    """a call takes the time its own reply takes, whatever the others do"""
    spec = st.spec(rec)
    if spec.get('fault'):
        return
    own = spec.get('delay', 0.0) + spec.get('predelay', 0.0)
    took = rec.t1 - rec.t0
    if took > own + rec.slack + 1e-3:
        res.bad('waits', 'call %s attempt %d over %s took %.3fs, its reply %.3fs' % (rec.rid, rec.attempt, rec.kind, took, own))


def execute(plan, sim, res):
    world = World(sim)
    pub = rig.publish(world, plan)
    app = pub.create()
    st = clients.Stage(plan, sim, app, pub)
    if not st.run(res):
        return
    n = 0
    for rec in st.recs:
        if rec.where == 'build':
            continue
        if not rec.wires and not st.spec(rec).get('fault'):
            if rec.ok:
                res.bad('invented', 'call %s attempt %d over %s gave a response without a request' % (rec.rid, rec.attempt, rec.kind))
            continue
        if not rec.wires and isinstance(st.expect(rec.rid), str):
            continue
        res.checks += 1
        n += 1
        clients.judge_reply(st, rec, res)
        timing(st, rec, res)
        if not res.violations and rec.ok:
            sim.count('probe:delivered')
            if rec.snap['data'] is not None:
                sim.count('probe:with_data')
        elif not rec.ok:
            sim.count('probe:raised')
    # what a caller got stays what it was
    for rec in st.recs:
        if rec.ok and rec.attempt == st.attempts(rec.rid) - 1:
            res.checks += 1
            now = clients.snap(rec.resp)
            if repr(now) != repr(rec.snap):
                res.bad('changed', 'the response of call %s changed after it was delivered: %s, was %s' % (rec.rid, now, rec.snap))
    for k in set(s.get('kind') for c in plan['calls'].values() for s in c['replies']):
        sim.count('probe:bodies_' + str(k))
    res.nontrivial = n >= 2
    res.sig = util.h([plan['api'], plan['calls'], sorted(sim.sigs)])
    res.sample = {'lanes': plan['lanes'], 'replies': [[plan['calls'][c]['op'], st.spec(r).get('status'), st.spec(r).get('kind'), st.spec(r).get('fault')]
                                                      for r in st.recs[:5] for c in [r.rid]], 'schedule': plan['sched']}
