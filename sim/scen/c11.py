"""C11: what a caller passes in, and the API description, are never modified."""
import json

from . import util
from .. import clients, gen, observe, rig
from ..gen import chance, pick
from ..world import World

ID = 'C11'
RUNS = {'quick': 1000, 'thorough': 60000}
BATCH = 250
RULE = 'a run in which at least two requests shared argument, option or header objects; distinct by API, calls, replies and interleaving'
COMPONENTS = util.components('both')
ASSUMPTIONS = ['streams given for upload are read, their position and content are no part of this property',
               'the description is compared by the attributes the Swagger specification names, the shortcuts App.op and App.m and what references lead to']
SHRINK = ('calls', 'lanes', 'calls.*.replies', 'calls.*.args', 'clients', 'hdrs.*', 'opts.*', 'calls.*', 'api.docs.*.paths', 'api12.docs.*.apis', 'api12.docs.*.models', 'api.docs.*.definitions')


def generate(rng, tier):
    plan = gen.gen_plan_api(rng, ndocs=rng.randint(1, 3), ndefs=rng.randint(1, 6), nops=rng.randint(1, 4), files=chance(rng, .3), security=chance(rng, .5))
    api = plan['api']
    clients.reachable(rng, api, 1)
    plan['intern'] = True
    if 'securityDefinitions' in api['docs'][api['entry']]:
        plan['secs'] = util.gen_secs(rng, api, rng.randint(1, 2))
    clients.gen_calls(rng, plan, rng.randint(2, 8), faults=pick(rng, [0, .3]), bad=pick(rng, [0, .3]), wrong=pick(rng, [0, .2]), attempts=pick(rng, [1, 3]),
                      file_fn=lambda r: clients.gen_file(r, ['bytesio', 'raw', 'disk', 'disk']), raw_only=.3)
    for c in plan['clients']:
        if c['kind'] == 'custom' and chance(rng, .4):
            c['direct'] = True
    # calls of one operation that share all their arguments
    by_op = {}
    for rid in sorted(plan['calls'], key=int):
        c = plan['calls'][rid]
        by_op.setdefault(c['op'], []).append(rid)
    for k, rids in by_op.items():
        for rid in rids[1:]:
            if chance(rng, .5):
                a, c = plan['calls'][rids[0]], plan['calls'][rid]
                if '$file' in json.dumps(a['args']) or '$file' in json.dumps(c['args']):
                    continue
                c['args'] = dict((n, c['args'][n] if n in ('rid', 'X-Rid') else v) for n, v in a['args'].items() if n not in ('rid', 'X-Rid') or n in c['args'])
    for c in plan['calls'].values():
        t = json.dumps(c['args'])
        if len(c['replies']) > 1 and t.count('$file') == t.count('"via": "disk"') and chance(rng, .6):
            c['rebuild'] = True
    clients.own_files(rng, plan, .3, .3)
    plan['sched'] = gen.gen_sched(rng, len(plan['lanes']), 12000)
    return plan


def execute(plan, sim, res):
    world = World(sim)
    pub = rig.publish(world, plan)
    app = pub.create()
    before = observe.describe(app, pub, exact=True)
    st = clients.Stage(plan, sim, app, pub)
    opts0, hdrs0 = clients.freeze(st.opts), clients.freeze(st.hdrs)
    if not st.run(res):
        return
    sent = 0
    for rec in st.recs:
        res.checks += 1
        if rec.touched:
            res.bad('touched', 'call %s attempt %d (%s%s) changed what its caller passed in: %s' % (
                rec.rid, rec.attempt, plan['calls'][rec.rid]['op'], ', over ' + rec.kind if rec.where == 'send' else '', rec.touched))
        # the same objects mean the same every time
        clients.judge_wire(st, rec, res, creds=st.creds_of(rec))
        sent += bool(rec.wires)
    for n, a, b in (('options', opts0, clients.freeze(st.opts)), ('headers', hdrs0, clients.freeze(st.hdrs))):
        d = clients.diff(a, b)
        if d:
            res.bad('touched', 'shared %s: %s' % (n, d))
    for rid in sorted(st.pairs, key=int):
        d = clients.diff(st.pairs[rid][2], clients.freeze(st.pairs[rid][1]))
        if d:
            res.bad('touched', 'arguments of call %s: %s' % (rid, d))
    res.checks += 1
    d = observe.first_diff(observe.describe(app, pub, exact=True), before)
    if d:
        res.bad('description', 'the description changed while calls were made: %s' % d)
    sim.count('probe:sent', sent)
    sim.count('probe:failed', len([r for r in st.recs if r.err is not None]))
    shared = [x for x in ('opt', 'hdr') if len([c for c in plan['calls'].values() if c.get(x) is not None]) > 1]
    res.nontrivial = sent >= 2
    res.sig = util.h([plan['api'], plan['calls'], sorted(sim.sigs)])
    res.sample = {'lanes': plan['lanes'], 'shared': shared, 'calls': [[c['op'], c.get('opt'), c.get('hdr'), bool(c.get('rebuild'))] for c in list(plan['calls'].values())[:6]],
                  'schedule': plan['sched']}
