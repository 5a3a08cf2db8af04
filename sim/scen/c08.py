"""C08: a reused request/response pair starts clean."""
from . import util
from .. import clients, gen, rig
from ..gen import chance, pick
from ..world import World

ID = 'C08'
RUNS = {'quick': 1000, 'thorough': 60000}
BATCH = 250
RULE = 'a run in which a pair was sent at least twice; distinct by API, calls, replies and interleaving of the lanes'
COMPONENTS = util.components('both')
ASSUMPTIONS = ['a pair is used by one caller at a time',
               'streams given for upload can seek; others can only be sent once',
               'tornado raises for error statuses, as its own documentation says']
SHRINK = ('calls', 'lanes', 'calls.*.replies', 'calls.*.args', 'clients', 'calls.*.replies.*', 'calls.*', 'api.docs.*.paths', 'api12.docs.*.apis', 'api12.docs.*.models', 'api.docs.*.definitions')


def generate(rng, tier):
    plan = gen.gen_plan_api(rng, ndocs=rng.randint(1, 2), ndefs=rng.randint(1, 5), nops=rng.randint(1, 4), files=chance(rng, .4), security=chance(rng, .4))
    api = plan['api']
    clients.reachable(rng, api, 1)
    if 'securityDefinitions' in api['docs'][api['entry']]:
        plan['secs'] = util.gen_secs(rng, api, 1)
    clients.gen_calls(rng, plan, rng.randint(1, 4), faults=pick(rng, [.1, .4, .6]), bad=pick(rng, [0, .25, .5]), wrong=.03, attempts=rng.randint(2, 5),
                      file_fn=lambda r: clients.gen_file(r, ['bytesio', 'bytesio', 'raw', 'buffered', 'disk', 'text']))
    clients.own_files(rng, plan, .5, .5)
    for c in plan['calls'].values():
        for k in ('consume', 'produce'):
            if chance(rng, .7):
                c.pop(k, None)
    # pairs that go through several clients, some of which have no credentials
    kinds = [c['kind'] for c in plan['clients']]
    if len(kinds) > 1 and chance(rng, .4):
        for l in plan['lanes']:
            for rid in l['calls']:
                c = plan['calls'][rid]
                ok = [i for i, k in enumerate(kinds) if l['kind'] == 'thread' or k == 'tornado']
                if c.get('hdr') is not None:
                    opt = plan['opts'][c['opt']] if c.get('opt') is not None else {}
                    ok = [i for i in ok if clients.headers_usable(plan['hdrs'][c['hdr']], opt, kinds[i])]
                if len(c['replies']) > 1 and chance(rng, .7) and ok:
                    c['clients'] = [pick(rng, ok) for _ in c['replies']]
    plan['sched'] = gen.gen_sched(rng, len(plan['lanes']), 12000)
    return plan


def execute(plan, sim, res):
    world = World(sim)
    pub = rig.publish(world, plan)
    app = pub.create()
    st = clients.Stage(plan, sim, app, pub)
    if not st.run(res):
        return
    again = 0
    first = {}
    for rec in st.recs:
        res.checks += 1
        creds = st.creds_of(rec)
        if not clients.judge_wire(st, rec, res, creds=creds):
            continue
        if rec.where != 'send' or isinstance(st.expect(rec.rid), str):
            continue
        clients.judge_reply(st, rec, res, mime=False)
        if rec.wires:
            w = rec.wires[0]
            now = [w.method, w.url, sorted([k.lower(), v] for k, v in w.headers if 'boundary=' not in v and k.lower() != 'content-length'),
                   None if 'boundary=' in ' '.join(w.header('Content-Type')) else repr(w.body)]
            k = (rec.rid, rec.client)
            if k in first:
                again += 1
                if now != first[k]:
                    res.bad('drift', 'call %s attempt %d over %s sent %s, the first time %s' % (rec.rid, rec.attempt, rec.kind, now, first[k]))
            else:
                first[k] = now
        if rec.attempt:
            sim.count('probe:again_after_%s' % ('failure' if prev(st, rec).err is not None else 'success'))
    for w in st.stray:
        res.bad('stray', 'a request that belongs to no call: %s %s' % (w.method, w.url))
    res.nontrivial = again >= 1
    res.sig = util.h([plan['api'], plan['calls'], sorted(sim.sigs)])
    res.sample = {'lanes': plan['lanes'], 'attempts': [[r.rid, r.attempt, r.kind, st.spec(r).get('fault') or st.spec(r).get('kind'), type(r.err).__name__] for r in st.recs[:8] if r.where == 'send'],
                  'schedule': plan['sched']}


def prev(st, rec):
    return [r for r in st.recs if r.rid == rec.rid and r.attempt == rec.attempt - 1][0]
