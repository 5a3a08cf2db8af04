"""C13: uploads arrive intact."""
import json

from . import util
from .. import clients, gen, rig
from ..gen import chance, pick
from ..world import World

ID = 'C13'
RUNS = {'quick': 1200, 'thorough': 60000}
BATCH = 250
RULE = 'a run with at least two uploads, arrived or refused for a file that could not be read; distinct by API, calls and interleaving'
COMPONENTS = util.components('both')
ASSUMPTIONS = ['field and file names may be escaped in any of the ways in use: as they are, with %22 %0D %0A like browsers, or with backslashes',
               'the order among different fields is free, values and files of one field keep theirs',
               'a content type that is not given may be made up, but a given one must arrive']
SHRINK = ('calls', 'lanes', 'calls.*.replies', 'calls.*.args', 'clients', 'calls.*.args.*', 'calls.*', 'api.docs.*.paths', 'api12.docs.*.apis', 'api12.docs.*.models', 'hdrs.*', 'opts.*')
NASTY = ['', '\r\n', '--', '\r\n--', 'a\r\nb', u'\xfcn\xef', '--boundary--\r\n', 'a\nb\n', '"quoted"; name="x"', '%0D%0A', 'Content-Type: text/html\r\n\r\nx', '\r\n\r\n', u'\U0001f40d', ' ', 'a=b&c']


def generate(rng, tier):
    plan = gen.gen_plan_api(rng, ndocs=rng.randint(1, 2), ndefs=0, nops=rng.randint(1, 4), files='only', security=chance(rng, .1))
    api = plan['api']
    clients.reachable(rng, api, 1)
    if 'securityDefinitions' in api['docs'][api['entry']]:
        plan['secs'] = util.gen_secs(rng, api, 1)
    att = pick(rng, [1, 1, 3])
    vias = ['bytesio', 'raw', 'buffered', 'disk', 'disk', 'text'] + (['readonly'] if att == 1 else [])
    clients.gen_calls(rng, plan, rng.randint(2, 8), faults=.05, wrong=.02, attempts=att, file_fn=lambda r: clients.gen_file(r, vias), raw_only=.9)
    for rid, c in plan['calls'].items():
        for k, v in c['args'].items():
            if isinstance(v, str) and 'rid-' not in v and not util.typed(plan['api'], c['op'], k) and chance(rng, .5):
                c['args'][k] = pick(rng, NASTY)
        for k in ('consume', 'produce'):
            c.pop(k, None)
    clients.own_files(rng, plan, .35, .35)
    if chance(rng, .15):
        # every file is broken for good in some call
        c = plan['calls'][pick(rng, sorted(plan['calls']))]
        c['gone'] = dict((str(a), ['missing']) for a in range(len(c['replies'])))
    plan['sched'] = gen.gen_sched(rng, len(plan['lanes']), 12000)
    return plan


def execute(plan, sim, res):
    world = World(sim)
    pub = rig.publish(world, plan)
    app = pub.create()
    st = clients.Stage(plan, sim, app, pub)
    if not st.run(res):
        return
    n = 0
    for rec in st.recs:
        res.checks += 1
        good = clients.judge_wire(st, rec, res, creds=st.creds_of(rec))
        if good and rec.where == 'send' and not isinstance(st.expect(rec.rid), str):
            n += 1
            sim.count('probe:refused_broken_file' if rec.broken else 'probe:arrived_over_' + rec.kind)
            for spec, _ in rec.files:
                sim.count('probe:via_' + spec.get('via', 'bytesio'))
    for w in st.stray:
        res.bad('stray', 'a request that belongs to no call: %s %s' % (w.method, w.url))
    res.nontrivial = n >= 2
    res.sig = util.h([plan['api'], plan['calls'], sorted(sim.sigs)])
    res.sample = {'lanes': plan['lanes'], 'uploads': [[r.kind, [[s.get('via'), str(s.get('data'))[:20], s.get('filename')] for s, _ in r.files], r.broken]
                                                      for r in st.recs[:5] if r.where == 'send'], 'schedule': plan['sched']}
