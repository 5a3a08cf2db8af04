"""C09: credentials go only where they are required."""
import base64
import itertools
import json
import re
import urllib.parse

from . import util
from .. import clients, gen, rig
from ..gen import chance, pick
from ..world import World

ID = 'C09'
RUNS = {'quick': 2000, 'thorough': 60000}
BATCH = 250
RULE = 'a run that puts at least two requests of operations with different requirements, clients or credentials on the wire; distinct by API, calls, updates and interleaving'
COMPONENTS = util.components('both')
ASSUMPTIONS = ['an oauth2 token goes into the header access_token, which is where the library has always put it',
               'alternative requirements are all met as far as credentials are known (the library has no choice among them)',
               'no parameter of an operation shares its place and name with a credential']
SHRINK = ('calls', 'lanes', 'updates', 'calls.*.replies', 'calls.*.args', 'clients', 'hdrs.*', 'opts.*', 'calls.*', 'api.docs.*.paths', 'api12.docs.*.apis', 'api12.docs.*.models', 'updates.*')


def generate(rng, tier):
    plan = gen.gen_plan_api(rng, ndocs=rng.randint(1, 3), ndefs=rng.randint(0, 3), nops=rng.randint(2, 6), files=chance(rng, .15), security=True)
    api = plan['api']
    clients.reachable(rng, api, 1)
    defs = api['docs'][api['entry']]['securityDefinitions']
    plan['secs'] = util.gen_secs(rng, api, rng.randint(1, 3))
    clients.gen_calls(rng, plan, rng.randint(2, 10), faults=pick(rng, [0, .2]), bad=.05, wrong=.03, attempts=1 if chance(rng, .5) else 3, raw_only=.5)
    # updates of credentials meanwhile
    plan['updates'] = []
    if chance(rng, .6):
        for i in range(rng.randint(1, 5)):
            s, n = rng.randrange(len(plan['secs'])), pick(rng, sorted(defs))
            plan['updates'].append({'sec': s, 'name': n, 'value': util.gen_cred(rng, defs[n], '%d-%s-v%d' % (s, n, i + 1)), 'wait': pick(rng, [0, 0.01, 0.5, 2.0])})
    # pairs that go through several clients
    kinds = [c['kind'] for c in plan['clients']]
    if len(kinds) > 1 and chance(rng, .5):
        for l in plan['lanes']:
            for rid in l['calls']:
                c = plan['calls'][rid]
                ok = [i for i, k in enumerate(kinds) if l['kind'] == 'thread' or k == 'tornado']
                if c.get('hdr') is not None:
                    opt = plan['opts'][c['opt']] if c.get('opt') is not None else {}
                    ok = [i for i in ok if clients.headers_usable(plan['hdrs'][c['hdr']], opt, kinds[i])]
                if len(c['replies']) > 1 and chance(rng, .6) and ok:
                    c['clients'] = [pick(rng, ok) for _ in c['replies']]
    if chance(rng, .45):
        storm(rng, plan, defs)
    plan['sched'] = gen.gen_sched(rng, len(plan['lanes']) + (1 if plan['updates'] else 0), 12000)
    if plan['updates'] and chance(rng, .5):
        # somebody who is replacing credentials does not come to an end for a while
        scale = pick(rng, [8, 20, 40, 120])
        plan['sched'].setdefault('per', {})[str(len(plan['lanes']))] = [[rng.randrange(scale), 0, pick(rng, [.5, 3, 20, 200])] for _ in range(rng.randint(1, 12))]
    return plan


def storm(rng, plan, defs):
    """everybody uses the same credentials while they are being replaced"""
    plan['secs'] = plan['secs'][:1]
    have = plan['secs'][0]
    for n in sorted(defs):
        if n not in have and chance(rng, .7):
            have[n] = util.gen_cred(rng, defs[n], '0-%s-v0' % n)
    for c in plan['clients']:
        c['sec'] = 0
    if not have:
        plan['updates'] = []
        return
    plan['updates'] = []
    for i in range(rng.randint(3, 12)):
        n = pick(rng, sorted(have))
        plan['updates'].append({'sec': 0, 'name': n, 'value': util.gen_cred(rng, defs[n], '0-%s-v%d' % (n, i + 1)), 'wait': pick(rng, [0, 0, 0.01, 0.5])})


def visible(w):
    """every credential of ours that shows anywhere in a request"""
    body = w.body if isinstance(w.body, bytes) else (w.body or '').encode('utf-8')
    texts = [urllib.parse.unquote_plus(w.url), body.decode('latin-1')] + [v for _, v in w.headers]
    for v in [v for k, v in w.headers]:
        if v.startswith('Basic '):
            try:
                texts.append(base64.b64decode(v[6:]).decode('latin-1'))
            except ValueError:
                pass
    return set(m for t in texts for m in re.findall(r'cred-(\d+)-([a-z_0-9]+)-v\d+', t))


def execute(plan, sim, res):
    world = World(sim)
    pub = rig.publish(world, plan)
    app = pub.create()
    st = clients.Stage(plan, sim, app, pub)
    tick = [0]
    history = {}                       # (sec, name) -> [[start, end, value]]
    for i, s in enumerate(plan['secs']):
        for n in s:
            history[(i, n)] = [[0, 0, s[n]]]

    def begin(rec):
        tick[0] += 1
        rec.tick0 = tick[0]

    def end(rec):
        tick[0] += 1
        rec.tick1 = tick[0]
    st.hooks.update(begin=begin, end=end)

    def updater():
        for u in plan['updates']:
            if u['wait']:
                sim.sleep(u['wait'])
            tick[0] += 1
            e = [tick[0], None, u['value']]
            history.setdefault((u['sec'], u['name']), [[0, 0, None]]).append(e)
            st.secs[u['sec']].update_with(u['name'], clients.cred_object(u['value']))
            tick[0] += 1
            e[1] = tick[0]
            sim.count('probe:updates')

    if not st.run(res, [updater] if plan['updates'] else []):
        return
    ways = set()
    for rec in st.recs:
        res.checks += 1
        if rec.where != 'send':
            clients.judge_wire(st, rec, res)
            continue
        sec = plan['clients'][rec.client].get('sec')
        om = st.ops[plan['calls'][rec.rid]['op']]
        need = sorted(om.security_names())
        opts = []
        for n in need:
            hs = history.get((sec, n)) if sec is not None else None
            if not hs:
                opts.append([None])
                continue
            ok = []
            for h in hs:
                if h[0] > rec.tick1:
                    continue
                if any(g[0] > h[1] and g[1] is not None and g[1] < rec.tick0 for g in hs if g is not h and h[1] is not None):
                    continue
                ok.append(h[2])
            opts.append(ok)
        combos = [dict((n, v) for n, v in zip(need, c) if v is not None) for c in itertools.product(*opts)]
        sim.count('probe:choices', len(combos) > 1)
        tries = []
        for creds in combos:
            r = Trial()
            good = clients.judge_wire(st, rec, r, creds=st.cred_map(creds))
            tries.append(r)
            if good:
                break
        else:
            for c, m in tries[-1].out:
                res.bad(c, '%s (credentials that it may carry: %s)' % (m, json.dumps(combos[:4])))
        for w in rec.wires:
            seen = visible(w)
            wrong = [x for x in seen if x not in [(str(sec), n) for n in need]]
            if wrong:
                res.bad('leak', 'call %s attempt %d over %s (%s, requires %s, client has credentials %s) carries credentials %s' % (
                    rec.rid, rec.attempt, rec.kind, plan['calls'][rec.rid]['op'], need, sec, wrong))
            ways.add((tuple(need), rec.client, tuple(sorted(seen))))
            sim.count('probe:with_credentials' if seen else 'probe:without')
    for w in st.stray:
        res.bad('stray', 'a request that belongs to no call: %s %s' % (w.method, w.url))
    res.nontrivial = len(ways) >= 2
    res.sig = util.h([plan['api'], plan['calls'], plan['updates'], sorted(sim.sigs)])
    res.sample = {'lanes': plan['lanes'], 'clients': plan['clients'], 'updates': plan['updates'],
                  'carried': [[list(a), b, [list(x) for x in c]] for a, b, c in sorted(ways)[:6]], 'schedule': plan['sched']}


class Trial(object):
    def __init__(self):
        self.out = []

    def bad(self, cls, msg):
        self.out.append((cls, msg))
