"""C14: when loading, resolving or sending ends, nothing stays open."""
import gc

from . import c01, util
from .. import clients, gen, rig
from ..gen import chance, pick
from ..world import World

ID = 'C14'
RUNS = {'quick': 700, 'thorough': 40000}
BATCH = 175
RULE = 'a run in which files or connections were opened and at least one operation failed; distinct by documents, faults, calls and interleaving'
COMPONENTS = util.components('both')
ASSUMPTIONS = ['streams the caller opened are the caller\'s to close',
               'a connection counts as released when the http library above it closed its end, as it does after reading a whole reply',
               'finalizers do not run while a run is watched: what only garbage collection would close counts as open']
SHRINK = ('calls', 'lanes', 'resolves', 'calls.*.replies', 'calls.*.args', 'clients', 'faults', 'calls.*', 'api.docs.*.paths', 'api.docs.*.definitions', 'api.docs', 'delivery', 'hdrs.*', 'opts.*')


def generate(rng, tier):
    if chance(rng, .12):
        api = gen.gen_api12(rng)
        plan = {'api': api, 'place': rig.gen_place(rng, v12=True), 'calls': {}, 'lanes': [], 'resolves': []}
    else:
        api = gen.gen_api(rng, ndocs=rng.randint(1, 4), ndefs=rng.randint(0, 6), nops=rng.randint(1, 4), files=pick(rng, [False, True, 'only']))
        clients.reachable(rng, api, 1)
        plan = {'api': api, 'place': rig.gen_place(rng)}
        if chance(rng, .8):
            clients.gen_calls(rng, plan, rng.randint(1, 7), faults=pick(rng, [0, .3, .6]), bad=pick(rng, [0, .3]), wrong=.05, attempts=pick(rng, [1, 2]),
                              file_fn=lambda r: clients.gen_file(r, ['bytesio', 'raw', 'disk', 'disk', 'disk']))
            clients.own_files(rng, plan, .4, .4)
        else:
            plan.update(calls={}, lanes=[])
        ts = util.ref_targets(api)
        plan['resolves'] = [[pick(rng, ts) if chance(rng, .8) else util.bad_targets(rng, api) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(0, 2))]
    plan['delivery'] = gen.gen_delivery(rng)
    kinds = c01.kinds_for(plan['place']['channel'])
    n = len(api['docs'])
    if chance(rng, .8):
        plan['faults'] = gen.gen_faults(rng, kinds, pick(rng, [1, 2, 4, 8]), pick(rng, [1, n, 2 * n, 6 * n + 8]))
    plan['sched'] = gen.gen_sched(rng, max(1, len(plan['lanes']) + len(plan['resolves'])), 12000)
    return plan


def execute(plan, sim, res):
    gc.disable()
    try:
        run(plan, sim, res)
    finally:
        gc.enable()


def run(plan, sim, res):
    api = plan['api']
    w = World(sim, delivery=plan.get('delivery'), faults=plan.get('faults'))
    w.error_bodies = True
    pub = rig.Published(w, api['docs'], api['entry'], plan['place'], bool(api.get('v12')))
    failed = []

    def look(n0, what, err):
        tid = sim.current.tid if sim.current else -1
        res.checks += 1
        left = w.leaks(n0, tid)
        if err is not None:
            failed.append(what)
            sim.count('probe:failed_' + what.split()[0])
        else:
            sim.count('probe:done_' + what.split()[0])
        if left:
            res.bad('open', '%s is open after %s (%s) ended with %s' % (left[:3], what, pub.channel, 'success' if err is None else '%s: %s %s' % (type(err).__name__, str(err)[:120], util.tb(err))))

    app = None
    sim.section()
    for i in range(12):
        n0 = len(w.handles)
        err = None
        if i == 6:
            w.faults.off = True
        try:
            app = pub.create()
        except Exception as e:
            err = e
        look(n0, 'load %d' % i, err)
        if err is None:
            break
    if app is None:
        res.bad('load', 'does not load: %s %s' % (err, util.tb(err)))
        return
    w.faults.off = False

    def resolver(ts):
        def f():
            for t in ts:
                n0 = len(w.handles)
                err = None
                try:
                    util.resolve(app, pub, t)
                except Exception as e:
                    err = e
                look(n0, 'resolve %s' % (t[:2],), err)
        return f
    extra = [resolver(ts) for ts in plan['resolves']]
    sent = 0
    if plan['calls']:
        st = clients.Stage(plan, sim, app, pub)
        st.hooks['end'] = lambda rec: look(rec.h0, 'send %s attempt %d over %s' % (rec.rid, rec.attempt, rec.kind), rec.err)
        if not st.run(res, extra):
            return
        sent = len([r for r in st.recs if r.wires])
        for s in st.files.streams:
            if s.closed:
                sim.count('probe:caller_stream_closed')
    elif extra:
        for t in sim.run_tasks(extra, plan['sched']):
            if t.error is not None:
                res.bad('hang' if sim.hung else 'thread', '%s: %s %s' % (type(t.error).__name__, t.error, util.tb(t.error)))
                return
    left = w.leaks()
    if left and not res.violations:
        res.bad('open', '%s is open after everything ended' % left[:3])
    sim.count('probe:opened', len(w.handles))
    res.nontrivial = bool(w.handles) and bool(failed)
    res.sig = util.h([api, plan['place'], plan['calls'], plan['resolves'], w.faults.fired, sorted(sim.sigs)])
    res.sample = {'channel': pub.channel, 'faults': [list(f) for f in w.faults.fired][:6], 'opened': len(w.handles), 'failed': failed[:5], 'sent': sent, 'schedule': plan['sched']}
