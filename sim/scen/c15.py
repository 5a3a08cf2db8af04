"""C15: one application resolved from many threads."""
from .. import gen, rig, observe
from ..gen import chance, pick
from ..world import World
from . import util, c01
from .c02 import close_cycle

ID = 'C15'
RUNS = {'quick': 420, 'thorough': 14000}
BATCH = 50
RULE = 'a run resolves references of one application from 2-4 threads under one schedule of preemptions inside pyswagger; nontrivial when threads really overlapped; distinct runs are counted by (document set, work, context switch sequence)'
COMPONENTS = util.components('load')
ASSUMPTIONS = ['preemption happens between python statements of pyswagger, at lock operations and at I/O; single operations on built-in containers are atomic, as the interpreters pyswagger runs on guarantee']
SHRINK = c01.SHRINK + ['work', 'work.*', 'sched.hot']


def generate(rng, tier):
    api = gen.gen_api(rng, ndocs=pick(rng, [2, 3, 4, 5]), ndefs=rng.randint(4, 12), nops=rng.randint(1, 3))
    if chance(rng, .25):
        close_cycle(rng, api)
    ts = util.ref_targets(api)
    n = pick(rng, [2, 2, 3, 4])
    hot = [pick(rng, ts) for _ in range(rng.randint(1, 4))]
    # threads that want the same document, in different ways
    for t in list(hot):
        near = [x for x in ts if x[0] == t[0]]
        hot.append(pick(rng, near))
    work = []
    for _ in range(n):
        k = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < .65:
                k.append(['get', pick(rng, hot)])
            elif r < .85:
                k.append(['get', pick(rng, ts)])
            elif r < .93:
                k.append(['bad', util.bad_targets(rng, api)])
            else:
                k.append(['gc'])
        work.append(k)
    place = rig.gen_place(rng, how=False)
    d = gen.gen_delivery(rng)
    return {'api': api, 'place': place, 'delivery': d, 'work': work, 'sched': gen.gen_sched(rng, n, 20000),
            'faults': gen.gen_faults(rng, c01.kinds_for(place['channel']), rng.randint(1, 3), len(api['docs'])) if chance(rng, .35) else {}}


def execute(plan, sim, res):
    import gc
    api = plan['api']
    want = {}
    w0 = World(sim)
    p0 = rig.Published(w0, api['docs'], api['entry'], plan.get('place') or {})
    try:
        a0 = p0.create()
        for wk in plan['work']:
            for s in wk:
                if s[0] == 'get' and util.exists(api, s[1]) and repr(s[1]) not in want:
                    want[repr(s[1])] = observe.describe_obj(util.resolve(a0, p0, s[1]), p0.canon)
        before = observe.describe(a0, p0)
    except Exception as e:
        res.bad('clean', 'resolving alone: %s: %s %s' % (type(e).__name__, str(e)[:300], util.tb(e)))
        return
    w = World(sim, delivery=plan.get('delivery'))
    pub = rig.Published(w, api['docs'], api['entry'], plan.get('place') or {})
    sim.section()
    app = pub.create()
    from ..world import Faults
    w.faults = Faults(sim, plan.get('faults'))
    out = []
    io0 = len(w.fetches)

    def task(wk):
        def f():
            me = sim.current.tid
            for s in wk:
                if s[0] == 'gc':
                    gc.collect()
                    continue
                if s[0] == 'get' and repr(s[1]) not in want or s[0] == 'bad' and util.exists(api, s[1]):
                    continue
                n = len([x for x in w.faults.fired if x[3] == me])
                try:
                    o = util.resolve(app, pub, s[1])
                    err = None
                except Exception as e:
                    o, err = None, e
                mine = len([x for x in w.faults.fired if x[3] == me]) > n
                out.append((me, s, o, err, mine))
                sim.log('resolved', s[1][:2], type(err).__name__ if err is not None else 'ok')
        return f

    tasks = sim.run_tasks([task(wk) for wk in plan['work']], plan.get('sched'))
    for t in tasks:
        if t.error is not None:
            res.bad('hang' if sim.hung else 'thread', 'thread %d: %s: %s %s' % (t.tid, type(t.error).__name__, t.error, util.tb(t.error)))
            return
    gc.collect()
    for me, s, o, err, mine in out:
        res.checks += 1
        if s[0] == 'bad':
            sim.count('probe:bad_references')
            if err is None:
                res.bad('ghost', '%s does not exist but resolves to %r' % (s[1], str(o)[:80]))
            continue
        sim.count('probe:references')
        if err is not None:
            if not mine:
                res.bad('failed', 'thread %d cannot resolve %s though no fault met it: %s: %s %s' % (me, s[1], type(err).__name__, str(err)[:200], util.tb(err)))
            else:
                sim.count('probe:failed_alone')
            continue
        try:
            x = observe.first_diff(observe.describe_obj(o, pub.canon), want[repr(s[1])])
        except Exception as e:
            x = '%s: %s' % (type(e).__name__, e)
        if x:
            res.bad('wrong', 'thread %d got for %s: %s' % (me, s[1], x))
    if res.violations:
        return
    # and afterwards everything is as it would have been
    w.faults.off = True
    for k in sorted(want):
        t = [s[1] for wk in plan['work'] for s in wk if repr(s[1:2]) == '[%s]' % k][0]
        res.checks += 1
        try:
            x = observe.first_diff(observe.describe_obj(util.resolve(app, pub, t), pub.canon), want[k])
        except Exception as e:
            x = '%s: %s %s' % (type(e).__name__, str(e)[:200], util.tb(e))
        if x:
            res.bad('after', '%s after the threads ended: %s' % (t, x))
            return
    x = observe.first_diff(observe.describe(app, pub), before)
    if x:
        res.bad('after', 'the application after the threads ended: %s' % x)
    sim.count('probe:fetches_in_threads', len(w.fetches) - io0)
    res.nontrivial = sim.switches > len(plan['work'])
    res.sig = util.h([api, plan['work'], sorted(sim.sigs)])
    res.sample = {'threads': [[s[1][:2] if len(s) > 1 else s for s in wk] for wk in plan['work']], 'schedule': plan.get('sched'), 'switches': sim.switches}
