"""Runs a scenario over many seeds, confirms, minimises and reports."""
import copy
import hashlib
import importlib
import json
import os
import pickle
import random
import re
import signal
import struct
import subprocess
import sys
import traceback

from . import kernel, gen12

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = max(1, min(8, os.cpu_count() or 1))
clock = kernel.real_monotonic


class Result(object):
    """outcome of one run"""

    def __init__(self):
        self.violations = []       # [class, message]
        self.nontrivial = True
        self.sig = ''
        self.sample = None
        self.checks = 0            # oracle evaluations
        self.harness = None

    def bad(self, cls, msg):
        # messages of the json module may hold half a character on PyPy
        m = str(msg).encode('utf-8', 'surrogatepass').decode('utf-8', 'replace')
        self.violations.append([cls, m[:2000]])


def load(prop):
    return importlib.import_module('sim.scen.' + prop.lower())


def make_plan(mod, seed, i, tier):
    rng = random.Random('%s:%s:%d' % (mod.ID, seed, i))
    plan = mod.generate(rng, tier)
    plan['id'] = mod.ID
    plan['run'] = [seed, i]
    # plans are pure json, by construction
    return json.loads(json.dumps(plan))


def complete(plan):
    """a copy of a plan with what follows from it"""
    plan = copy.deepcopy(plan)
    if plan.get('api12'):
        plan['api'] = gen12.convert12(plan['api12'])
    return plan


def run_plan(mod, plan):
    """execute one plan; returns a plain dict"""
    sim = kernel.Sim(cap=getattr(mod, 'STEP_CAP', None))
    from .rnd import SimRandom
    sim.random = SimRandom('rnd:%s' % json.dumps(plan.get('run')), plan.get('extreme', 0.0))
    res = Result()
    sim.log('plan', hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:16])
    try:
        with kernel.active(sim):
            mod.execute(complete(plan), sim, res)
    except (kernel.HarnessError, MemoryError) as e:
        res.harness = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    except kernel.SimHang as e:
        res.bad('hang', 'no end after %d steps: %s' % (sim.cap, short_tb(e)))
    except kernel.SimDeadlock as e:
        res.bad('deadlock', '%s %s' % (e, short_tb(e)))
    except Exception as e:
        res.bad('crash', 'unexpected %s: %s %s' % (type(e).__name__, e, short_tb(e)))
    if sim.world_escapes():
        res.bad('escape', 'tried to reach %s' % sim.world_escapes()[:3])
    sim.log('result', [v[0] for v in res.violations])
    sigs = sorted(sim.sigs)
    return {
        'violations': res.violations, 'harness': res.harness, 'digest': sim.digest(), 'counters': sim.counters,
        'sim_time': sim.now, 'steps': sim.total_steps(), 'switches': sim.switches, 'events': sim.seq,
        'nontrivial': bool(res.nontrivial), 'sig': res.sig or ','.join(sigs), 'sigs': sigs, 'sample': res.sample, 'checks': res.checks,
        'run': plan.get('run'), 'trace': [list(map(str, e)) for e in sim.events[-60:]] if res.violations or res.harness else None,
    }


def _escapes(self):
    w = getattr(self, 'world', None)
    return w.escapes if w else []


kernel.Sim.world_escapes = _escapes


def short_tb(e):
    out = []
    for fr in traceback.extract_tb(e.__traceback__)[-4:]:
        out.append('%s:%d %s' % (os.path.basename(fr.filename), fr.lineno, fr.name))
    return '(' + ' < '.join(reversed(out)) + ')'


# --- processes ------------------------------------------------------------------

class Job(object):
    """fn() in a forked child; its result comes back pickled"""

    def __init__(self, fn, tag=None):
        self.tag = tag
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                try:
                    out = ('ok', fn())
                except BaseException as e:      # noqa: B902
                    out = ('err', ''.join(traceback.format_exception(type(e), e, e.__traceback__)))
                data = pickle.dumps(out, 2)
                data = struct.pack('!Q', len(data)) + data
                i = 0
                while i < len(data):
                    i += os.write(w, data[i:i + 65536])
                code = 0
                if os.environ.get('SIM_COVER'):
                    from . import boot
                    boot.cover_dump()
            finally:
                os._exit(code)
        os.close(w)
        self.pid, self.fd, self.buf = pid, r, b''

    def pump(self):
        """read what is there; True at eof"""
        c = os.read(self.fd, 1 << 20)
        if not c:
            os.close(self.fd)
            os.waitpid(self.pid, 0)
            return True
        self.buf += c
        return False

    def value(self):
        if len(self.buf) < 8 or len(self.buf) != 8 + struct.unpack('!Q', self.buf[:8])[0]:
            return ('err', 'child died')
        return pickle.loads(self.buf[8:])

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.close(self.fd)
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def run_jobs(fns, nproc, timeout, on_done=None):
    """run fns in forked children; returns [value]; value None on timeout"""
    import select
    out = [None] * len(fns)
    todo = list(enumerate(fns))
    live = []
    t0 = clock()
    while todo or live:
        while todo and len(live) < nproc:
            i, f = todo.pop(0)
            live.append(Job(f, i))
        left = timeout - (clock() - t0)
        if left <= 0:
            for j in live:
                j.kill()
            return out
        r, _, _ = select.select([j.fd for j in live], [], [], min(left, 5))
        for j in list(live):
            if j.fd in r and j.pump():
                live.remove(j)
                out[j.tag] = j.value()
                if on_done:
                    on_done(j.tag, out[j.tag])
    return out


def one(mod, plans):
    """execute plans in a fresh child, return the results"""
    def f():
        return [run_plan(mod, p) for p in plans]
    return f


# --- minimisation -----------------------------------------------------------------

def kind(v):
    """what must stay the same while a plan is minimised"""
    if v[0] == 'crash':
        m = re.match(r'unexpected (\w+):.*\((\S+?):\d+', v[1], re.S)
        if m:
            return 'crash %s %s' % m.groups()
    return v[0]


def classes(r):
    return [kind(v) for v in r['violations']]


def get_at(plan, path):
    for k in path:
        if not isinstance(plan, (dict, list)):
            return None
        try:
            plan = plan[k]
        except (KeyError, IndexError, TypeError):
            return None
    return plan


def without(plan, path, keys):
    p = copy.deepcopy(plan)
    c = get_at(p, path)
    if isinstance(c, list):
        for k in sorted(keys, reverse=True):
            del c[k]
    else:
        for k in keys:
            del c[k]
    return p


def expand(plan, pats):
    """paths of all lists/dicts matching patterns ('calls', 'docs.*.paths', ...)"""
    out = []
    for pat in pats:
        front = [()]
        for part in pat.split('.'):
            nxt = []
            for path in front:
                c = get_at(plan, path)
                if part == '*':
                    if isinstance(c, dict):
                        nxt += [path + (k,) for k in sorted(c)]
                    elif isinstance(c, list):
                        nxt += [path + (i,) for i in range(len(c))]
                elif isinstance(c, dict) and part in c:
                    nxt.append(path + (part,))
            front = nxt
        out += [p for p in front if isinstance(get_at(plan, p), (list, dict)) and get_at(plan, p)]
    return out


def candidates(plan, pats, coarse):
    """smaller plans, biggest cuts first"""
    for path in expand(plan, pats):
        c = get_at(plan, path)
        keys = list(range(len(c))) if isinstance(c, list) else sorted(c)
        n = max(1, len(keys) // coarse)
        for i in range(0, len(keys), n):
            yield without(plan, path, keys[i:i + n])


def minimise(mod, plan, cls, budget):
    """ddmin over the parts of a plan a scenario declares removable"""
    t_end = clock() + budget
    pats = list(getattr(mod, 'SHRINK', ())) + ['sched.preempt', 'sched.picks', 'sched.per', 'sched.per.*', 'faults']
    best = plan
    tried = 0
    for rounds in range(6):
        progress = False
        for coarse in (1, 2, 4, 1 << 30):
            again = True
            while again and clock() < t_end:
                again = False
                cands = list(candidates(best, pats, coarse))
                if hasattr(mod, 'simplify') and coarse == 1 << 30:
                    cands += list(mod.simplify(best))
                seen = set()
                uniq = []
                for c in cands:
                    h = json.dumps(c, sort_keys=True)
                    if h not in seen:
                        seen.add(h)
                        uniq.append(c)
                for i in range(0, len(uniq), NPROC * 2):
                    if clock() > t_end:
                        break
                    chunk = uniq[i:i + NPROC * 2]
                    vals = run_jobs([one(mod, [c]) for c in chunk], NPROC, max(5, t_end - clock() + 20))
                    tried += len(chunk)
                    hit = None
                    for c, v in zip(chunk, vals):
                        if v and v[0] == 'ok' and not v[1][0]['harness'] and cls in classes(v[1][0]):
                            hit = c
                            break
                    if hit is not None:
                        best = hit
                        again = progress = True
                        break
        if not progress or clock() > t_end:
            break
    return best, tried


# --- known findings ------------------------------------------------------------------

def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with kernel.real_open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop and k.get('status') == 'open']


def match_known(known, v):
    for k in known:
        if k['class'] == v[0] and re.search(k['match'], v[1], re.S):
            return k
    return None


# --- the check --------------------------------------------------------------------------

def check(prop, tier, seed, runs=None, budget=None, nproc=None, quiet=False):
    t0 = clock()
    mod = load(prop)
    n = runs or mod.RUNS[tier]
    budget = budget or {'quick': 150.0, 'thorough': 3000.0}[tier]
    nproc = nproc or NPROC
    size = max(1, min(getattr(mod, 'BATCH', 40), (n + nproc - 1) // nproc)) if tier == 'quick' else getattr(mod, 'BATCH', 40)
    batches = [list(range(i, min(n, i + size))) for i in range(0, n, size)]

    def batch(ixs):
        def f():
            out = []
            for i in ixs:
                if clock() - t0 > budget:
                    break
                out.append(run_plan(mod, make_plan(mod, seed, i, tier)))
            return out
        return f

    stop = {'bad': 0}
    vals = run_jobs([batch(b) for b in batches], nproc, budget + 120)
    results, errors = [], []
    for b, v in zip(batches, vals):
        if v is None:
            errors.append('batch %d-%d: wall timeout' % (b[0], b[-1]))
        elif v[0] != 'ok':
            errors.append('batch %d-%d: %s' % (b[0], b[-1], v[1]))
        else:
            results.append((b, v[1]))
    flat = [r for _, rs in results for r in rs]
    for r in flat:
        if r['harness']:
            errors.append('run %s: %s' % (r['run'], r['harness']))
    t_explore = clock() - t0

    known = known_findings(prop)
    seen_known = {}
    bad = []
    for b, rs in results:
        for r in rs:
            for v in r['violations']:
                k = match_known(known, v)
                if k:
                    seen_known.setdefault(k['id'], [k, 0])[1] += 1
                else:
                    bad.append((r['run'][1], v, b, r))
    report = []
    if bad:
        bad.sort(key=lambda x: x[0])
        done = set()
        for i, v, b, r in bad:
            if v[0] in done or len(done) >= 2:
                continue
            done.add(v[0])
            report.append(confirm(mod, tier, seed, i, v, b, 75 if tier == 'quick' else 300))
    for k in known:
        print('KNOWN-FINDING: property=%s %s (%d times in this check)' % (prop, k['what'], seen_known.get(k['id'], [k, 0])[1]))
    ev = evidence(mod, prop, tier, seed, flat, t_explore, clock() - t0, len(bad), report, seen_known, n, len(batches), nproc)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with kernel.real_open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    if not quiet:
        print('%s: %d runs in %.1fs (%d violations, %d errors), %d distinct nontrivial, sim time %.0fs' % (
            prop, len(flat), t_explore, len(bad), len(errors), ev['coverage']['distinct_nontrivial'], ev['coverage']['simulated_seconds']))
    if report:
        for path, v, how in report:
            print('  %s: %s [%s]' % (v[0], v[1][:600], how))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors[:5]:
            print('ERROR', e, file=sys.stderr)
        return 2
    if not flat:
        print('ERROR nothing was explored', file=sys.stderr)
        return 2
    return 0


def confirm(mod, tier, seed, i, v, b, budget):
    """reproduce in a fresh process, minimise, write the replay file"""
    t0 = clock()
    cls = kind(v)
    plan = make_plan(mod, seed, i, tier)
    r = run_jobs([one(mod, [plan])], 1, 120)[0]
    alone = bool(r and r[0] == 'ok' and cls in classes(r[1][0]))
    prefix = []
    how = 'alone'
    if alone:
        plan, tried = minimise(mod, plan, cls, budget)
        how = 'minimised in %d candidates' % tried
        r = run_jobs([one(mod, [plan])], 1, 120)[0]
        res = r[1][0]
    else:
        # it needs what earlier runs left behind in the process
        pre = [x for x in b if x < i]
        plans = [make_plan(mod, seed, x, tier) for x in pre]

        def works(ps):
            rr = run_jobs([one(mod, ps + [plan])], 1, 300)[0]
            return rr and rr[0] == 'ok' and cls in classes(rr[1][-1])
        if works(plans):
            # shortest suffix/prefix that still does it
            step = max(1, len(plans) // 2)
            while step >= 1 and clock() - t0 < budget:
                j = 0
                moved = False
                while j < len(plans) and clock() - t0 < budget:
                    cand = plans[:j] + plans[j + step:]
                    if works(cand):
                        plans = cand
                        moved = True
                    else:
                        j += step
                if step == 1 and not moved:
                    break
                step = step // 2 if step > 1 else (1 if moved else 0)
                if step == 0:
                    break
            prefix = plans
            how = 'needs %d earlier runs in the same process' % len(prefix)
            rr = run_jobs([one(mod, prefix + [plan])], 1, 300)[0]
            res = rr[1][-1]
        else:
            how = 'not reproduced in a fresh process'
            res = {'violations': [v], 'digest': None, 'trace': None}
    vv = [x for x in res['violations'] if kind(x) == cls] or [v]
    cls = v[0]
    doc = {'property': mod.ID, 'class': cls, 'message': vv[0][1], 'seed': seed, 'run': i, 'tier': tier, 'how': how,
           'prefix': prefix, 'plan': plan, 'digest': res['digest'], 'trace': res.get('trace')}
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(VERIF, 'replays', '%s-%s.json' % (mod.ID, hashlib.sha256(json.dumps([plan, prefix], sort_keys=True).encode()).hexdigest()[:12]))
    with kernel.real_open(path, 'w') as f:
        # in the order of the plan: documents are written in that order
        json.dump(doc, f, indent=1)
    # and once more from the file, in a new interpreter
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), '--replay', path, '--brief'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if p.returncode == 1:
            how += ', replays exactly'
        else:
            how += ', replay: ' + p.stdout.decode('utf-8', 'replace')[-300:]
    except subprocess.TimeoutExpired:
        how += ', replay timed out'
    return path, vv[0], how


def replay(path, brief=False):
    with kernel.real_open(path) as f:
        doc = json.load(f)
    mod = load(doc['property'])
    rs = [run_plan(mod, p) for p in doc['prefix'] + [doc['plan']]]
    r = rs[-1]
    ok = doc['class'] in [v[0] for v in r['violations']]
    same = doc.get('digest') in (None, r['digest'])
    if not brief:
        for v in r['violations']:
            print('%s: %s' % tuple(v))
        for e in r['trace'] or ():
            print('   ', ' '.join(e))
    if r['harness']:
        print('ERROR', r['harness'], file=sys.stderr)
        return 2
    if ok and same:
        print('VIOLATION property=%s replay=%s' % (doc['property'], path))
        return 1
    if ok:
        print('VIOLATION property=%s replay=%s (same violation, different event log: the code has changed)' % (doc['property'], path))
        return 1
    print('not reproduced: the property holds on this replay')
    return 0


def evidence(mod, prop, tier, seed, flat, t_explore, wall, nbad, report, seen_known, n, nb, nproc):
    counters = {}
    for r in flat:
        for k, c in r['counters'].items():
            counters[k] = counters.get(k, 0) + c
    faults = dict((k[6:], c) for k, c in counters.items() if k.startswith('fault:'))
    probes = dict((k[6:], c) for k, c in counters.items() if k.startswith('probe:'))
    sigs = set(r['sig'] for r in flat if r['nontrivial'])
    inter = set(s for r in flat for s in r['sigs'])
    samples = [r['sample'] for r in flat if r['sample'] and r['nontrivial']][:3]
    cov = {
        'evaluations': len(flat),
        'distinct_nontrivial': len(sigs),
        'rule': mod.RULE,
        'samples': samples,
        'oracle_evaluations': sum(r['checks'] for r in flat),
        'runs_per_hour': int(len(flat) / max(t_explore, 1e-6) * 3600),
        'seeds': {'VERIF_SEED': seed, 'first_run': 0, 'runs': n},
        'simulated_seconds': round(sum(r['sim_time'] for r in flat), 3),
        'scheduling_points_passed': sum(r['steps'] for r in flat),
        'context_switches': sum(r['switches'] for r in flat),
        'faults_injected': faults,
        'probes': probes,
        'distinct_interleavings': len(inter),
        'interleaving_measure': 'hash of the sequence of (from task, to task, code site) context switches of a concurrent section',
        'other_counters': dict((k, c) for k, c in counters.items() if not k.startswith(('fault:', 'probe:'))),
        'components': mod.COMPONENTS,
        'worker_processes': nproc, 'batches': nb,
        'violations_reported': [{'class': v[0], 'message': v[1][:300], 'replay': p} for p, v, _ in report],
        'known_findings_seen': dict((k, c) for k, (_, c) in seen_known.items()),
    }
    return {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
            'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': nbad}


def determinism(prop, tier, seed, runs):
    """digests of runs, for diffing between configurations"""
    mod = load(prop)
    return [(i, run_plan(mod, make_plan(mod, seed, i, tier))['digest']) for i in runs]


def selftest():
    """the simulator boots, and the same seed gives the same event log"""
    bad = 0
    names = sorted(n[:-3].upper() for n in os.listdir(os.path.join(VERIF, 'sim', 'scen')) if re.match(r'c\d\d\.py$', n))
    for n in names:
        mod = load(n)
        # in different orders: a run must not depend on those before it
        fns = [lambda: sorted(determinism(n, 'quick', 7, (0, 1, 2, 3))), lambda: sorted(determinism(n, 'quick', 7, (3, 2, 1, 0)))]
        a, b = run_jobs(fns, 2, 300)
        if a is None or b is None or a != b or a[0] != 'ok':
            print('selftest: %s: %s' % (n, a if a == b else 'two executions of one seed differ'))
            bad += 1
    print('selftest: %d scenarios, %d not deterministic' % (len(names), bad))
    return 1 if bad else 0
