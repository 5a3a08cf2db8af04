#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] | --replay FILE | --digests"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def reexec():
    """always the same interpreter and environment"""
    want = '/opt/venv/bin/python'
    env = dict(os.environ)
    if env.get('SIM_CHILD') == '1':
        return
    for k in ('PYTHONPATH', 'PYTHONSTARTUP', 'PYTHONHOME'):
        env.pop(k, None)
    env.update(SIM_CHILD='1', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/sim', LC_ALL='C.UTF-8', TZ='UTC')
    env.setdefault('PYTHONHASHSEED', '0')
    exe = want if os.path.exists(want) else sys.executable
    os.execve(exe, [exe, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    reexec()
    sys.path.insert(0, HERE)
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--nproc', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--brief', action='store_true')
    ap.add_argument('--digests', type=int, help='print the event log digests of the first N runs')
    ap.add_argument('--selftest', action='store_true', help='boot the simulator and run a few runs of every scenario twice')
    ap.add_argument('--one', type=int, help='execute one run and print its result')
    a = ap.parse_args()
    from sim import boot
    boot.boot()
    from sim import runner
    if a.selftest:
        return runner.selftest()
    if a.replay:
        return runner.replay(a.replay, a.brief)
    if a.digests:
        mod = runner.load(a.property)
        fns = []
        n = a.nproc or runner.NPROC
        size = max(1, a.digests // n)
        ixs = list(range(a.digests))
        chunks = [ixs[i:i + size] for i in range(0, len(ixs), size)]
        vals = runner.run_jobs([(lambda c=c: runner.determinism(a.property, a.tier, a.seed, c)) for c in chunks], n, 3000)
        for v in vals:
            if v is None or v[0] != 'ok':
                print('ERROR', v)
                return 2
            for i, d in v[1]:
                print(a.property, a.seed, i, d)
        return 0
    if a.one is not None:
        import json
        mod = runner.load(a.property)
        plan = runner.make_plan(mod, a.seed, a.one, a.tier)
        if not a.brief:
            print(json.dumps(plan, indent=1))
        r = runner.run_plan(mod, plan)
        print(json.dumps(dict((k, v) for k, v in r.items() if k != 'trace'), indent=1, default=str))
        if r['harness']:
            print(r['harness'])
        return 1 if r['violations'] else 0
    return runner.check(a.property, a.tier, a.seed, a.runs, a.budget, a.nproc)


if __name__ == '__main__':
    sys.exit(main())
