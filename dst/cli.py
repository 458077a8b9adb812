"""check ID [--tier T] [--seed S] [--runs N] | replay FILE | digests ID ..."""
import argparse
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import time
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')


def load(pid):
    return importlib.import_module(f'dst.props.{pid.lower()}')


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    with open(p) as f:
        d = json.load(f)
    return [k for k in d['known'] if k['property'] == pid]


def is_known(v, known):
    for k in known:
        if v['signature'] == k['signature']:
            return k
    return None


def make_plan(prop, seed, i, tier):
    rng = random.Random(f'{seed}:{prop.ID}:{i}')
    return prop.plan(rng, tier)


def norm(plan):
    return json.loads(json.dumps(plan))


def shrink(prop, plan, res, kernel, known, budget_s, workers):
    """Greedy minimisation: accept any simpler plan that fails the same
    way."""
    end = time.monotonic() + budget_s
    tried = 0
    kind = res['violation']['kind']
    if not hasattr(prop, 'shrink'):
        return plan, res, tried
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        cands = iter([norm(c) for c in prop.shrink(plan, res)])
        stop = False
        while not stop and time.monotonic() < end:
            batch = []
            for c in cands:
                if c != plan:
                    batch.append(c)
                if len(batch) == workers:
                    break
            if not batch:
                break
            pool = kernel.Pool(prop, workers, 120)
            for k, c in enumerate(batch):
                pool.submit(k, c)
            got = {}
            while pool.active:
                for k, r in pool.wait():
                    got[k] = r
            tried += len(batch)
            for k in range(len(batch)):     # first in order: deterministic
                r = got[k]
                v = r['violation']
                if v and v['kind'] == kind and not is_known(v, known):
                    plan, res = batch[k], r
                    improved = stop = True
                    break
    return plan, res, tried


def cmd_check(a):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1')) if a.seed is None else a.seed
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    from . import env, kernel
    prop = load(a.id)
    pid = prop.ID
    known = known_findings(pid)
    runs = a.runs or prop.COUNT[tier]
    workers = a.workers or min(8, os.cpu_count() or 1)
    cap = a.cap or (600 if tier == 'quick' else 3000)
    print(f'{pid}: tier={tier} VERIF_SEED={seed} runs={runs} '
          f'workers={workers} code={env.PKGDIR}', flush=True)

    pool = kernel.Pool(prop, workers)
    agg = dict(counts=Counter(), digests={}, states=set(), plans=set(),
               nontrivial=set(), sample=[], events=0)
    bad, errors, seen_known = {}, {}, {}
    plans = {}
    nxt = 0
    stopped = None
    done = 0
    capped = False
    while True:
        if time.monotonic() - t0 > cap:
            capped = True
        while (nxt < runs and not pool.full() and stopped is None
               and not capped):
            p = norm(make_plan(prop, seed, nxt, tier))
            plans[nxt] = p
            pool.submit(nxt, p)
            nxt += 1
        if not pool.active:
            break
        for i, r in pool.wait():
            done += 1
            p = plans.pop(i)
            key = hashlib.sha256(json.dumps(p, sort_keys=True).encode()
                                 ).hexdigest()
            agg['plans'].add(key)
            agg['counts'].update(r['counts'])
            agg['digests'][i] = r['digest']
            agg['states'].update(r['states'])
            agg['events'] += r['events']
            if r['nontrivial']:
                agg['nontrivial'].add(key)
            if len(agg['sample']) < 2 and r['sample'] and r['nontrivial']:
                agg['sample'].append({'run': i, 'plan': p,
                                      'events': r['sample'][:12]})
            if r['error']:
                errors[i] = r['error']
                if len(errors) >= 3:
                    stopped = 'errors'
            elif r['violation']:
                k = is_known(r['violation'], known)
                if k:
                    seen_known[k['signature']] = k
                    continue
                bad[i] = (p, r)
                stopped = 'violation'
    wall = time.monotonic() - t0

    # findings are listed whether or not this batch happened to reach them
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")

    rc = 0
    if bad:
        i = min(bad)
        p, r = bad[i]
        print(f'{pid}: run {i} violates: {r["violation"]["kind"]}: '
              f'{r["violation"]["message"]}', flush=True)
        p0 = p
        p, r, tried = shrink(prop, p, r, kernel, known,
                             60 if tier == 'quick' else 180, workers)
        rep = dict(property=pid, seed=seed, run=i, tier=tier,
                   violation=r['violation'], digest=r['digest'], plan=p,
                   unminimised_plan=p0, shrink_attempts=tried,
                   events=r['sample'])
        rdir = os.path.join(EVID, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{pid}-seed{seed}-run{i}.json')
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1)
        c = subprocess.run([sys.executable, '-m', 'dst.cli', 'replay', path],
                           cwd=HERE, capture_output=True, text=True)
        ok = c.returncode == 1 and 'REPLAY-EXACT' in c.stdout
        rep['replay_in_fresh_process'] = \
            'same violation and same event log' if ok else \
            'not confirmed: ' + (c.stdout + c.stderr)[-600:]
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1)
        print(f'minimised after {tried} attempts: {r["violation"]["message"]}')
        print(f'replay: {rep["replay_in_fresh_process"]}')
        print(f'VIOLATION property={pid} replay={path}', flush=True)
        rc = 1
    elif errors:
        i = min(errors)
        print(f'{pid}: HARNESS ERROR in run {i} (seed {seed}):\n{errors[i]}',
              file=sys.stderr)
        rc = 3
    elif done == 0:
        print(f'{pid}: nothing was explored', file=sys.stderr)
        rc = 3
    elif hasattr(prop, 'REACH') and done >= 0.8 * prop.COUNT['quick']:
        miss = [k for k in prop.REACH if not agg['counts'].get(k)]
        if miss:
            print(f'{pid}: warning: probes never hit: {miss}')

    faults = {k[6:]: v for k, v in sorted(agg['counts'].items())
              if k.startswith('fault.')}
    ev = dict(
        property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=done,
            distinct_nontrivial=len(agg['nontrivial']),
            rule=prop.RULE,
            samples=agg['sample'],
            simulated_runs=done,
            runs_per_hour=round(done / max(wall, 1e-9) * 3600),
            distinct_plans=len(agg['plans']),
            distinct_event_logs=len(set(agg['digests'].values())),
            distinct_states=len(agg['states']),
            state_measure=getattr(prop, 'STATE_MEASURE',
                                  'see rule; hashed per run'),
            simulated_time=dict(
                events=agg['events'],
                scheduler_steps=agg['counts'].get('steps', 0),
                simulated_seconds=agg['counts'].get('sim_seconds', 0),
                note='the code has no timers of its own apart from '
                     'start_xvfb; simulated time is counted in events and '
                     'scheduler steps'),
            faults_fired=faults,
            probes={k: v for k, v in sorted(agg['counts'].items())
                    if not k.startswith('fault.')},
            components=getattr(prop, 'COMPONENTS', {
                'real': 'all of pymultifracs, numpy, scipy, pywt, sklearn',
                'stub': 'none'}),
            capped_by_wall_clock=capped,
            workers=workers),
        assumptions=getattr(prop, 'ASSUMPTIONS', []),
        wall_s=round(time.monotonic() - t0, 2),
        violations=len(bad),
        known_findings=[k['signature'] for k in known],
        known_findings_reached=sorted(seen_known))
    os.makedirs(EVID, exist_ok=True)
    if not a.no_evidence:
        with open(os.path.join(EVID, f'{pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print(f'{pid}: {done} runs, {len(agg["nontrivial"])} distinct '
          f'non-trivial, faults {faults or "none"}, {wall:.1f} s, exit {rc}',
          flush=True)
    return rc


def cmd_replay(a):
    with open(a.file) as f:
        rep = json.load(f)
    from . import env, kernel  # noqa: F401
    prop = load(rep['property'])
    r = kernel.run_one(prop, rep['plan'])
    for e in r['sample']:
        print('  ', e)
    if r['error']:
        print(r['error'], file=sys.stderr)
        return 3
    v = r['violation']
    if v is None:
        print('no violation')
        return 0
    print(f"{v['kind']}: {v['message']}")
    if is_known(v, known_findings(prop.ID)):
        print('(listed in known_findings.json)')
        return 0
    if v['kind'] == rep['violation']['kind'] and r['digest'] == rep['digest']:
        print('REPLAY-EXACT: same violation, same event log')
    else:
        print('replay differs from the recorded run')
    print(f"VIOLATION property={prop.ID} replay={os.path.abspath(a.file)}")
    return 1


def cmd_digests(a):
    """Event-log digests of runs, for determinism comparisons."""
    from . import env, kernel  # noqa: F401
    prop = load(a.id)
    pool = kernel.Pool(prop, a.workers or 8)
    out, nxt = {}, a.start
    while True:
        while nxt < a.start + a.runs and not pool.full():
            pool.submit(nxt, norm(make_plan(prop, a.seed or 1, nxt, 'quick')))
            nxt += 1
        if not pool.active:
            break
        for i, r in pool.wait():
            out[i] = r['digest'] if not r['error'] else 'ERROR ' \
                + r['error'][-300:]
            if r['violation']:
                out[i] += ' V:' + r['violation']['kind'] + ' ' \
                    + r['violation']['message']
    for i in sorted(out):
        print(prop.ID, i, out[i])
    return 0


def cmd_plan(a):
    from . import env, kernel  # noqa: F401
    prop = load(a.id)
    p = norm(make_plan(prop, a.seed or 1, a.index, a.tier or 'quick'))
    print(json.dumps(p, indent=1))
    if a.run:
        r = kernel.run_one(prop, p)
        print(json.dumps(r, indent=1, default=str))
        if r['error']:
            print(r['error'])
    return 0


def cmd_setup(a):
    """Everything imports; nothing has to be built."""
    from . import env, kernel  # noqa: F401
    for f in sorted(os.listdir(os.path.join(HERE, 'dst', 'props'))):
        if f[0] == 'c' and f.endswith('.py'):
            load(f[:-3])
    os.makedirs(EVID, exist_ok=True)
    print('ready:', env.PKGDIR)
    return 0


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest='cmd', required=True)
    c = sp.add_parser('check')
    c.add_argument('id')
    c.add_argument('--tier')
    c.add_argument('--seed', type=int)
    c.add_argument('--runs', type=int)
    c.add_argument('--workers', type=int)
    c.add_argument('--cap', type=float)
    c.add_argument('--no-evidence', action='store_true')
    c.set_defaults(fn=cmd_check)
    c = sp.add_parser('setup')
    c.set_defaults(fn=cmd_setup)
    c = sp.add_parser('replay')
    c.add_argument('file')
    c.set_defaults(fn=cmd_replay)
    c = sp.add_parser('digests')
    c.add_argument('id')
    c.add_argument('--runs', type=int, default=50)
    c.add_argument('--start', type=int, default=0)
    c.add_argument('--seed', type=int)
    c.add_argument('--workers', type=int)
    c.set_defaults(fn=cmd_digests)
    c = sp.add_parser('plan')
    c.add_argument('id')
    c.add_argument('index', type=int)
    c.add_argument('--seed', type=int)
    c.add_argument('--tier')
    c.add_argument('--run', action='store_true')
    c.set_defaults(fn=cmd_plan)
    a = ap.parse_args()
    sys.exit(a.fn(a))


if __name__ == '__main__':
    main()
