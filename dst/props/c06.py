import json
import os
import random
import subprocess
import sys
import warnings

import numpy as np

from .. import env, gen, kernel, compare, ops, plots, threadsim, points, \
    sched, procstate
from ..env import plt
from ..kernel import Violation

ID = 'C06'
COUNT = {'quick': 420, 'thorough': 6000}
RULE = ('one run = analysis calls in 2-4 scheduled threads beside a '
        'bystander thread that issues warnings, draws random numbers and '
        'changes warning filters; or a serial history of analysis and plot '
        'calls; or an import in seeded order in a fresh interpreter; calls '
        'fail part-way at seeded points, under seeded warning policies and '
        'numpy error settings; interpreter-wide state is compared before and '
        'after; non-trivial: a fault fired or the bystander was scheduled '
        'inside another thread\'s call')
STATE_MEASURE = 'distinct interleavings / (operation, fault site) pairs'
REACH = ['fault.memory', 'pings_delivered', 'imports', 'bystander_draws']


def plan(rng, tier):
    n = rng.randint(180, 300)
    u = rng.random()
    if u < .03:
        m = env.MODULES[1:]
        rng.shuffle(m)
        return {'mode': 'import', 'order': m[:rng.randint(3, len(m))],
                'policy': rng.choice(['always', 'error', 'default'])}
    P = {'policy': rng.choice(['always', 'always', 'error', 'default']),
         'err': rng.choice(['default', 'default', 'raise', 'ignore']),
         'rng': rng.randrange(10**6)}
    if u < .55:
        P['mode'] = 'threads'
        sigs = [gen.rand_sig(rng, n, n, faults=rng.choice([0, 1, 3]))
                for _ in range(2)]
        P['sigs'] = sigs
        P['share'] = rng.random() < .2
        P['threads'] = threadsim.rand_threads(rng, sigs, faults=.5,
                                              share=P['share'])
        P['sched'] = threadsim.rand_schedule(rng)
        P['pings'] = rng.randint(5, 60)
        return P
    P['mode'] = 'serial'
    sigs = [gen.rand_sig(rng, n, n, rep=rng.choice([0, 0, 2]),
                         faults=rng.choice([0, 1, 3])) for _ in range(2)]
    calls = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .3:
            one = [s for s in sigs if s['rep'] == 0]
            if not one:
                sigs.append(gen.rand_sig(rng, n, n, rep=0))
                one = [sigs[-1]]
            sub = [rng.choice(one)]
            op = plots.rand_plot(rng, sub)
            off = len(sigs)
            sigs += sub
            op['s'] += off
            if 's2' in op:
                op['s2'] += off
        else:
            op = ops.rand_op(rng, sigs)
            if 'o' in op and 's2' not in op and rng.random() < .3:
                # an analysis that has something to warn about
                sigs.append({**sigs[op['s']], 'proc': 'white'})
                op['s'] = len(sigs) - 1
                op['o'].update(p_exp=rng.choice([1, 2, 3]), gamint=0.)
        if rng.random() < .6:
            op['fault'] = points.spec(rng)
        calls.append(op)
    P['sigs'], P['calls'] = sigs, calls
    return P


def shrink(P, res=None):
    if P['mode'] == 'threads':
        yield from threadsim.shrink(P, res)
    elif P['mode'] == 'serial':
        for c in gen.shrink_list(P['calls'], 1):
            yield {**P, 'calls': c}
        for i, c in enumerate(P['calls']):
            if 'fault' in c:
                d = dict(c)
                del d['fault']
                yield gen.subst(P, ['calls', i], d)
    else:
        for c in gen.shrink_list(P['order'], 1):
            yield {**P, 'order': c}


class Recorder:
    def __init__(self):
        self.got = []

    def __call__(self, message, category, filename, lineno, file=None,
                 line=None):
        self.got.append((str(message), category.__name__))


def policy(P):
    warnings.resetwarnings()
    warnings.simplefilter(P['policy'])
    if P.get('err', 'default') != 'default':
        np.seterr(all=P['err'])


def execute(P, ctx):
    {'threads': threads, 'serial': serial, 'import': imports}[P['mode']](
        P, ctx)


def serial(P, ctx):
    sigs = [gen.recording(s) for s in P['sigs']]
    for i, op in enumerate(P['calls']):
        np.seterr(all='warn')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            o = kernel.outcome(lambda: (
                plots if op['op'].startswith('p_') else ops).prepare(op, sigs))
        if o[0] == 'exc':
            ctx.log(i, op['op'], 'not prepared', o[1])
            continue
        call = o[1]
        rec = warnings.showwarning = Recorder()
        policy(P)
        n = kernel.fork_eval(lambda: points.survey(
            lambda: kernel.outcome(call))[0])
        np.random.seed(P['rng'])
        random.seed(P['rng'])
        a = procstate.image()
        fired = None
        if 'fault' in op and n:
            with points.fault(op['fault'][0],
                              n.at(*op['fault'])) as f:
                o = kernel.outcome(call)
            fired = f.fired
            if fired:
                ctx.count('fault.' + op['fault'][0])
                ctx.nontrivial = True
        else:
            o = kernel.outcome(call)
        b = procstate.image()
        d = procstate.changed(a, b)
        ctx.log(i, op['op'], o[0], str(fired), len(rec.got))
        ctx.state((op['op'], fired))
        ctx.count('calls')
        if d:
            raise Violation('state-changed', f'call {i} ({op["op"]}, '
                            f'{"cut short in " + str(fired) if fired else o[0]}'
                            f') changed process-wide state: {d}')
        plt.close('all')
    np.seterr(all='warn')


def threads(P, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        W = threadsim.World(P)
        seen = {'pings': 0, 'draws': [], 'filter': None, 'geterr': []}
        npings = P['pings']

        class Mark(UserWarning):
            pass

        rec = Recorder()
        state0 = {}

        def bystander():
            g0 = np.geterr()
            for k in range(npings):
                try:
                    warnings.warn(f'ping {k}', Mark, stacklevel=2)
                except Mark:
                    rec.got.append((f'ping {k}', 'raised'))
                cur = sched.CURRENT
                if cur is not None:
                    cur.step('bystander')
                seen['draws'].append((float(np.random.random()),
                                      random.random()))
                if cur is not None:
                    cur.step('bystander')
                if k == npings // 2:
                    warnings.filterwarnings('always', 'marker of bystander')
                    seen['filter'] = repr(warnings.filters[0])
            seen['geterr'] = (g0, np.geterr())

        W.bystander = bystander
        total = W.total_steps()
        plan_ = threadsim.materialise(P['sched'], total)
    warnings.showwarning = rec
    policy(P)
    seen.update(draws=[], filter=None)
    rec.got.clear()
    np.random.seed(P['rng'])
    random.seed(P['rng'])
    expect = [(float(np.random.random()), random.random())
              for _ in range(npings)]
    end_state = procstate.image()
    np.random.seed(P['rng'])
    random.seed(P['rng'])
    s = W.scheduler(plan_, 30 * total + 10000)
    errs = []

    def watched(t, fn):
        def body():
            g = np.geterr()
            try:
                return fn()
            finally:
                if np.geterr() != g:
                    errs.append((t, g, np.geterr()))
        return body
    for t in s.tasks:
        t.fn = watched(t.name, t.fn)
    with points.steps():
        res = s.run()
    ctx.info['taken'] = s.taken
    ctx.count('steps', s.steps)
    ctx.count('switches', len(s.taken))
    ctx.log('trace', s.trace[:200], len(s.trace))
    ctx.state([t[1:] for t in s.trace])
    inside = [t for t in s.trace if 'bystander' in t[1:3] and t[3] not in
              ('end', None)]
    if inside:
        ctx.nontrivial = True
    for t, (val, err) in enumerate(res):
        if isinstance(err, (sched.Deadlock, sched.StepLimit)):
            raise Violation('no-progress', f'thread {t} does not finish: '
                            f'{type(err).__name__}')
        if err is not None:
            raise kernel.HarnessError(repr(err))
    for t, lst in enumerate(P['threads']):
        for i, op in enumerate(lst):
            if 'fault' in op and res[t][0][i][1]:
                ctx.count('fault.' + op['fault'][0])
                ctx.nontrivial = True
    pings = [m for m in rec.got if m[0].startswith('ping')]
    want = [f'ping {k}' for k in range(npings)]
    if P['policy'] in ('always', 'error'):
        if [m[0] for m in pings] != want:
            lost = [w for w in want if w not in [m[0] for m in pings]]
            raise Violation('warning-lost', 'warnings of another thread '
                            f'were not delivered while analyses ran: {lost}')
        if P['policy'] == 'error' and any(m[1] != 'raised' for m in pings):
            raise Violation('warning-lost', 'a warning of another thread '
                            'was not turned into an error as requested')
        ctx.count('pings_delivered', len(pings))
    if seen['draws'] != expect:
        raise Violation('randomness-consumed', 'random numbers drawn by '
                        'another thread changed while analyses ran')
    ctx.count('bystander_draws', len(expect))
    if errs:
        raise Violation('state-changed', 'numpy error settings of thread '
                        f'{errs[0][0]} changed: {errs[0][1:]}')
    now = procstate.image()
    # the bystander added one filter, which has to be still there
    fl = [repr(f) for f in warnings.filters]
    if seen['filter'] not in fl:
        raise Violation('state-changed', 'a warning filter installed by '
                        'another thread while analyses ran is gone')
    fl.remove(seen['filter'])
    now['warning filters'] = fl
    d = procstate.changed(end_state, now)
    if d:
        raise Violation('state-changed', 'concurrent analyses changed '
                        f'process-wide state: {d}')
    ctx.count('state_compared')


CODE = r'''
import sys, os, warnings, json, random
repo, verif, order, policy = json.loads(sys.argv[1])
sys.path.insert(0, verif)
sys.path.insert(0, repo)
import numpy, scipy.signal, scipy.linalg, scipy.special, pywt
import sklearn.linear_model, pandas, matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot, seaborn
sys.dont_write_bytecode = True
from dst import procstate
import importlib
warnings.resetwarnings()
warnings.simplefilter(policy)
numpy.random.seed(5); random.seed(5)
a = procstate.image()
out = None
for m in order:
    importlib.import_module(m)
    d = procstate.changed(a, procstate.image())
    if d and out is None:
        out = [m, d]
print('RESULT' + json.dumps(out))
'''


def imports(P, ctx):
    r = subprocess.run(
        [sys.executable, '-c', CODE, json.dumps(
            [env.REPO, env.VERIF, P['order'], P['policy']])],
        capture_output=True, text=True, timeout=200)
    line = [ln for ln in r.stdout.splitlines() if ln.startswith('RESULT')]
    if not line:
        raise Violation('import-fails', f'importing {P["order"]} under '
                        f'warning policy {P["policy"]}: '
                        + r.stderr[-500:])
    out = json.loads(line[0][6:])
    ctx.count('imports', len(P['order']))
    ctx.log('import', P['order'], out)
    if out:
        raise Violation('import-changes-state', f'importing {out[0]} changed '
                        f'process-wide state: {out[1]}')
