import math
import random

import numpy as np

from .. import env, gen, kernel, compare, faultgen, points, sched, ops
from .. import refmodel as rm
from .. import wavecheck as wc
from ..env import api
from ..kernel import Violation

points.install(env.PKGDIR)

ID = 'C12'
HISTORY = True
COUNT = {'quick': 500, 'thorough': 12000}
RULE = ('one run = 2-7 realisations with individual acquisition faults, '
        'split into 1-5 batches (a realisation may appear in several) that '
        '1-3 simulated workers take from a queue in seeded order; workers '
        'crash part-way at seeded points and the job is retried, jobs are '
        'delivered twice, and in part of the runs the workers are '
        'interleaved at source-line granularity; every realisation of every '
        'delivered result is compared with that realisation analysed alone '
        'in a pristine process over the same scale range; non-trivial: a '
        'batch with at least two realisations was compared')
STATE_MEASURE = 'distinct (analysis, partition, fault) combinations'
REACH = ['fault.worker_crash', 'fault.redelivery', 'correction_suppressed',
         'columns_compared', 'switches', 'fault.drop',
         'range_reduced_by_another']

AXIS_LAST = ('.logvalues', '.zeta', '.intercept', '.H', '.log_cumulants',
             '.slope', '.Dq', '.hq', '.U', '.V', '.hmin', '.values',
             '.eta_p', '.var_log_cumulants')


def plan(rng, tier):
    rep = rng.choice([2, 2, 3, 4, 5, 7])
    s = gen.rand_sig(rng, 150, 420, rep=rep)
    s['faults'] = []
    if rng.random() < .75:
        s['faults'] = faultgen.dropouts(rng, s['n'], rep)
        if s['dtype'] == 'i4':
            s['dtype'] = 'f8'
    if rng.random() < .5:
        s['faults'] += [gen.rand_fault(rng, s['n'], rep,
                                       ['spike', 'gain', 'offset'])
                        for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < .2:
        # a channel that is silent for most of the recording, or altogether
        s['faults'].append(['off', rng.choice([0, 8, 20, 35, rng.randint(
            1, s['n'] - 1)]), 0, rng.randrange(rep)])
    elif rng.random() < .1:
        s['faults'].append(['late', s['n'] - rng.choice([0, 12, 25, 40]), 0,
                            rng.randrange(rep)])
    elif rng.random() < .15:
        gen.units(rng, s, .2)
    wide = rng.random() < .09
    if wide:        # more channels than samples, or just many
        s['n'] = rng.randint(24, 60)
        rep = s['rep'] = rng.choice([
            s['n'] + rng.choice([1, 3, 12]), rng.randint(17, 150),
            rng.choice([32, 64, 128]) + rng.randint(-2, 9)])
        s['faults'] = []
    P = {'sig': s}
    P['k'] = rng.choice(['mfa', 'mfa', 'mfa', 'full', 'wavelet', 'psd_w',
                         'hurst', 'hmin'])
    P['o'] = gen.rand_wt_opts(rng, s['n'],
                              p_exps=(None, 'inf', 2, 1, 4, .5, 3))
    P['q'] = gen.rand_q(rng)
    P['nc'] = rng.choice([1, 2, 3])
    P['m'] = ops.rand_moments(rng, s['n'])
    jobs = []
    order = list(range(rep))
    rng.shuffle(order)
    while order:
        k = rng.randint(1, len(order))
        jobs.append({'cols': order[:k]})
        order = order[k:]
    if rng.random() < .5:
        jobs.append({'cols': rng.sample(range(rep), rng.randint(1, rep))})
    if rng.random() < .4:
        c = list(range(rep))
        if rng.random() < .5:
            rng.shuffle(c)
        jobs.append({'cols': c})
    if wide:
        c = list(range(rep))
        rng.shuffle(c)
        jobs = [{'cols': c}, {'cols': c[:rng.randint(1, 4)]}]
    for j in jobs:
        if rng.random() < .15:          # the same realisation again
            for _ in range(rng.choice([1, 1, 2])):
                j['cols'] = list(j['cols'])
                j['cols'].insert(rng.randrange(len(j['cols']) + 1),
                                 rng.choice(j['cols']))
        if rng.random() < .4:
            j['crash'] = [points.spec(rng)
                          for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .2:
            j['twice'] = True
        if len(j['cols']) == 1 and rng.random() < .5:
            j['flat'] = True
        j['view'] = rng.random() < .4
    rng.shuffle(jobs)
    P['jobs'] = jobs
    P['workers'] = rng.choice([1, 1, 2, 3])
    if rng.random() < .3:
        P['sched'] = {'mode': 'dense', 'p': rng.choice([.002, .02, .2]),
                      'seed': rng.randrange(10**6), 'first': 0}
        P['workers'] = rng.choice([2, 3])
    return P


def shrink(P, res=None):
    for c in gen.shrink_list(P['jobs'], 1):
        yield {**P, 'jobs': c}
    if 'sched' in P:
        yield {**{k: v for k, v in P.items() if k != 'sched'}, 'workers': 1}
    for i, j in enumerate(P['jobs']):
        for k in ('crash', 'twice', 'view'):
            if j.get(k):
                d = dict(j)
                del d[k]
                yield gen.subst(P, ['jobs', i], d)
        for c in gen.shrink_list(j['cols'], 1):
            if 'flat' not in j or len(c) == 1:
                yield gen.subst(P, ['jobs', i, 'cols'], c)
    for f in gen.shrink_list(P['sig']['faults']):
        yield gen.subst(P, ['sig', 'faults'], f)
    for k, v in (('layout', 'C'), ('dtype', 'f8')):
        if P['sig'][k] != v:
            yield gen.subst(P, ['sig', k], v)
    for t in ops.simpler_ops({'o': P['o']}):
        yield {**P, 'o': t['o']}


def analyse(P, x):
    """What a worker does with a batch."""
    o = gen.wt_kw(P['o'])
    k = P['k']
    if k == 'psd_w':
        return {'psd': api.wavelet_estimation(x, 100., P['m'])}
    if k == 'full':
        return {'mf': api.mf_analysis_full(
            x, **o, q=gen.q_value(P['q']), n_cumul=P['nc'])}
    W = api.wavelet_analysis(x, **o)
    out = {'wt': W}
    if k == 'wavelet':
        return out
    out.update(later(P, W))
    return out


def later(P, W):
    o = gen.wt_kw(P['o'])
    k = P['k']
    if k in ('mfa', 'full'):
        return {'mf': api.mf_analysis(
            W.wt_coefs, W.wt_leaders, W.j2_eff, o['j1'], o['weighted'],
            P['nc'], gen.q_value(P['q']))}
    mrq = W.wt_coefs if W.wt_leaders is None else W.wt_leaders
    if k == 'hurst':
        h, S, lg = api.compute_hurst(mrq, o['j1'], W.j2_eff, o['weighted'])
        return {'est': h, 'S': S}
    if k == 'hmin':
        return {'est': api.estimate_hmin(
            mrq, o['j1'], W.j2_eff, o['weighted'])[0]}
    return {}


def column(flat, r, nrep):
    """Part of a flattened batch result that belongs to realisation r."""
    out = {}
    for k, v in flat.items():
        if k.endswith('.nrep') or '#type' in k or k.endswith('#keys'):
            continue
        per = k == '[est]' or '.nj[' in k or '.values[' in k or '.psd' in k or \
            any(k.endswith(a) for a in AXIS_LAST)
        if per and isinstance(v, np.ndarray):
            if v.ndim == 0 or v.shape[-1] != nrep:
                raise Violation('shape', f'{k} has shape {v.shape} for '
                                f'{nrep} realisations')
            v = v[..., r]
        out[k] = v
    return out


def solo_first(P, x):
    """Stage one of a realisation alone: scales available, eta_p."""
    o = gen.wt_kw(P['o'])
    o2 = {**o, 'p_exp': None if o['p_exp'] is None else math.inf}
    if P['k'] == 'psd_w':
        o2 = {'wt_name': f'db{P["m"]}', 'p_exp': None}
    W = api.wavelet_analysis(x, **o2)
    return (len(W.wt_coefs.values),
            None if W.wt_leaders is None else len(W.wt_leaders.values))


def solo_second(P, x, j2, nc, nl, suppress):
    """A realisation alone, over the scale range of the batch."""
    if P['k'] == 'psd_w':
        p = api.wavelet_estimation(x, 100., P['m'])
        return {'psd': type(p)(p.freq[:nc], p.psd[:nc])}
    o = gen.wt_kw(P['o'])
    W = api.wavelet_analysis(x, **{**o, 'j2': j2})
    for mrq, n in ((W.wt_coefs, nc), (W.wt_leaders, nl)):
        if mrq is not None:
            for j in [j for j in mrq.values if j > n]:
                del mrq.values[j]
                del mrq.nj[j]
    if suppress and np.isnan(W.eta_p).any():
        raise ValueError('no correction to undo')
    if suppress and (W.eta_p > 0).all():
        for j in W.wt_leaders.values:
            f = ((1 - 2. ** (-j * W.eta_p)) / (1 - 2. ** -W.eta_p)) \
                ** (-1 / o['p_exp'])
            W.wt_leaders.values[j] = W.wt_leaders.values[j] / f[None]
    out = {} if P['k'] == 'full' else {'wt': W}
    out.update(later(P, W))
    return out


def some(n):
    """Realisations compared: all of them, or a sample of a wide batch."""
    if n < 9:
        return range(n)
    return sorted({0, n - 2, n - 1,
                   *random.Random(n).sample(range(n), 5)})


def eta_of(P, x, j2):
    o = gen.wt_kw(P['o'])
    return api.wavelet_analysis(x, **{**o, 'j2': j2}).eta_p


def execute(P, ctx):
    s = P['sig']
    x = gen.recording(s)
    for f in s['faults']:
        ctx.count('fault.' + f[0])
    jobs = P['jobs']
    p = gen.dec(P['o']['p_exp']) if P['k'] != 'psd_w' else None
    j1 = P['o']['j1']

    def data(j):
        c = j['cols']
        if j.get('flat'):
            y = x[:, c[0]]
        else:
            y = x[:, c]
        return y if j['view'] else gen.layout(y, 'C')

    passes = {i: points.passes(analyse, P, data(j))
              for i, j in enumerate(jobs) if 'crash' in j}

    # ---- the simulated cluster -----------------------------------------
    queue = list(range(len(jobs)))
    tries = {i: 0 for i in queue}
    results = []
    crashed = []
    redelivered = set()

    def worker():
        while queue:
            i = queue.pop(0)
            j = jobs[i]
            crash = j.get('crash', [])
            t = tries[i]
            tries[i] += 1
            if t < len(crash):
                with points.fault(crash[t][0],
                                  passes[i].at(*crash[t])) as f:
                    o = kernel.outcome(analyse, P, data(j))
                if f.fired:
                    crashed.append((i, f.fired))
                if f.fired and o[0] == 'exc':
                    queue.append(i)       # retried later, by any worker
                    continue
            else:
                o = kernel.outcome(analyse, P, data(j))
            results.append((i, o))
            if j.get('twice') and i not in redelivered:
                redelivered.add(i)
                queue.insert(0, i)

    if 'sched' in P:
        sc = sched.Scheduler(P['sched'], 50_000_000)
        for w in range(P['workers']):
            sc.spawn(f'w{w}', worker)
        with points.steps():
            res = sc.run()
        for val, err in res:
            if isinstance(err, (sched.Deadlock, sched.StepLimit)):
                raise Violation('no-progress', repr(err))
            if err is not None:
                raise kernel.HarnessError(repr(err))
        ctx.count('switches', len(sc.taken))
        ctx.count('steps', sc.steps)
        ctx.log('trace', sc.trace[:100], len(sc.trace))
    else:
        worker()
    ctx.count('fault.worker_crash', len(crashed))
    ctx.count('fault.redelivery', len(redelivered))
    ctx.log('crashes', crashed, 'order', [i for i, _ in results])
    ctx.state((P['k'], P['o'], [j['cols'] for j in jobs], crashed))

    # ---- every realisation alone ---------------------------------------
    first = {}

    def stage_one(c):
        if c not in first:
            first[c] = kernel.pristine_eval(
                kernel.outcome, solo_first, P, gen.layout(x[:, c], 'C'))
        return first[c]

    for i, o in results:
        cols = jobs[i]['cols']
        where = f'batch {i} (realisations {cols})'
        # without faults of its own a channel has the range of the others
        f = [stage_one(c) for c in
             (cols if len(cols) < 9 else cols[:4])]
        if any(v[0] == 'exc' for v in f):
            raise Violation('analysis-fails', f'realisations {cols} alone: '
                            f'{f}')
        nc = min(v[1][0] for v in f)
        nl = None if p is None else min(v[1][1] for v in f)
        if len({v[1] for v in f}) > 1:
            ctx.count('range_reduced_by_another')
        top = nc if nl is None else nl
        j2 = min(top, P['o']['j2'])
        if P['k'] == 'psd_w':
            if nc == 0:
                continue
        elif (P['k'] != 'wavelet' or wc.formalism(p) == 'p') and j2 <= j1:
            ctx.count('no_regression_range')
            continue
        if o[0] == 'exc':
            raise Violation('analysis-fails', f'{where}: {o[1:]}, while its '
                            'realisations can be analysed alone')
        if P['k'] in ('mfa', 'wavelet', 'hurst', 'hmin'):
            if o[1]['wt'].j2_eff != j2:
                raise Violation('scale-range', f'{where}: j2_eff is '
                                f'{o[1]["wt"].j2_eff}, the common range of '
                                f'its realisations is {j2}')
        etas = None
        suppress = False
        if wc.formalism(p) == 'p':
            etas = [kernel.pristine_eval(
                kernel.outcome, eta_of, P, gen.layout(x[:, c], 'C'),
                j2) for c in cols]
            e = np.array([v[1][0] if v[0] == 'ok' else np.nan for v in etas])
            if any(v[0] != 'ok' for v in etas) or (np.abs(e) < 1e-7).any():
                ctx.count('eta_undecided')
                continue
            if np.isnan(e).any():       # a channel without energy
                ctx.count('eta_undefined')
            suppress = bool((e <= 0).any())
            if suppress and (e > 0).any():
                ctx.count('correction_suppressed')
        flat = compare.flatten(o[1])
        for r in some(len(cols)):
            c = cols[r]
            exp = kernel.pristine_eval(
                kernel.flat_outcome, solo_second, P,
                gen.layout(x[:, c], 'C'), j2, nc, nl, suppress)
            if exp[0] == 'exc':
                ctx.count('alone_refused')
                continue
            a = column(flat, r, len(cols))
            b = column(exp[1], 0, 1) if P['k'] != 'psd_w' else \
                {k: (v[..., 0] if k.endswith('.psd') and v.ndim == 2 else v)
                 for k, v in exp[1].items() if '#' not in k}
            if P['k'] == 'psd_w' and jobs[i].get('flat'):
                pass
            # (sums over a channel without energy are rounding errors)
            d = compare.diff(a, b, 1e-8, 1e-10, floor=1e-12)
            if d:
                raise Violation('batch-dependent', f'realisation {c} in '
                                f'{where} differs from the same realisation '
                                f'alone: {d}')
            ctx.count('columns_compared')
            if len(cols) > 1:
                ctx.nontrivial = True
        ctx.log_result(where, flat)
