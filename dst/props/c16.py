import math
import random

import numpy as np

from .. import env, gen, kernel, points
from ..env import api
from ..kernel import Violation

points.install(env.PKGDIR)

ID = 'C16'
COUNT = {'quick': 260, 'thorough': 6000}
RULE = ('one run = the global generator is brought to a seeded state by a '
        'history of other draws and interrupted synthesis calls, a process '
        'with seeded parameters is synthesised (two independent streams of '
        '16 realisations, or one beside an independent synthesis of the '
        'same law written for this check) and analysed through a seeded entry point, '
        'wavelet, normalisation, weighting, formalism and integration order; '
        'the estimates are compared with the parameters, and with each '
        'other, within a bias allowance for the scale range plus six '
        'standard errors measured over the realisations; non-trivial: every '
        'completed comparison')
STATE_MEASURE = 'distinct (process, entry, wavelet, formalism, weighting, ' \
    'integration) tuples'
REACH = ['fbm', 'fgn', 'mrw', 'mrw_cumul', 'leaders', 'pleaders',
         'integrated', 'fault.interrupt', 'compared']
ASSUMPTIONS = ['bias allowances of the finite scale range, calibrated on '
               '600 runs of the unchanged tree: H 0.025, c1 0.025 '
               '(coefficients) or 0.05 (leaders), c2 0.045, beta 0.05']
R = 16
WTS = ['db2', 'db3', 'db3', 'db4', 'sym4', 'coif1']
# bias allowance, floor of the standard error
TOL = {'H': (.025, .008), 'hurst': (.025, .008), 'Hl': (.05, .008),
       'c1d': (.025, .012), 'c1l': (.05, .007), 'c2d': (.02, .03),
       'c2l': (.045, .004), 'beta': (.05, .02)}


def plan(rng, tier):
    k = rng.choice(['fbm', 'fbm', 'fgn', 'mrw', 'mrw', 'mrw_cumul'])
    c = {'k': k, 'N': rng.choice([8192, 8192, 16384]),
         'H': round(rng.uniform(.22 if k[0] == 'f' else .5, .88), 3),
         'lam2': 0 if k in ('fbm', 'fgn') else round(rng.uniform(.005, .085),
                                                     4),
         'sigma': rng.choice([1, 1, 3., .1]), 'wt': rng.choice(WTS),
         'weighted': rng.choice([True, False]),
         'p': rng.choice([None, 'inf', 'inf', 2, 1, 1.5]),
         'norm': rng.choice([1, 1, 1, 2]),
         'gamint': rng.choice([0., 0., .5, 1.]) if k != 'fgn' else 1.,
         'entry': rng.choice(['full', 'full', 'staged', 'minimal', 'signal']),
         'ref': rng.random() < .75, 'seed': rng.randrange(10**6), 'solo': rng.random() < .2}
    if c['norm'] == 2:
        c['p'] = None
    if c['p'] is not None:
        c['N'] = 16384
        if k != 'fgn':
            c['gamint'] = rng.choice([0., 0., .3])
    c['j1'] = rng.choice([3, 4]) if c['p'] is None else 4
    if rng.random() < (.35 if c['lam2'] > .03 else .08):
        # many realisations: what is compared with the reference is sharper
        c['R'], c['ref'], c['solo'] = 96, True, False
        c['N'] = min(c['N'], 8192 if c['p'] is None else 16384)
    pre = []
    for _ in range(rng.choice([0, 1, 2])):
        pre.append(rng.choice([['draws', rng.randrange(5000)],
                               ['cut', rng.choice(points.KINDS),
                                rng.randrange(25)],
                               ['other', rng.randrange(3)]]))
    return {'c': c, 'pre': pre}


def shrink(P, res=None):
    for p in gen.shrink_list(P['pre']):
        yield {**P, 'pre': p}
    for k, v in (('wt', 'db3'), ('weighted', True), ('p', None),
                 ('norm', 1), ('entry', 'full'), ('sigma', 1),
                 ('solo', False), ('R', R)):
        if P['c'].get(k, v) != v:
            yield {**P, 'c': {**P['c'], k: v}}


def synth(c):
    n = (c['N'], reps(c))
    if c['solo'] and c['k'] == 'fbm':
        return np.stack([api.fbm(c['N'], c['H'], sigma=c['sigma'])
                         for _ in range(reps(c))], axis=1)
    if c['k'] in ('fbm', 'fgn'):
        f = api.fbm if c['k'] == 'fbm' else api.fgn
        return f(n, c['H'], sigma=c['sigma'])
    lam = math.sqrt(c['lam2'])
    if c['k'] == 'mrw':
        return api.mrw(n, c['H'], lam, c['N'], sigma=c['sigma'])
    return api.mrw_cumul(n, c['H'] + c['lam2'], -c['lam2'], c['N'],
                         sigma=c['sigma'])


def embed(cov, rng, R):
    """Stationary Gaussian vectors with the given autocovariance."""
    n = len(cov)
    ev = np.fft.fft(np.r_[cov, cov[-2:0:-1]]).real.clip(0)
    z = rng.standard_normal((len(ev), R)) \
        + 1j * rng.standard_normal((len(ev), R))
    return np.fft.fft(np.sqrt(ev / len(ev))[:, None] * z, axis=0).real[:n]


def reference(c):
    """The same law, synthesised without the package."""
    n, h, R = c['N'], c['H'], reps(c)
    rng = np.random.default_rng(c['seed'])
    k = np.arange(n, dtype=float)
    e = embed(c['sigma'] ** 2 / 2 * (abs(k - 1) ** (2 * h) - 2 * k ** (2 * h)
                                     + (k + 1) ** (2 * h)), rng, R)
    if c['k'] == 'fgn':
        return e
    if c['lam2']:
        w = embed(c['lam2'] * np.log(n / (k + 1)), rng, R)
        e = e * np.exp(w - w.mean(axis=0) - c['lam2'] / 2 * np.log(n))
    return np.cumsum(e, axis=0)


def analyse(c, x):
    L = gen.WAVELETS[c['wt']]
    j1, j2 = c['j1'], int(math.log2(c['N'] / (L + 1))) - 2
    o = dict(wt_name=c['wt'], j1=j1, j2=j2, gamint=c['gamint'],
             normalization=c['norm'], weighted=c['weighted'],
             p_exp=gen.dec(c['p']))
    if o['p_exp'] is not None and not math.isinf(o['p_exp']):
        o['p_exp'] = float(o['p_exp'])
    q = [1, 2]
    hu = None
    if c['entry'] == 'full':
        M = api.mf_analysis_full(x, q=q, n_cumul=2, **o)
    elif c['entry'] == 'signal':
        S = api.Signal(x, 100.)
        M = S.mf_analysis_full(q=q, n_cumul=2, **o)
        hu = S.hurst()[0]
    else:
        W = api.wavelet_analysis(x, **o)
        f = api.mf_analysis if c['entry'] == 'staged' \
            else api.minimal_mf_analysis
        M = f(W.wt_coefs, W.wt_leaders, W.j2_eff, j1=j1,
              weighted=c['weighted'], n_cumul=2, q=q)
        hu = api.compute_hurst(W.wt_coefs, j1, W.j2_eff, c['weighted'])[0]
    # 2^{j(1/2 - 1/norm)}: the L^2 normalisation shifts the exponents by 1/2
    g = c['gamint']
    sh = .5 if c['norm'] == 2 else 0.
    e = {'H': M.dwt.structure.H - sh}
    if hu is not None:
        e['hurst'] = np.asarray(hu) - g - sh
    if M.dwt.cumulants is not None:
        e['c1d'] = M.dwt.cumulants.c1 - g - sh
        e['c2d'] = M.dwt.cumulants.c2
    if M.lwt is not None:
        cu = M.lwt.cumulants
        e.update(c1l=cu.c1 - g, c2l=cu.c2)
        if M.lwt.structure is not None:
            e['Hl'] = M.lwt.structure.H
    fs = 100.
    m = 3
    f = [.75 * fs * 2. ** -(j2 + .5), .75 * fs * 2. ** -(j1 - .5)]
    b = []
    for r in range(x.shape[1]):
        b.append(float(np.squeeze(api.fractal_analysis(
            x[:, r], fs, m, tuple(f)).beta)))
    e['beta'] = np.array(b)
    return {k: np.asarray(v, float).ravel() for k, v in e.items()}


def reps(c):
    return c.get('R', R)


def floor(c, k):
    return TOL[k][1] * (1.5 if c['lam2'] else 1)


def truth(c):
    h = c['H'] - (1 if c['k'] == 'fgn' else 0)
    return {'H': h, 'hurst': h, 'Hl': h, 'c1d': h + c['lam2'],
            'c1l': h + c['lam2'], 'c2d': -c['lam2'], 'c2l': -c['lam2'],
            'beta': -(2 * h + 1)}


def execute(P, ctx):
    c = P['c']
    np.random.seed(c['seed'])
    for p in P['pre']:
        if p[0] == 'draws':
            np.random.rand(p[1])
        elif p[0] == 'other':
            api.fbm((64, 2), .3)
        else:
            with points.fault(p[1], p[2]) as f:
                kernel.outcome(synth, {**c, 'N': 64})
            if f.fired:
                ctx.count('fault.' + p[1])
    t = truth(c)
    both = []
    ref = c.get('ref')
    for i in range(2):
        o = ('ok', reference(c)) if ref and i else kernel.outcome(synth, c)
        if o[0] == 'exc':
            raise Violation('fails', f'synthesis {c}: {o[1:]}')
        a = kernel.outcome(analyse, c, o[1])
        if a[0] == 'exc':
            raise Violation('fails', f'analysis {c}: {a[1:]}')
        e = a[1]
        both.append(e)
        for k, v in e.items():
            n = reps(c)
            if v.shape != (n,) or not np.isfinite(v).all():
                raise Violation('not-estimated', f'{k} of {c} is {v[:4]}')
            se = v.std(ddof=1) / math.sqrt(n)
            b, s0 = TOL[k][0], floor(c, k)
            tol = b + 6 * max(se, s0)
            if abs(v.mean() - t[k]) > tol:
                raise Violation('not-recovered', f'{k} of {c} is estimated '
                                f'as {v.mean():.4f} (standard error '
                                f'{se:.4f}), the parameter is {t[k]:.4f}')
            ctx.count('compared')
    for k in both[0]:
        u, v = both[0][k], both[1][k]
        s0 = floor(c, k) * math.sqrt(R / reps(c))
        se = math.hypot(max(u.std(ddof=1) / math.sqrt(len(u)), s0),
                        max(v.std(ddof=1) / math.sqrt(len(v)), s0))
        if abs(u.mean() - v.mean()) > 6 * se:
            if ref:
                raise Violation('reference-disagrees', f'{k} of {c}: '
                                f'{u.mean():.4f} for the package\'s '
                                f'synthesis, {v.mean():.4f} for an '
                                'independent synthesis of the same law')
            raise Violation('streams-disagree', f'{k} of {c}: '
                            f'{u.mean():.4f} from one stream and '
                            f'{v.mean():.4f} from the next')
        if np.array_equal(u, v):
            raise Violation('streams-equal', f'{k} of {c}: two successive '
                            'syntheses give the same estimates')
    if ref:
        ctx.count('reference')
    ctx.count(c['k'])
    if c['p'] is not None:
        ctx.count('leaders' if c['p'] == 'inf' else 'pleaders')
    if c['gamint']:
        ctx.count('integrated')
    ctx.nontrivial = True
    ctx.state((c['k'], c['entry'], c['wt'], c['p'], c['weighted'],
               c['gamint']))
    ctx.log({k: round(float(v.mean()), 6) for k, v in both[0].items()})
