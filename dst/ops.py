"""Operations simulated clients perform: plan item -> call on the package."""
import numpy as np

from . import gen
from .env import api

ANALYSIS = ['wavelet', 'wavelet', 'mfa', 'minimal', 'mfa_full', 'mfa_full',
            'bivariate', 'bivariate_full', 'psd_w', 'welch', 'fractal',
            'beta', 'hurst', 'hmin', 'signal']
ON_TRANSFORM = ['mfa', 'mfa', 'hurst', 'bivariate']
SYNTH = ['fgn_z', 'fbm_z', 'mrw_z', 'mrw_cumul_z']
Q12 = [[0, 1, 2], [0.0, 1.0, 2.0], [-1, 0, 1, 2], [2, 0, 1],
       [0.0, 0.5, 1.0, 2.0, 3.0]]


class Call:
    """A call about to be made; `inputs` is everything handed to it."""

    def __init__(self, name, fn, *args, **kwargs):
        self.name, self.fn, self.args, self.kwargs = name, fn, args, kwargs
        self.inputs = [list(args), kwargs]

    def __call__(self):
        return self.fn(*self.args, **self.kwargs)


# --------------------------------------------------------------- planning
def rand_band(rng, n, n_moments, exact=0.):
    """(fs, band) with at least 3 wavelet frequencies inside the band."""
    ml = gen.max_level(n, f'db{n_moments}')
    fs = rng.choice([1, 2., 100, 256.])
    lo = rng.randint(1, max(1, ml - 3))
    hi = min(ml, lo + rng.randint(2, 5))
    if rng.random() < exact:        # ends at frequencies of the spectrum
        return fs, [.75 * fs / 2 ** hi, .75 * fs / 2 ** lo]
    return fs, [round(.75 * fs / 2 ** (hi + .5), 9),
                round(.75 * fs / 2 ** (lo - .5), 9)]


def rand_moments(rng, n):
    return rng.choice([m for m in (1, 2, 3, 4)
                       if gen.max_level(n, f'db{m}') >= 3])


def rand_op(rng, sigs, kinds=ANALYSIS + SYNTH, p_exps=None):
    """Random operation; may append a companion recording to sigs."""
    k = rng.choice(kinds)
    i = rng.randrange(len(sigs))
    s = sigs[i]
    op = {'op': k}
    if k in SYNTH:
        op.update(n=rng.choice([8, 16, 33, 64, 101]),
                  r=rng.choice([0, 1, 2]),
                  H=rng.choice([.2, .3, .5, .7, .85]),
                  sigma=rng.choice([1, 1, .5, 2.]),
                  dt=rng.choice([None, None, .1, 1]),
                  method=rng.choice(['cme', 'cme', 'chol']),
                  seed=rng.randrange(10**6), lam=rng.choice([.1, .2, .3]))
        op['L'] = rng.choice([op['n'], max(2, op['n'] // 2)])
        return op
    if k in ('welch',):
        i = _one_dim(rng, sigs)
        op.update(s=i, fs=rng.choice([1, 100., 256]))
        n = sigs[i]['n']
        op['n_fft'] = rng.choice([64, 128, 101, 1 << int(np.log2(n))])
        op['seg'] = rng.choice([None, None, 32, 64])
        return op
    if k in ('bivariate', 'bivariate_full'):
        i = _one_dim(rng, sigs)
        if len(sigs) < 6:
            a = {**sigs[i], 'faults': [f for f in sigs[i]['faults']
                                       if f[0] != 'drop']}
            sigs.append(a)
            sigs.append({**a, 'seed': rng.randrange(10**6)})
            op.update(s=len(sigs) - 2, s2=len(sigs) - 1)
        else:
            op.update(s=i, s2=i)
        op['o'] = gen.rand_wt_opts(rng, sigs[i]['n'])
        op.update(q1=rng.choice(Q12), q2=rng.choice(Q12),
                  nc=rng.choice([2, 2, 3]))
        return op
    op['s'] = i
    if k in ('wavelet', 'mfa', 'minimal', 'mfa_full', 'hurst', 'hmin'):
        op['o'] = gen.rand_wt_opts(
            rng, s['n'], *([p_exps] if p_exps else []))
        if k in ('mfa', 'minimal', 'mfa_full'):
            op['q'] = gen.rand_q(rng)
            op['nc'] = rng.choice([1, 2, 3, 3, 4, 5])
            op['min'] = rng.random() < .2
        if k in ('hurst', 'hmin'):
            op['lead'] = rng.random() < .5
        return op
    m = rand_moments(rng, s['n'])
    fs, band = rand_band(rng, s['n'], m)
    op.update(fs=fs, m=m, band=band, log=rng.choice(['log2', 'log']),
              aslist=rng.random() < .4)
    if k == 'psd_w':
        op['j2'] = rng.choice([None, None, 3])
    if k == 'signal':
        op['o'] = gen.rand_wt_opts(rng, s['n'])
        op['q'] = gen.rand_q(rng)
        op['nc'] = rng.choice([1, 2, 3])
    return op


def _one_dim(rng, sigs):
    c = [i for i, s in enumerate(sigs) if s['rep'] == 0]
    if c:
        return rng.choice(c)
    sigs.append({**rng.choice(sigs), 'rep': 0})
    for f in sigs[-1]['faults']:
        f[3] = 0
    return len(sigs) - 1


# --------------------------------------------------------------- execution
def noise(shape, seed, cplx):
    g = np.random.Generator(np.random.PCG64(seed))
    z = g.standard_normal(shape)
    return z + 1j * g.standard_normal(shape) if cplx else z


def z_for(n, r, method, seed):
    r = max(r, 1)
    if method == 'cme':
        return noise((2 * n - 2, r), seed, True)
    return noise((n, r), seed, False)


def regression(op):
    """First scale and weighting; those of the transform by default."""
    return (op.get('j1', op['o']['j1']),
            op.get('weighted', op['o']['weighted']))


def mf_result(wt, op):
    j1, weighted = regression(op)
    f = api.minimal_mf_analysis if op['op'] == 'minimal' else api.mf_analysis
    return Call(op['op'], f, wt.wt_coefs, wt.wt_leaders, wt.j2_eff,
                j1=j1, weighted=weighted, n_cumul=op['nc'],
                q=gen.q_value(op['q']))


def signal_session(x, op):
    S = api.Signal(x, op['fs'], op['log'])
    out = [S.estimate_wavelet_psd(op['m']),
           S.fractal_analysis(op['m'], tuple(op['band']))]
    if len(np.shape(x)) == 1:
        out.append(S.estimate_welch_psd(64, 32))
    o = gen.wt_kw(op['o'])
    S.wavelet_analysis(**o)
    out += [S.mf_analysis(gen.q_value(op['q']), op['nc']), S.hurst(),
            S.hmin(), S.mf_analysis_full(n_cumul=2, q=[1, 2], **o)]
    return out


def prepare(op, sigs, shared=None):
    """Call for a plan item. Intermediate inputs are computed here; shared
    keeps the transforms for further calls on them."""
    def transform(i):
        if shared is None:
            return api.wavelet_analysis(sigs[i], **gen.wt_kw(op['o']))
        key = i, repr(sorted(op['o'].items()))
        if key not in shared:
            shared[key] = api.wavelet_analysis(sigs[i],
                                               **gen.wt_kw(op['o']))
        return shared[key]
    k = op['op']
    if k in SYNTH:
        shape = op['n'] if op['r'] == 0 else (op['n'], op['r'])
        z = z_for(op['n'], op['r'], op['method'], op['seed'])
        if k in ('fgn_z', 'fbm_z'):
            return Call(k, api.fgn if k == 'fgn_z' else api.fbm, shape,
                        op['H'], sigma=op['sigma'], dt=op['dt'],
                        method=op['method'], z0=z)
        z2 = z_for(op['n'], op['r'], op['method'], op['seed'] + 1)
        if k == 'mrw_z':
            return Call(k, api.mrw, shape, op['H'], op['lam'], op['L'],
                        sigma=op['sigma'], method=op['method'], z0=(z, z2))
        return Call(k, api.mrw_cumul, shape, op['H'] + op['lam'] ** 2,
                    -op['lam'] ** 2, op['L'], sigma=op['sigma'],
                    method=op['method'], z0=(z, z2))
    x = sigs[op['s']]
    if k in ('wavelet', 'mfa', 'minimal', 'mfa_full', 'hurst', 'hmin',
             'bivariate', 'bivariate_full'):
        o = gen.wt_kw(op['o'])
    if k == 'wavelet':
        return Call(k, api.wavelet_analysis, x, **o)
    if k == 'mfa_full':
        return Call(k, api.mf_analysis_full, x, **o, q=gen.q_value(op['q']),
                    n_cumul=op['nc'], minimal=op['min'])
    if k in ('mfa', 'minimal'):
        return mf_result(transform(op['s']), op)
    if k in ('hurst', 'hmin'):
        wt = transform(op['s'])
        j1, weighted = regression(op)
        mrq = wt.wt_leaders if op['lead'] and wt.wt_leaders is not None \
            else wt.wt_coefs
        if k == 'hurst':
            return Call(k, api.compute_hurst, mrq, j1, wt.j2_eff, weighted)
        return Call(k, api.estimate_hmin, mrq, j1, wt.j2_eff, weighted)
    if k == 'bivariate_full':
        return Call(k, api.bivariate_analysis_full, x, sigs[op['s2']], **o,
                    q1=np.array(op['q1']), q2=np.array(op['q2']),
                    n_cumul=op['nc'])
    if k == 'bivariate':
        w1 = transform(op['s'])
        w2 = transform(op['s2'])
        j1, weighted = regression(op)
        return Call(k, api.bivariate_analysis, w1, w2, j1, weighted, op['nc'], np.array(op['q1']),
                    np.array(op['q2']))
    if k == 'psd_w':
        return Call(k, api.wavelet_estimation, x, op['fs'], op['m'],
                    j2=op['j2'])
    if k == 'welch':
        return Call(k, api.welch_estimation, x, op['fs'], op['n_fft'],
                    op['seg'])
    if k == 'fractal':
        return Call(k, api.fractal_analysis, x, op['fs'], op['m'],
                    band(op), op['log'])
    if k == 'beta':
        p = api.wavelet_estimation(x, op['fs'], op['m'])
        return Call(k, api.estimate_beta, p.freq, p.psd, band(op),
                    op['log'])
    if k == 'signal':
        return Call(k, signal_session, x, op)
    raise ValueError(k)


def band(op):
    return (list if op.get('aslist') else tuple)(op['band'])


def run(op, sigs):
    return prepare(op, sigs)()


def shrink_ops(plan, key):
    for lst in gen.shrink_list(plan[key], 1):
        yield {**plan, key: lst}


def simpler_ops(op):
    """Simpler variants of an operation."""
    if 'o' in op:
        for k, v in (('wt_name', 'db2'), ('gamint', 0.0),
                     ('normalization', 1), ('weighted', False),
                     ('p_exp', None), ('j1', 1)):
            if op['o'][k] != v:
                yield {**op, 'o': {**op['o'], k: v}}
    if op.get('q') not in (None, ['arr', [2]]):
        yield {**op, 'q': ['arr', [2]]}
    for k in ('j1', 'weighted'):
        if k in op:
            yield {a: v for a, v in op.items() if a != k}
    if op.get('nc', 1) > 2:
        yield {**op, 'nc': 2}
