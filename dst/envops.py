"""Operations of the environment check, from plan items alone."""
import numpy as np

from . import gen, ops, plots
from .env import api, plt

STREAM = ['fgn', 'fbm', 'mrw', 'mrw_cumul', 'skewed', 'mrw2D']
PLOTS = ['p_multiscale', 'p_structure', 'p_cumulants', 'p_spectrum',
         'p_psd', 'p_fractal', 'p_log']


def rand_stream(rng, bad=None):
    return {'op': 'stream', 'f': rng.choice(STREAM), 'bad': bad,
            'n': rng.choice([8, 16, 33, 64]), 'r': rng.choice([0, 1, 3]),
            'H': rng.choice([.3, .5, .8]),
            'dt': rng.choice([None, None, 1, .25]),
            'seed': rng.randrange(10**6),
            'method': rng.choice(['cme', 'chol'])}


def rand(rng, sigs):
    u = rng.random()
    if u < .2:
        return rand_stream(rng, rng.choice(['H', 'L', 'method'])
                           if rng.random() < .3 else None)
    if u < .32:
        one = [s for s in sigs if s['rep'] == 0 and
               all(f[0] != 'drop' for f in s['faults'])]
        if one:
            op = plots.rand_plot(rng, [one[0]], PLOTS)
            op['s'] = sigs.index(one[0])
            return op
    return ops.rand_op(rng, sigs)


def stream(op):
    np.random.seed(op['seed'])
    n, r = op['n'], op['r']
    shape = n if r == 0 else (n, r)
    f, bad = op['f'], op.get('bad')
    if bad:
        # refused, whatever the interpreter was told
        H = rng_bad(op['H']) if bad == 'H' else op['H']
        L = 3 * n if bad == 'L' else n
        m = 'none' if bad == 'method' else op['method']
        if f in ('fgn', 'fbm'):
            return getattr(api, f)(shape, H, method=m)
        if f == 'skewed':
            return api.skewed_mrw(shape, H, .1, L)
        if f == 'mrw_cumul':
            return api.mrw_cumul(shape, H + .04, -.04, L, method=m)
        return api.mrw(shape, H, .2, L, method=m)
    if f in ('fgn', 'fbm'):
        return getattr(api, f)(shape, op['H'], dt=op['dt'],
                               method=op['method'])
    if f == 'mrw':
        return api.mrw(shape, op['H'], .2, n, method=op['method'])
    if f == 'mrw_cumul':
        return api.mrw_cumul(shape, op['H'] + .04, -.04, n,
                             method=op['method'])
    if f == 'skewed':
        return api.skewed_mrw(shape, op['H'], .1, n, do_mirror=r == 1)
    return api.mrw2D(max(16, n // 2 * 2), op['H'], .1, 16)


def rng_bad(H):
    return 1 + H if H > .4 else -H


def run(op, sigs):
    if op['op'] == 'stream':
        return stream(op)
    xs = Lazy(sigs)
    if op['op'].startswith('p_'):
        plt.close('all')
        d, _ = plots.observe(plots.prepare(op, xs))
        d.pop('own', None)
        for ln in d['lines']:
            ln.pop('width')     # matplotlibrc of the working directory
        plt.close('all')
        return d
    return ops.run(op, xs)


class Lazy:
    """Recordings built anew for every call and dropped after it."""

    def __init__(self, sigs):
        self.sigs = sigs

    def __getitem__(self, i):
        return gen.recording(self.sigs[i])
