import math

import numpy as np

from .. import env, gen, kernel, faultgen, points, refmodel as rm
from .. import wavecheck as wc
from ..env import api
from ..kernel import Violation

points.install(env.PKGDIR)

ID = 'C09'
COUNT = {'quick': 3000, 'thorough': 40000}
RULE = ('one run = a simulated recorder with 1-4 channels delivers a '
        'recording through a seeded dropout process (single samples, bursts, '
        'periodic loss, flaky start or end, one or all channels), analysed '
        'by wavelet_analysis under one option choice, optionally after an '
        'earlier analysis that was cut short; compared with the same '
        'recording without dropouts, with the support geometry and with the '
        'definition of (p-)leaders; non-trivial: some but not all stored '
        'coefficients of a scale are missing because of a dropout')
STATE_MEASURE = 'distinct (wavelet, formalism, missing pattern of scale 1)'
REACH = ['fault.drop', 'leaders_checked', 'pleaders_checked',
         'other_channel_intact', 'earlier_cut_short']


def plan(rng, tier):
    u = rng.random()
    s = gen.rand_sig(rng, 120, 700 if u < .9 else 2500,
                     rep=rng.choice([0, 0, 1, 2, 3, 4]))
    if s['dtype'] == 'i4':
        s['dtype'] = 'f8'
    s['faults'] = faultgen.dropouts(rng, s['n'], max(s['rep'], 1))
    pre = [gen.rand_fault(rng, s['n'], max(s['rep'], 1),
                          ['spike', 'gain', 'offset'])
           for _ in range(rng.choice([0, 0, 1, 2]))]
    if rng.random() < .1:
        gen.units(rng, s)
        pre.append(s['faults'].pop())
    P = {'sig': s, 'pre': pre, 'o': gen.rand_wt_opts(rng, s['n'])}
    if rng.random() < .2:
        P['earlier'] = points.spec(rng)
    return P


def shrink(P, res=None):
    if 'earlier' in P:
        yield {k: v for k, v in P.items() if k != 'earlier'}
    if P['pre']:
        yield {**P, 'pre': []}
    for s in gen.shrink_sig(P['sig']):
        yield {**P, 'sig': s}
    from .. import ops
    for t in ops.simpler_ops({'o': P['o']}):
        yield {**P, 'o': t['o']}


def execute(P, ctx):
    s = P['sig']
    o = gen.wt_kw(P['o'])
    p = o['p_exp']
    clean_s = {**s, 'faults': P['pre']}
    clean = gen.recording(clean_s)
    x = gen.recording({**s, 'faults': P['pre'] + s['faults']})
    ctx.count('fault.drop', len(s['faults']))
    if 'earlier' in P:
        n = points.passes(api.wavelet_analysis, clean, **o)
        with points.fault(P['earlier'][0], n.at(*P['earlier'])) as f:
            kernel.outcome(api.wavelet_analysis, clean, **o)
        if f.fired:
            ctx.count('earlier_cut_short')
    two = clean[:, None] if clean.ndim == 1 else clean
    xx = np.asarray(x[:, None] if x.ndim == 1 else x, dtype=float)
    missing = np.isnan(xx)
    L = gen.WAVELETS[o['wt_name']]
    top = rm.level_limit(len(xx), L)
    geo = rm.Geometry(len(xx), L, top)
    full = kernel.solo(api.wavelet_analysis, clean, **{**o, 'p_exp': None})
    if full[0] != 'ok':
        raise Violation('analysis-fails', 'the complete recording: '
                        f'{full[1:]}')
    base = {j: full[1].get(f'.wt_coefs.values[{j}]')
            for j in range(1, top + 1)}
    # coefficients of the recording with dropouts, every scale
    want = {}
    for j in range(1, top + 1):
        want[j] = geo.present(j, missing)
    cs = []
    for j in want:
        if want[j].sum(axis=0).min() < 3:
            break
        cs.append(j)
    ls = []
    if p is not None:
        ones = {j: np.where(want[j], 1., np.nan) for j in want}
        cs, ls = wc.expected_scales(ones, p)
    j2 = int(min(ls[-1] if (p is not None and ls) else
                 (0 if p is not None else (cs[-1] if cs else 0)), o['j2']))
    out = kernel.outcome(api.wavelet_analysis, x, **o)
    if out[0] == 'exc':
        if wc.formalism(p) == 'p' and j2 <= o['j1']:
            ctx.count('correction_impossible')
            return
        raise Violation('analysis-fails', 'the recording with dropouts: '
                        f'{out[1:]}')
    W = out[1]
    co = W.wt_coefs.values
    what = f'{o["wt_name"]}'
    if list(co) != cs:
        raise Violation('scales', f'coefficients of scales {list(co)} '
                        f'instead of {cs}')
    for j in cs:
        got = np.asarray(co[j])
        same = wc.same_mask
        same(~np.isnan(got), want[j], f'coefficients of scale {j} ({what})')
        scale = np.nanmax(np.abs(base[j]))
        wc.same_values(got, base[j][:len(got)], want[j], scale,
                       f'coefficients of scale {j} ({what})')
        n = np.asarray(W.wt_coefs.nj[j])
        if not np.array_equal(n, want[j].sum(axis=0)):
            raise Violation('count', f'nj of scale {j} is {n.tolist()} '
                            f'instead of {want[j].sum(axis=0).tolist()}')
        lost = geo.inside[j][:, None] & ~want[j]
        if lost.any() and want[j].any():
            ctx.nontrivial = True
        if (lost.any(axis=0) ^ lost.any()).any():
            ctx.count('other_channel_intact')
        ctx.count('scales_checked')
    if cs:
        ctx.state((what, str(p), want[1].tobytes()))
    ctx.log(cs, ls, [int(want[j].sum()) for j in cs])
    if p is None:
        if W.wt_leaders is not None:
            raise Violation('leaders', 'leaders although p_exp is None')
        return
    le = W.wt_leaders.values
    if list(le) != ls:
        raise Violation('scales', f'leaders of scales {list(le)} instead '
                        f'of {ls}')
    coefs = {j: np.asarray(co[j]) for j in cs}
    for j in ls:
        got = np.asarray(le[j])
        ref = rm.leaders(coefs, j, p)
        w = f'{"leaders" if math.isinf(p) else f"p-leaders (p={p})"} of ' \
            f'scale {j} ({what})'
        if wc.formalism(p) == 'p' and j2 <= o['j1']:
            ctx.count('correction_impossible')
            break
        wc.same_mask(~np.isnan(got), ~np.isnan(ref), w)
        ok = ~np.isnan(ref)
        n = np.asarray(W.wt_leaders.nj[j])
        if not np.array_equal(n, ok.sum(axis=0)):
            raise Violation('count', f'nj of the {w} is {n.tolist()} instead '
                            f'of {ok.sum(axis=0).tolist()}')
        if math.isinf(p):
            wc.same_values(got, ref, ok, np.nanmax(np.abs(ref)), w)
            ctx.count('leaders_checked')
        else:
            f = wc.proportional(got, ref, ok, w)
            eta = np.asarray(W.eta_p)
            if j == 1 or (eta <= 0).any():
                bad = np.abs(f - 1) > 1e-6
                if bad.any():
                    raise Violation('leader-definition', f'{w} differ from '
                                    'their definition by a factor '
                                    f'{f.tolist()}')
            ctx.count('pleaders_checked')
        ctx.log(j, int(ok.sum()))
