import math

import numpy as np

from .. import env, gen, kernel, faultgen, points, refmodel as rm
from .. import wavecheck as wc
from ..env import api
from ..kernel import Violation

points.install(env.PKGDIR)

ID = 'C10'
COUNT = {'quick': 4000, 'thorough': 40000}
RULE = ('one run = a simulated recorder that crashes and restarts: 1-3 '
        'captured parts of one ground-truth recording (seeded stop sample; '
        'seeded start delayed by a multiple of the coarsest scale step), '
        'with further acquisition faults common to all, in varying memory '
        'layouts; each part is analysed and compared with the analysis of '
        'the whole; non-trivial: a part with at least two scales and '
        'interior coefficients at the coarsest one')
STATE_MEASURE = 'distinct (wavelet, formalism, start, stop) parts'
REACH = ['fault.stop', 'fault.late_start', 'leaders_checked',
         'pleaders_checked', 'fault.drop']


def plan(rng, tier):
    s = gen.rand_sig(rng, 220, 900 if rng.random() < .9 else 3000,
                     rep=rng.choice([0, 0, 1, 2, 3]))
    s['faults'] = [gen.rand_fault(rng, s['n'], max(s['rep'], 1),
                                  ['spike', 'gain', 'offset'])
                   for _ in range(rng.choice([0, 0, 1, 2]))]
    if rng.random() < .4:
        s['faults'] += faultgen.dropouts(rng, s['n'], max(s['rep'], 1))
        if s['dtype'] == 'i4':
            s['dtype'] = 'f8'
    o = gen.rand_wt_opts(rng, s['n'])
    L = gen.WAVELETS[o['wt_name']]
    low = min(s['n'] - 1, 4 * (L + 1) + 8)
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        length = rng.randint(low, s['n'])
        if rng.random() < .3:
            length = s['n'] - rng.randint(0, 12)
        lev = rm.level_limit(length, L)
        step = 2 ** lev
        kmax = (s['n'] - length) // step
        k = rng.choice([0, 0, rng.randint(0, kmax), kmax])
        if rng.random() < .2:     # the whole tail from a late start
            k = rng.randint(0, kmax)
            parts.append({'start': k * step, 'len': length,
                          'view': rng.random() < .5})
            continue
        parts.append({'start': k * step, 'len': length,
                      'view': rng.random() < .5})
    return {'sig': s, 'o': o, 'parts': parts}


def shrink(P, res=None):
    for c in gen.shrink_list(P['parts'], 1):
        yield {**P, 'parts': c}
    for i, c in enumerate(P['parts']):
        if c['start']:
            yield gen.subst(P, ['parts', i, 'start'], 0)
    for f in gen.shrink_list(P['sig']['faults']):
        yield gen.subst(P, ['sig', 'faults'], f)
    for k, v in (('layout', 'C'), ('dtype', 'f8'), ('rep', 0)):
        if P['sig'][k] != v:
            yield gen.subst(P, ['sig', k], v)
    from .. import ops
    for t in ops.simpler_ops({'o': P['o']}):
        yield {**P, 'o': t['o']}


def execute(P, ctx):
    s, o = P['sig'], gen.wt_kw(P['o'])
    p = o['p_exp']
    x = gen.recording(s)
    ctx.count('fault.drop', sum(f[0] == 'drop' for f in s['faults']))
    out = kernel.outcome(api.wavelet_analysis, x, **o)
    L = gen.WAVELETS[o['wt_name']]
    if out[0] == 'exc':
        ctx.log('whole recording', out)
        if wc.formalism(p) == 'p':
            ctx.count('correction_impossible')
            return
        raise Violation('analysis-fails', f'whole recording: {out[1:]}')
    F = out[1]
    fco = {j: np.asarray(v) for j, v in F.wt_coefs.values.items()}
    for i, c in enumerate(P['parts']):
        a, b = c['start'], min(c['start'] + c['len'], s['n'])
        part = x[a:b] if c['view'] else gen.layout(x[a:b], s['layout'])
        n = b - a
        top = rm.level_limit(n, L)
        where = f'part {i} (samples {a} to {b} of {s["n"]})'
        if a:
            ctx.count('fault.late_start')
        if b < s['n']:
            ctx.count('fault.stop')
        xx = np.asarray(part[:, None] if part.ndim == 1 else part, float)
        geo = rm.Geometry(n, L, top)
        miss = np.isnan(xx)
        present = {j: geo.present(j, miss) for j in range(1, top + 1)}
        ones = {j: np.where(present[j], 1., np.nan) for j in present}
        cs, ls = wc.expected_scales(ones, p)
        j2 = int(min((ls if p is not None else cs or [0])[-1]
                     if (ls if p is not None else cs) else 0, o['j2']))
        r = kernel.outcome(api.wavelet_analysis, part, **o)
        if r[0] == 'exc':
            if wc.formalism(p) == 'p' and j2 <= o['j1']:
                ctx.count('correction_impossible')
                continue
            raise Violation('analysis-fails', f'{where}: {r[1:]}')
        W = r[1]
        co = {j: np.asarray(v) for j, v in W.wt_coefs.values.items()}
        ctx.state((o['wt_name'], str(p), a, b))
        if list(co) != cs:
            raise Violation('scales', f'{where}: coefficients of scales '
                            f'{list(co)} instead of {cs}')
        for j in cs:
            w = f'{where}, coefficients of scale {j}'
            got = co[j]
            wc.same_mask(~np.isnan(got), present[j], w)
            if j not in fco:
                # dropouts elsewhere ended the analysis of the whole earlier
                ctx.count('scale_only_in_part')
                continue
            sh = a >> j
            ref = fco[j][sh:sh + len(got)]
            wc.same_values(got[:len(ref)], ref, present[j][:len(ref)],
                           np.nanmax(np.abs(fco[j])), w)
            if present[j][len(ref):].any():
                raise Violation('value-changed', f'{w}: more interior '
                                'positions than in the whole recording')
            ctx.count('scales_checked')
        if len(cs) >= 2 and present[cs[-1]].any():
            ctx.nontrivial = True
        ctx.log(i, a, b, cs, ls)
        if p is None:
            continue
        le = {j: np.asarray(v) for j, v in W.wt_leaders.values.items()}
        if list(le) != ls:
            raise Violation('scales', f'{where}: leaders of scales '
                            f'{list(le)} instead of {ls}')
        if wc.formalism(p) == 'p' and (j2 <= o['j1']
                                       or F.j2_eff <= o['j1']):
            ctx.count('correction_impossible')
            continue
        for j in ls:
            if j not in F.wt_leaders.values:
                continue
            w = f'{where}, leaders of scale {j}'
            cone = rm.complete_cone(present, j)
            got = le[j]
            if len(got) != len(cone):
                raise Violation('shape', f'{w}: {len(got)} positions instead '
                                f'of {len(cone)}')
            sh = a >> j
            ref = np.asarray(F.wt_leaders.values[j])[sh:sh + len(got)]
            ok = cone[:len(ref)]
            if not ok.any():
                continue
            if math.isinf(p):
                wc.same_values(got[:len(ref)], ref, ok,
                               np.nanmax(np.abs(ref)), w)
                ctx.count('leaders_checked')
            else:
                f = wc.proportional(got[:len(ref)], ref, ok, w)
                if j == 1 and (np.abs(f[~np.isnan(f)] - 1) > 1e-6).any():
                    raise Violation('leader-definition', f'{w} differ from '
                                    f'the whole by factors {f.tolist()}')
                ctx.count('pleaders_checked')
