import math

import numpy as np

from .. import env, gen, kernel, compare, faultgen, points, ops
from .. import refmodel as rm
from .. import wavecheck as wc
from ..env import api
from ..kernel import Violation

points.install(env.PKGDIR)

ID = 'C11'
COUNT = {'quick': 3000, 'thorough': 40000}
RULE = ('one run = one recording with a seeded acquisition fault sequence '
        '(dropout processes, spikes, gain and offset jumps, early stop) '
        'analysed with one option choice by one family of analyses (wavelet '
        'transform, multifractal, minimal, Hurst, h_min, wavelet PSD, Welch, '
        'spectral slope, bivariate), optionally after a call that was cut '
        'short; every reported number is compared with an independent '
        'executable reference model evaluated on the surviving '
        'coefficients; non-trivial: at least one coefficient is missing '
        'because of a dropout, or another fault is present')
STATE_MEASURE = 'distinct (analysis, options) combinations'
REACH = ['fault.drop', 'fault.spike', 'fault.gain', 'fault.offset',
         'checked.mfa', 'checked.minimal', 'checked.hurst', 'checked.hmin',
         'checked.psd_w', 'checked.welch', 'checked.beta',
         'checked.fractal', 'checked.bivariate', 'corrected', 'no_q2']

KINDS = ['mfa', 'mfa', 'mfa', 'minimal', 'hurst', 'hmin', 'psd_w', 'welch',
         'beta', 'fractal', 'bivariate', 'bivariate']


def rand_sig(rng, rep=None, drop=True):
    s = gen.rand_sig(rng, 150, 700 if rng.random() < .9 else 3000, rep=rep)
    s['faults'] = []
    r = max(s['rep'], 1)
    if rng.random() < .5:
        s['faults'] += [gen.rand_fault(rng, s['n'], r,
                                       ['spike', 'gain', 'offset'])
                        for _ in range(rng.choice([1, 2]))]
    if drop and rng.random() < .75:
        s['faults'] += faultgen.dropouts(rng, s['n'], r)
    if s['dtype'] == 'i4':
        s['dtype'] = 'f8'
    if rng.random() < .1:
        gen.units(rng, s)
    return s


def plan(rng, tier):
    k = rng.choice(KINDS)
    P = {'k': k}
    rep = 0 if k in ('welch', 'bivariate') else None
    s = rand_sig(rng, rep, drop=k != 'welch')
    sigs = [s]
    if k == 'bivariate':
        t = {**rand_sig(rng, 0, False), 'n': s['n']}
        t['faults'] = [f for f in t['faults'] if f[1] < s['n']] + \
            [f for f in s['faults'] if f[0] == 'drop']
        sigs.append(t)
    P['sigs'] = sigs
    P['o'] = gen.rand_wt_opts(rng, s['n'])
    q = gen.rand_q(rng)
    if rng.random() < .4:
        v = [round(rng.uniform(-3, 4), 2) for _ in range(rng.randint(1, 4))]
        if rng.random() < .5:
            v.append(2.0)
        q = [rng.choice(['list', 'arr']), v]
    P['q'] = q
    P['nc'] = rng.choice([1, 2, 3, 3, 4, 5])
    if k == 'bivariate':
        P['nc'] = rng.choice([2, 3, 4])
        P['q1'] = rng.choice(ops.Q12)
        P['q2'] = rng.choice(ops.Q12)
    m = ops.rand_moments(rng, s['n'])
    P['m'] = m
    P['fs'], P['band'] = ops.rand_band(rng, s['n'], m, .3)
    P['log'] = rng.choice(['log2', 'log'])
    P['pj2'] = rng.choice([None, None, 3])
    P['n_fft'] = rng.choice([64, 128, 101, 1 << int(math.log2(s['n']))])
    P['seg'] = rng.choice([None, None, 32, 64, 100])
    P['lead'] = rng.random() < .5
    if rng.random() < .2:
        P['earlier'] = points.spec(rng)
    return P


def shrink(P, res=None):
    if 'earlier' in P:
        yield {k: v for k, v in P.items() if k != 'earlier'}
    if len(P['sigs']) == 1:
        for s in gen.shrink_sig(P['sigs'][0]):
            yield {**P, 'sigs': [s]}
    for t in ops.simpler_ops({'o': P['o']}):
        yield {**P, 'o': t['o']}
    for v in gen.shrink_list(P['q'][1] or [], 1):
        yield {**P, 'q': [P['q'][0], v]}
    if P['nc'] > 2:
        yield {**P, 'nc': 2}


def agree(got, want, what, rtol=1e-6, atol=1e-8, floor=1e-9):
    """Every number equal to the reference, missing exactly where it is.
    floor: absolute tolerance, for slopes and logarithms."""
    if got is None or want is None:
        if (got is None) != (want is None):
            raise Violation('estimate', f'{what} is {got!r} instead of '
                            f'{want!r}')
        return
    got, want = np.asarray(got, float), np.asarray(want, float)
    if floor and got.shape == want.shape and np.array_equal(
            np.isnan(got), np.isnan(want)) and not np.isinf(got).any():
        with np.errstate(invalid='ignore'):
            if not (np.abs(got - want) > floor).any():
                return
    m = compare.same_value(got, want, rtol, atol)
    if m:
        raise Violation('estimate', f'{what}: {m}')


def values(mrq):
    return {j: np.asarray(v) for j, v in mrq.values.items()}


def usable(*vs):
    """No coefficient is zero (a logarithm would not exist)."""
    for v in vs:
        for a in v.values():
            b = np.abs(a[~np.isnan(a)])
            if (b == 0).any():
                return False
    return True


def execute(P, ctx):
    o = gen.wt_kw(P['o'])
    xs = [gen.recording(s) for s in P['sigs']]
    for s in P['sigs']:
        for f in s['faults']:
            ctx.count('fault.' + f[0])
            ctx.nontrivial = True
    if 'earlier' in P:
        def before():
            KIND[P['k']](P, o, xs, kernel.Ctx())
        n = points.passes(before)
        with points.fault(P['earlier'][0], n.at(*P['earlier'])) as f:
            kernel.outcome(before)
        if f.fired:
            ctx.count('earlier_cut_short')
    ctx.state((P['k'], sorted(P['o'].items(), key=str), P['q'], P['nc']))
    KIND[P['k']](P, o, xs, ctx)


def attempt(fn, what, ctx, may_fail=False):
    r = kernel.outcome(fn)
    if r[0] == 'exc':
        if may_fail:
            ctx.count('refused')
            ctx.log('refused', r)
            return None
        raise Violation('analysis-fails', f'{what}: {r[1]}: {r[2]}')
    return r[1]


def transform(x, o, ctx, what=''):
    """Package transform, checked against the reference; (W, coefs, leaders)
    or None if the scale range does not support a regression."""
    T = rm.wavelet(x, **o)
    few = T.j2_eff <= o['j1']
    W = attempt(lambda: api.wavelet_analysis(x, **o), 'wavelet analysis',
                ctx, few)
    if W is None:
        return None
    if W.j2_eff != T.j2_eff:
        raise Violation('estimate', f'j2_eff is {W.j2_eff} instead of '
                        f'{T.j2_eff}')
    co = values(W.wt_coefs)
    if list(co) != list(T.coefs):
        raise Violation('estimate', f'scales {list(co)} instead of '
                        f'{list(T.coefs)}')
    for j in co:
        agree(co[j], T.coefs[j], f'{what}coefficients of scale {j}', 1e-7,
              1e-9, 0)
    le = None
    if o['p_exp'] is not None and not few:
        le = values(W.wt_leaders)
        if list(le) != list(T.leaders):
            raise Violation('estimate', f'scales of leaders {list(le)} '
                            f'instead of {list(T.leaders)}')
        if T.eta_p is not None:
            if np.abs(T.eta_p).min() < 1e-6:
                ctx.count('eta_borderline')
                return None
            agree(W.eta_p, T.eta_p, 'eta_p')
            ctx.count('corrected' if T.corrected else 'uncorrected')
        for j in le:
            agree(le[j], T.leaders[j], f'{what}leaders of scale {j}', floor=0)
    if W.wt_coefs.nrep != T.nrep or W.wt_coefs.gamint != o['gamint']:
        raise Violation('estimate', 'nrep or gamint of the transform')
    ctx.count('transforms')
    ctx.log('wt', W.j2_eff, list(co))
    if few:
        return None
    if not usable(*([co] if le is None else [co, le])):
        ctx.count('zero_coefficients')
        return None
    return W, co, le


def check_nj(obj, v, what):
    for j in v:
        n = rm.count(v[j])
        if not np.array_equal(np.asarray(obj.nj[j]), n):
            raise Violation('estimate', f'nj of {what} at scale {j} is '
                            f'{obj.nj[j]} instead of {n}')


def check_structure(S, v, q, j1, j2, weighted, gamint, what, ctx):
    q = np.asarray([2] if q is None else q, float)
    val, lg, z, c = rm.structure(v, q, j1, j2, weighted)
    agree(S.q, q, f'{what}.q')
    agree(S.j, list(v), f'{what}.j')
    agree(S.values, val, f'{what}.values', floor=0)
    agree(S.logvalues, lg, f'{what}.logvalues')
    agree(S.zeta, z, f'{what}.zeta')
    agree(S.intercept, c, f'{what}.intercept')
    check_nj(S, v, what)
    i = np.flatnonzero(q == 2)
    agree(S.H, z[i[0]] / 2 - gamint if len(i) else None, f'{what}.H')
    if not len(i):
        ctx.count('no_q2')
    if (S.j1, S.j2, bool(S.weighted)) != (j1, j2, bool(weighted)):
        raise Violation('estimate', f'parameters reported by {what}')


def check_cumulants(C, v, n, j1, j2, weighted, what):
    val, sl, ic, lc = rm.cumulants(v, n, j1, j2, weighted)
    agree(C.m, np.arange(1, n + 1), f'{what}.m')
    agree(C.j, list(v), f'{what}.j')
    for m in range(n):
        # conditioning: a cumulant is a difference of moments
        with np.errstate(all='ignore'):
            big = max(np.nanmax(np.abs(np.log(np.abs(a)))) ** (m + 1)
                      for a in v.values())
        s = np.abs(val[m]).max()
        at = 1e-8 + 1e-11 * big / max(s, 1e-300)
        agree(C.values[m], val[m], f'{what}.values, m={m + 1}', 1e-6, at)
        agree(C.log_cumulants[m], lc[m], f'{what}.log_cumulants, m={m + 1}',
              1e-6, 1e-8 + 1e-10 * big / max(np.abs(lc[m]).max(), 1e-300))
        agree(C.slope[m], sl[m], f'{what}.slope, m={m + 1}', 1e-6,
              1e-8 + 1e-10 * big / max(np.abs(sl[m]).max(), 1e-300))
        agree(C.intercept[m], ic[m], f'{what}.intercept, m={m + 1}', 1e-6,
              1e-8 + 1e-10 * big / max(np.abs(ic[m]).max(), 1e-300))
        if m < 9:
            agree(getattr(C, f'c{m + 1}'), C.log_cumulants[m:m + 1],
                  f'{what}.c{m + 1}')
    check_nj(C, v, what)


def check_spectrum(M, v, q, j1, j2, weighted, what):
    q = np.asarray([2] if q is None else q, float)
    U, V, D, h = rm.spectrum(v, q, j1, j2, weighted)
    agree(M.q, q, f'{what}.q')
    agree(M.j, list(v), f'{what}.j')
    agree(M.U, U, f'{what}.U', 1e-6, 1e-8)
    agree(M.V, V, f'{what}.V', 1e-6, 1e-8)
    big = max(np.abs(U).max(), np.abs(V).max(), 1)
    agree(M.Dq, D, f'{what}.Dq', 1e-6,
          1e-8 * big / max(np.abs(D).max(), 1e-9))
    agree(M.hq, h, f'{what}.hq', 1e-6,
          1e-8 * big / max(np.abs(h).max(), 1e-9))
    check_nj(M, v, what)


def mfa(P, o, xs, ctx):
    r = transform(xs[0], o, ctx)
    if r is None:
        return
    W, co, le = r
    q = gen.q_value(P['q'])
    minimal = P['k'] == 'minimal'
    f = api.minimal_mf_analysis if minimal else api.mf_analysis
    D = attempt(lambda: f(W.wt_coefs, W.wt_leaders, W.j2_eff, j1=o['j1'],
                          weighted=o['weighted'], n_cumul=P['nc'], q=q),
                P['k'], ctx)
    a = (o['j1'], W.j2_eff, o['weighted'])
    check_structure(D.dwt.structure, co, q, *a, o['gamint'],
                    'dwt.structure', ctx)
    if (D.lwt is None) != (le is None):
        raise Violation('estimate', f'lwt is {D.lwt!r}')
    if minimal:
        if le is not None:
            check_cumulants(D.lwt.cumulants, le, P['nc'], *a,
                            'lwt.cumulants')
        ctx.count('checked.minimal')
        return
    check_cumulants(D.dwt.cumulants, co, P['nc'], *a, 'dwt.cumulants')
    check_spectrum(D.dwt.spectrum, co, q, *a, 'dwt.spectrum')
    agree(D.dwt.hmin, rm.hmin(co, *a)[0], 'dwt.hmin')
    if le is not None:
        check_structure(D.lwt.structure, le, q, *a, o['gamint'],
                        'lwt.structure', ctx)
        check_cumulants(D.lwt.cumulants, le, P['nc'], *a, 'lwt.cumulants')
        check_spectrum(D.lwt.spectrum, le, q, *a, 'lwt.spectrum')
        agree(D.lwt.hmin, rm.hmin(le, *a)[0], 'lwt.hmin')
    ctx.log('mfa', compare.digest({'z': np.round(D.dwt.structure.zeta, 6)}))
    ctx.count('checked.mfa')


def single(P, o, xs, ctx):
    r = transform(xs[0], o, ctx)
    if r is None:
        return
    W, co, le = r
    mrq, v = (W.wt_leaders, le) if P['lead'] and le is not None \
        else (W.wt_coefs, co)
    a = (o['j1'], W.j2_eff, o['weighted'])
    if P['k'] == 'hurst':
        h, S, lg = attempt(lambda: api.compute_hurst(mrq, *a), 'hurst', ctx)
        _, rl, z, _ = rm.structure(v, [2.], *a)
        agree(h, z[0] / 2, 'Hurst exponent')
        agree(lg, rl[0], 'Hurst structure')
        check_structure(S, v, [2.], *a, o['gamint'], 'Hurst structure '
                        'function', ctx)
        ctx.count('checked.hurst')
    else:
        h, c = attempt(lambda: api.estimate_hmin(mrq, *a), 'hmin', ctx)
        rh, rc = rm.hmin(v, *a)
        agree(h, rh, 'hmin')
        agree(c, rc, 'intercept of hmin')
        ctx.count('checked.hmin')


def psd(P, o, xs, ctx):
    x, k = xs[0], P['k']
    if k == 'welch':
        seg = P['seg'] if P['seg'] is not None else P['n_fft']
        if seg > len(x):
            ctx.count('refused')
            return
        p = attempt(lambda: api.welch_estimation(x, P['fs'], P['n_fft'],
                                                 P['seg']), 'Welch', ctx)
        f, r = rm.welch_psd(x, P['fs'], P['n_fft'], P['seg'])
        if seg % 2:
            # half an odd segment is not a number of samples: either
            # neighbouring overlap is accepted
            ctx.count('odd_segment')
            agree(p.freq, f, 'Welch frequencies')
            return
        agree(p.freq, f, 'Welch frequencies')
        agree(p.psd, r, 'Welch PSD', 1e-6, 1e-9, 0)
        ctx.count('checked.welch')
        return
    f, r = rm.wavelet_psd(x, P['fs'], P['m'],
                          P['pj2'] if k == 'psd_w' else None)
    if k == 'psd_w':
        p = attempt(lambda: api.wavelet_estimation(x, P['fs'], P['m'],
                                                   j2=P['pj2']),
                    'wavelet PSD', ctx, len(f) == 0)
        if p is None:
            return
        agree(p.freq, f, 'wavelet PSD frequencies')
        agree(p.psd, r, 'wavelet PSD', 1e-6, 1e-9, 0)
        ctx.count('checked.psd_w')
        return
    band = tuple(P['band'])
    inside = (f >= band[0]) & (f <= band[1])
    if inside.sum() < 2:
        ctx.count('refused')
        return
    if k == 'beta':
        p = attempt(lambda: api.wavelet_estimation(x, P['fs'], P['m']),
                    'wavelet PSD', ctx)
        b = attempt(lambda: api.estimate_beta(p.freq, p.psd, band,
                                              P['log']), 'beta', ctx)
    else:
        b = attempt(lambda: api.fractal_analysis(x, P['fs'], P['m'], band,
                                                 P['log']), 'beta', ctx)
    s, c, lf = rm.beta(f, r, band, P['log'])
    agree(np.ravel(b.beta)[0], s[0], 'spectral slope')
    agree(np.ravel(b.log_C)[0], c[0], 'log of the spectral constant', 1e-6,
          1e-7)
    agree(np.ravel(b.freq), lf, 'log-frequencies of the slope')
    ctx.count(f'checked.{k}')


def bivariate(P, o, xs, ctx):
    a, b = (transform(x, o, ctx, f'signal {i + 1}: ')
            for i, x in enumerate(xs))
    if a is None or b is None:
        return
    W1, c1, l1 = a
    W2, c2, l2 = b
    q1, q2 = np.array(P['q1']), np.array(P['q2'])
    D = attempt(lambda: api.bivariate_analysis(
        W1, W2, o['j1'], o['weighted'], P['nc'], q1, q2), 'bivariate', ctx)
    j = (o['j1'], min(W1.j2_eff, W2.j2_eff), o['weighted'])
    if (D.lwt is None) != (l1 is None):
        raise Violation('estimate', f'bivariate lwt is {D.lwt!r}')
    for name, r, v1, v2 in [('dwt', D.dwt, c1, c2)] + (
            [('lwt', D.lwt, l1, l2)] if l1 is not None else []):
        S, C = r.structure, r.cumulants
        lg, z, c, coh = rm.bi_structure(v1, v2, q1, q2, *j)
        what = f'bivariate {name}'
        agree(S.logvalues, lg, f'{what} log structure functions')
        agree(S.zeta, z, f'{what} zeta')
        agree(S.intercept, c, f'{what} intercepts')
        agree(S.coherence, coh, f'{what} coherence')
        cv, sl = rm.bi_cumulants(v1, v2, P['nc'], *j)
        with np.errstate(all='ignore'):
            big = max(np.nanmax(np.abs(np.log(np.abs(v))))
                      for w in (v1, v2) for v in w.values())
        for k in cv:
            e = sum(k)
            at = 1e-8 + 1e-11 * big ** e / max(np.abs(cv[k]).max(), 1e-300)
            agree(C.values[k], cv[k], f'{what} C{k[0]}{k[1]}', 1e-6, at)
            s, t = sl[k]
            at = 1e-8 + 1e-10 * big ** e / max(abs(s), 1e-300)
            agree(C.slope[k], s, f'{what} slope {k}', 1e-6, at)
            agree(C.log_cumulants[k], s / math.log(2),
                  f'{what} c{k[0]}{k[1]}', 1e-6, at)
            agree(getattr(C, f'C{k[0]}{k[1]}')[0], C.values[k],
                  f'{what} attribute C{k[0]}{k[1]}')
            agree(getattr(C, f'c{k[0]}{k[1]}')[0], C.log_cumulants[k],
                  f'{what} attribute c{k[0]}{k[1]}')
        if name == 'dwt':
            agree(C.RHO_MF, None, 'RHO_MF of coefficients')
        else:
            with np.errstate(all='ignore'):
                R = cv[1, 1] / np.sqrt(np.abs(cv[2, 0] * cv[0, 2]))
            agree(C.RHO_MF, R, f'{what} RHO_MF', 1e-5, 1e-7)
            s = {k: v[0] for k, v in sl.items()}
            pr = s[2, 0] * s[0, 2]
            if pr > 1e-6 * max(s[2, 0] ** 2, s[0, 2] ** 2):
                agree(np.ravel(C.rho_mf)[0], -s[1, 1] / math.sqrt(pr),
                      f'{what} rho_mf', 1e-4, 1e-6)
        check_nj(C, v1, what)
    ctx.count('checked.bivariate')


KIND = {'mfa': mfa, 'minimal': mfa, 'hurst': single, 'hmin': single,
        'psd_w': psd, 'welch': psd, 'beta': psd, 'fractal': psd,
        'bivariate': bivariate}
