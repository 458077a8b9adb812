import warnings

import numpy as np

from .. import env, gen, kernel, ops, points
from ..env import api
from ..kernel import Violation

points.install(env.PKGDIR)

ID = 'C08'
COUNT = {'quick': 400, 'thorough': 8000}
RULE = ('one run = one parameter choice (process, N, R, H, sigma, dt, lambda, '
        'L, method) after a short history of other or interrupted synthesis '
        'calls. The global generator is put in a few hundred known states '
        '(or the supplied noise is driven with unit impulses), the linear '
        'map from the normal draws to the output is solved for, its '
        'linearity is verified on held-out states, and A A^T is compared '
        'entry by entry with the specified covariance; non-trivial: every '
        'run with a solved map')
STATE_MEASURE = 'distinct (process, method, N, R, H) choices'
REACH = ['maps_solved', 'mrw_maps', 'impulse_maps', 'fault.interrupt']
ASSUMPTIONS = ['the global generator yields independent standard normal '
               'numbers; what is decided is the map the package applies to '
               'them']


def plan(rng, tier):
    k = rng.choice(['fgn', 'fgn', 'fbm', 'mrw', 'mrw', 'mrw_cumul',
                    'fgn_z', 'fbm_z', 'mrw_z', 'mrw_cumul_z'])
    big = k in ('fgn_z', 'fbm_z')
    N = rng.choice([3, 4, 5, 8, 11, 16, 20] +
                   ([33, 64, 200, 257] if big else []) +
                   ([511, 700] if big and tier == 'thorough' else []))
    c = {'k': k, 'N': N, 'R': rng.choice([0, 0, 1, 2, 2, 3]),
         'H': rng.choice([.05, .2, .5, .6, .8, .95,
                          round(rng.uniform(.02, .98), 3)]),
         'sigma': rng.choice([1, 1, .3, 2., 5]),
         'dt': rng.choice([None, None, 1, .1, 2.5]),
         'lam': rng.choice([.1, .2, .35]),
         'L': rng.choice([N, max(2, N // 2), max(2, N - 1),
                          max(2, N // 2) + .5]),
         'method': rng.choice(['cme', 'cme', 'cme', 'chol']),
         'seed': rng.randrange(10**6)}
    hist = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        h = {kk: rng.choice([c[kk], v]) for kk, v in
             (('N', rng.choice([4, 8, 16])), ('H', .35), ('sigma', 3),
              ('dt', .5), ('lam', .15), ('method', 'chol'))}
        h['k'] = rng.choice(['fgn', 'fbm', 'mrw'])
        h['R'] = rng.choice([0, 2])
        if rng.random() < .5:
            h['fault'] = points.spec(rng)
        hist.append(h)
    return {'c': c, 'hist': hist}


def shrink(P, res=None):
    for h in gen.shrink_list(P['hist']):
        yield {**P, 'hist': h}
    for k, v in (('N', 4), ('R', 0), ('sigma', 1), ('dt', 1), ('H', .5)):
        if P['c'][k] != v:
            c = {**P['c'], k: v}
            if k == 'N':
                c['L'] = min(c['L'], v)
            yield {**P, 'c': c}


def fgn_cov(c):
    N, H = c['N'], c['H']
    dt = c['dt'] if c['dt'] and not c['k'].startswith('mrw') else 1 / N
    n = np.arange(N, dtype=float)
    return (dt ** (2 * H) * c['sigma'] ** 2 / 2
            * ((n + 1) ** (2 * H) + np.abs(n - 1) ** (2 * H)
               - 2 * n ** (2 * H)))


def w_cov(c):
    """Unit-lambda covariance sequence."""
    k = np.arange(c['N'])
    return np.where(k < int(c['L']), np.log(c['L'] / (k + 1)), 0.)


def toeplitz(r):
    i = np.arange(len(r))
    return r[np.abs(i[:, None] - i[None, :])]


def definite(r, method):
    if method == 'cme':
        e = np.real(np.fft.fft(np.concatenate([r, r[1:-1][::-1]])))
    else:
        e = np.linalg.eigvalsh(toeplitz(r))
    return e.min() > -1e-12 * np.abs(e).max()


def call(c, k, lam=None, z=None):
    shape = c['N'] if c['R'] == 0 else (c['N'], c['R'])
    lam = c['lam'] if lam is None else lam
    if k in ('fgn', 'fbm'):
        f = api.fgn if k == 'fgn' else api.fbm
        return f(shape, c['H'], sigma=c['sigma'], dt=c.get('dt'),
                 method=c['method'], z0=z)
    kw = dict(sigma=c['sigma'], method=c['method'])
    if z is not None:
        kw['z0'] = z
    L = c.get('L', c['N'])
    if k == 'mrw':
        return api.mrw(shape, c['H'], lam, L, **kw)
    c2 = -lam ** 2
    return api.mrw_cumul(shape, c['H'] - c2, c2, L, **kw)


def check_shape(x, c, what):
    want = (c['N'],) if c['R'] == 0 else (c['N'], c['R'])
    if np.shape(x) != want:
        raise Violation('shape', f'{what} has shape {np.shape(x)} instead '
                        f'of {want}')
    if np.iscomplexobj(x):
        raise Violation('shape', f'{what} is complex')


def attempt(fn, what):
    o = kernel.outcome(fn)
    if o[0] == 'exc':
        raise Violation('synthesis-fails', f'{what}: {o[1]}: {o[2]}')
    return o[1]


def ndraws(fn, what):
    """Number of standard normal draws of a call."""
    np.random.seed(17)
    attempt(fn, what)
    end = np.random.get_state()

    def same(s):
        return (s[1] == end[1]).all() and s[2:4] == end[2:4] \
            and (s[3] == 0 or s[4] == end[4])
    g = np.random.RandomState(17)
    for m in range(1, 200000):
        g.standard_normal()
        if g.get_state()[2] == end[2] and same(g.get_state()):
            return m
    raise Violation('not-normal-draws', f'{what} does not draw independent '
                    'standard normal numbers from the global generator')


def solve(Z, X, what):
    """A, c with X = A Z + c from rows of samples; verified on the last 12."""
    K = len(Z) - 12
    D = np.concatenate([Z, np.ones((len(Z), 1))], axis=1)
    S, *_ = np.linalg.lstsq(D[:K], X[:K], rcond=None)
    res = np.abs(D[K:] @ S - X[K:]).max()
    scale = np.abs(X).max()
    if not res <= 1e-7 * scale:
        raise Violation('not-linear', f'{what} is not an affine function of '
                        f'the normal draws (relative error {res / scale:.3g})')
    return S[:-1].T, S[-1]


def check_cov(G, want, what, tol=2e-7):
    scale = np.abs(np.diag(want)).max()
    bad = np.abs(G - want) > tol * scale
    if bad.any():
        i, j = [int(v) for v in np.argwhere(bad)[0]]
        raise Violation('covariance', f'{what}: covariance of elements {i} '
                        f'and {j} is {G[i, j]:.10g}, specified is '
                        f'{want[i, j]:.10g}')


def flat(x, R):
    """(N*R,) realisation-major."""
    x = np.asarray(x, dtype=float)
    return (x[:, None] if x.ndim == 1 else x).T.ravel()


def states(seed, K, M):
    Z = np.empty((K, M))
    for i in range(K):
        Z[i] = np.random.RandomState(seed + i).standard_normal(M)
    return Z


def unroll(x, k):
    """Increments of the running sum."""
    x = np.asarray(x, dtype=float)
    if k == 'fgn':
        return x
    return np.diff(x, axis=0, prepend=np.zeros((1,) + x.shape[1:]))


def execute(P, ctx):
    c = P['c']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for h in P['hist']:
            n = kernel.fork_eval(lambda: points.survey(
                lambda: kernel.outcome(lambda: call(h, h['k'])))[0]) \
                if 'fault' in h else 0
            if n:
                with points.fault(h['fault'][0],
                              n.at(*h['fault'])) as f:
                    kernel.outcome(lambda: call(h, h['k']))
                if f.fired:
                    ctx.count('fault.' + h['fault'][0])
            else:
                kernel.outcome(lambda: call(h, h['k']))
    k = c['k']
    ctx.state((k, c['method'], c['N'], c['R'], c['H']))
    what = f'{k}(N={c["N"]}, R={c["R"]}, H={c["H"]}, sigma={c["sigma"]}, ' \
           f'method={c["method"]})'
    if k in ('fgn', 'fbm'):
        fgn_stream(c, k, what, ctx)
    elif k in ('fgn_z', 'fbm_z'):
        fgn_impulse(c, k[:3], what, ctx)
    else:
        mrw(c, k.replace('_z', ''), k.endswith('_z'), what, ctx)


def fgn_stream(c, k, what, ctx):
    R = max(c['R'], 1)
    M = ndraws(lambda: call(c, k), what)
    K = M + 40
    Z = states(c['seed'], K, M)
    X = []
    for i in range(K):
        np.random.seed(c['seed'] + i)
        x = attempt(lambda: call(c, k), what)
        check_shape(x, c, what)
        X.append(flat(unroll(x, k), R))
    X = np.array(X)
    A, b = solve(Z, X, what)
    if np.abs(b).max() > 1e-7 * np.abs(X).max():
        raise Violation('mean', f'{what} does not have mean zero')
    want = np.kron(np.eye(R), toeplitz(fgn_cov(c)))
    check_cov(A @ A.T, want, what)
    ctx.log(k, M, round(float(np.abs(A).sum()), 6))
    ctx.count('maps_solved')
    ctx.nontrivial = True
    # running sum / same stream
    np.random.seed(c['seed'])
    g = call(c, 'fgn')
    np.random.seed(c['seed'])
    f = call(c, 'fbm')
    if not np.allclose(np.cumsum(g, axis=0), f, rtol=1e-9,
                       atol=1e-12 * np.abs(f).max()):
        raise Violation('not-running-sum', f'fbm is not the running sum of '
                        f'fgn from the same stream: {what}')


def impulses(c):
    """Noise whose realisations are the unit impulses."""
    if c['method'] == 'cme':
        e = np.eye(2 * c['N'] - 2, dtype=complex)
        return [e, 1j * e]
    return [np.eye(c['N'])]


def fgn_impulse(c, k, what, ctx):
    cols = []
    for z in impulses(c):
        x = attempt(lambda: call({**c, 'R': z.shape[1]}, k, z=z), what)
        check_shape(x, {**c, 'R': z.shape[1]}, what)
        cols.append(unroll(x, k))
    A = np.concatenate(cols, axis=1)
    check_cov(A @ A.T, toeplitz(fgn_cov(c)), what + ' with supplied noise')
    # linearity and independence across realisations on random noise
    R = max(c['R'], 1)
    z = ops.z_for(c['N'], R, c['method'], c['seed'])
    x = attempt(lambda: call(c, k, z=z), what)
    check_shape(x, c, what)
    v = np.concatenate([z.real, z.imag]) if c['method'] == 'cme' else z
    y = unroll(x, k)
    y = y[:, None] if y.ndim == 1 else y
    if np.abs(A @ v - y).max() > 1e-8 * np.abs(y).max():
        raise Violation('not-linear', f'{what} is not linear in the supplied '
                        'noise, realisation by realisation')
    ctx.log(k, round(float(np.abs(A).sum()), 6))
    ctx.count('maps_solved')
    ctx.count('impulse_maps')
    ctx.nontrivial = True


def mrw(c, k, supplied, what, ctx):
    N, R = c['N'], max(c['R'], 1)
    what += f' lambda={c["lam"]} L={c["L"]}'
    ok = definite(w_cov(c), c['method'])
    lam2 = c['lam'] / 2
    if supplied:
        M = N * R if c['method'] == 'chol' else 2 * (2 * N - 2) * R
        M *= 2
    elif not ok and c['method'] == 'chol':
        ctx.count('embedding_not_definite')
        return
    else:
        M = ndraws(lambda: call(c, k), what)
    if not ok and c['method'] == 'chol':
        ctx.count('embedding_not_definite')
        return
    if not ok:
        ctx.count('embedding_not_definite')
    K = M + 40
    Z = states(c['seed'], K, M)
    X1, X2 = [], []
    for i in range(K):
        z = None
        if supplied:
            h = Z[i].reshape(2, -1, R)
            if c['method'] == 'cme':
                m = h.shape[1] // 2
                z = tuple(a[:m] + 1j * a[m:] for a in h)
            else:
                z = (h[0], h[1])
        for lam, X in ((c['lam'], X1), (lam2, X2)):
            np.random.seed(c['seed'] + i)
            x = attempt(lambda: call(c, k, lam, z), what)
            check_shape(x, c, what)
            X.append(flat(unroll(x, k), R))
    X1, X2 = np.array(X1), np.array(X2)
    s = np.abs(X1).max(axis=1, keepdims=True)
    # a running sum loses digits where an increment is small next to it
    if (np.sign(X1) != np.sign(X2))[np.abs(X1) > 1e-9 * s].any():
        raise Violation('not-multiplicative', f'{what}: changing lambda '
                        'changes the sign of increments')
    with np.errstate(all='ignore'):
        D = np.log(np.abs(X1)) - np.log(np.abs(X2))
    bad = ~np.isfinite(D) | (np.abs(X1) < 1e-7 * s) | (np.abs(X2) < 1e-7 * s)
    good = ~bad.any(axis=1)
    if good.sum() < M + 20:
        ctx.count('too_few_states')
        return
    B, b = solve(Z[good], D[good], what + ': logarithm of the modulation')
    B, lamd = B / (c['lam'] - lam2), c['lam'] ** 2 - lam2 ** 2
    if np.abs(b + lamd / 2 * np.log(c['L'])).max() > 1e-6:
        raise Violation('mean', f'{what}: mean of the log-modulation is '
                        f'{b[0] / lamd:.6g} lambda^2 instead of '
                        f'{-np.log(c["L"]) / 2:.6g} lambda^2')
    if ok:
        C = np.eye(N) - 1 / N
        want = np.kron(np.eye(R), C @ toeplitz(w_cov(c)) @ C)
        check_cov(B @ B.T, want, what + ': log-modulation (in units of '
                  'lambda^2)', 1e-6)
    W = Z @ (c['lam'] * B.T) - c['lam'] ** 2 / 2 * np.log(c['L'])
    E = X1 / np.exp(W)
    A, a = solve(Z, E, what + ': modulated noise')
    want = np.kron(np.eye(R), toeplitz(fgn_cov(c)))
    check_cov(A @ A.T, want, what + ': modulated noise')
    if np.abs(A @ B.T).max() > 1e-6 * np.sqrt(
            np.abs(A @ A.T).max() * max(np.abs(B @ B.T).max(), 1e-12)):
        raise Violation('not-independent', f'{what}: modulation and noise '
                        'are correlated')
    ctx.log(k, M, round(float(np.abs(A).sum()), 5))
    ctx.count('maps_solved')
    ctx.count('mrw_maps')
    ctx.nontrivial = True
    np.random.seed(c['seed'])
    x = call(c, 'mrw')
    np.random.seed(c['seed'])
    y = call(c, 'mrw_cumul')
    if not np.allclose(x, y, rtol=1e-9, atol=1e-11 * np.abs(x).max()):
        raise Violation('parametrisation', f'mrw_cumul differs from mrw with '
                        f'H=c1+c2, lambda^2=-c2 from the same stream: {what}')
