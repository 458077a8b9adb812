"""Executable reference model of the analyses, written from their definitions
(windows, sets and sums), independent of the package and of its algorithms.

Only the filters (from pywt) are shared with the package.
"""
import math

import numpy as np
import pywt


def filters(wt):
    w = pywt.Wavelet(wt)
    return -np.array(w.dec_hi), np.array(w.dec_lo)


def level_limit(n, L):
    return int(math.floor(math.log2(n / (L + 1))))


class Geometry:
    """Which samples each coefficient of each scale depends on."""

    def __init__(self, n, L, levels):
        self.n, self.L = n, L
        ahead = (L - 1) // 2            # samples read after the centre
        behind = L - 1 - ahead
        self.start, self.stop, self.inside = {}, {}, {}
        lo = np.arange(n)
        hi = np.arange(n)
        ok = np.ones(n, dtype=bool)
        for j in range(1, levels + 1):
            m = len(lo)
            k = np.arange(m // 2)
            i = 2 * k + 1
            good = (i >= L - 1) & (i <= m - L)
            a = np.clip(i - behind, 0, m - 1)
            b = np.clip(i + ahead, 0, m - 1)
            run = np.concatenate([[0], np.cumsum(ok)])
            good &= (run[b + 1] - run[a]) == L
            lo, hi, ok = lo[a], hi[b], good
            self.start[j], self.stop[j], self.inside[j] = lo, hi, ok

    def present(self, j, missing):
        """Mask (k, r): inside the recording and free of missing samples."""
        run = np.concatenate([np.zeros((1, missing.shape[1]), int),
                              np.cumsum(missing, axis=0)])
        c = run[self.stop[j] + 1] - run[self.start[j]]
        return self.inside[j][:, None] & (c == 0)


def coefficients(x, wt, norm, gamint, levels):
    """{j: (n_j, r)} with NaN where a coefficient is missing."""
    high, low = filters(wt)
    L = len(high)
    ahead = (L - 1) // 2
    a = np.asarray(x, dtype=float)
    if a.ndim == 1:
        a = a[:, None]
    out = {}
    for j in range(1, levels + 1):
        m = len(a)
        d = np.full((m // 2, a.shape[1]), np.nan)
        b = np.full((m // 2, a.shape[1]), np.nan)
        k = np.arange(m // 2)
        i = 2 * k + 1
        k = k[(i >= L - 1) & (i <= m - L)]
        if len(k):
            win = (2 * k + 1)[:, None] + ahead - np.arange(L)[None, :]
            w = a[win]                                  # (k, L, r)
            d[k] = np.einsum('l,klr->kr', high, w)
            b[k] = np.einsum('l,klr->kr', low, w)
        e = 0.5 if math.isinf(norm) else 0.5 - 1 / norm
        out[j] = d * 2. ** (j * (e + gamint))
        a = b
    return out


def neighbourhood(coefs, j):
    """For scale j: list over (position) of the children sets, as index
    arrays: element k of scale j covers {(j', k') : k' in [k 2^(j-j'),
    (k+1) 2^(j-j') )}. Returns the number of usable positions."""
    n = len(coefs[1])
    for s in range(2, j + 1):
        n = n // 2
        n = min(n, len(coefs[s]))
    return n


def leaders(coefs, j, p):
    """Uncorrected leaders (p=inf) or p-leaders of scale j; NaN where no
    coefficient of the 3-neighbourhood at any finer scale survives."""
    n = neighbourhood(coefs, j)
    r = coefs[1].shape[1]
    m = n - 2
    if m <= 0:
        return np.zeros((max(m, 0), r))
    best = np.zeros((m, r)) if not math.isinf(p) else np.full((m, r), -1.)
    alive = np.zeros((m, r), dtype=bool)
    for s in range(1, j + 1):
        f = 2 ** (j - s)
        a = np.abs(coefs[s])
        ok = ~np.isnan(a)
        idx = np.arange(m)[:, None] * f + np.arange(3 * f)[None, :]
        w, o = a[idx], ok[idx]                          # (m, 3f, r)
        alive |= o.any(axis=1)
        if math.isinf(p):
            best = np.maximum(best, np.where(o, w, -1.).max(axis=1))
        else:
            best += 2. ** s * np.where(o, np.where(o, w, 0.) ** p,
                                       0.).sum(axis=1)
    if not math.isinf(p):
        best = (2. ** -j * best) ** (1 / p)
    return np.where(alive, best, np.nan)


def complete_cone(present, j):
    """Positions of scale-j leaders all of whose coefficients are present."""
    n = neighbourhood(present, j)
    m = max(n - 2, 0)
    ok = np.ones((m, present[1].shape[1]), dtype=bool)
    for s in range(1, j + 1):
        f = 2 ** (j - s)
        idx = np.arange(m)[:, None] * f + np.arange(3 * f)[None, :]
        if m:
            ok &= present[s][idx].all(axis=1)
    return ok


def count(c):
    return (~np.isnan(c)).sum(axis=0)


def mean(x, axis=0):
    """Mean over surviving values."""
    ok = ~np.isnan(x)
    return np.where(ok, x, 0).sum(axis=axis) / ok.sum(axis=axis)


def power(x, q):
    """|x|^q over surviving values (NaN stays NaN, also for q=0)."""
    with np.errstate(all='ignore'):
        return np.where(np.isnan(x), np.nan,
                        np.power(np.where(np.isnan(x), 1., x), q))


def fit(j, y, w):
    """Weighted least squares line per column, by normal equations around
    the weighted means. y, w: (scales, r)."""
    j = np.asarray(j, float)[:, None]
    W = w.sum(axis=0)
    mj = (w * j).sum(axis=0) / W
    my = (w * y).sum(axis=0) / W
    slope = (w * (j - mj) * (y - my)).sum(axis=0) \
        / (w * (j - mj) ** 2).sum(axis=0)
    return slope, my - slope * mj


class Transform:
    pass


def wavelet(x, p_exp=None, wt_name='db3', j1=1, j2=10, gamint=0.,
            normalization=1, weighted=True):
    """Reference wavelet analysis."""
    x = np.asarray(x)
    if x.ndim == 1:
        x = x[:, None]
    L = len(filters(wt_name)[0])
    top = level_limit(len(x), L)
    c = coefficients(x, wt_name, normalization, gamint, top)
    T = Transform()
    T.coefs, T.leaders, T.eta_p = {}, None, None
    T.factor = {}
    lead = {}
    level = top
    for j in range(1, top + 1):
        if count(c[j]).min() < 3:
            level = j - 1
            break
        T.coefs[j] = c[j]
        if p_exp is not None:
            le = leaders(c, j, p_exp)
            if len(le) == 0 or count(le).min() < 3:
                level = j - 1
                break
            lead[j] = le
    T.j2_eff = int(min(level, j2)) if j2 is not None else level
    T.level = level
    T.nrep = x.shape[1]
    if p_exp is not None:
        T.leaders = lead
        T.raw_leaders = dict(lead)
        if not math.isinf(p_exp):
            if T.j2_eff > j1:
                _, y, z, _ = structure(T.coefs, [p_exp], j1, T.j2_eff,
                                       weighted)
                T.eta_p = z[0]
                ok = not (T.eta_p <= 0).any()
                T.corrected = ok
                if ok:
                    for j in lead:
                        T.factor[j] = ((1 - 2. ** (-j * T.eta_p))
                                       / (1 - 2. ** -T.eta_p)) \
                            ** (-1 / p_exp)
                        lead[j] = lead[j] * T.factor[j][None]
    return T


def weights(values, j1, j2, weighted):
    r = values[1].shape[1]
    if weighted:
        return np.array([count(values[j]) for j in range(j1, j2 + 1)],
                        dtype=float)
    return np.ones((j2 - j1 + 1, r))


def structure(values, q, j1, j2, weighted):
    """S(q, j), log2 S, zeta(q), intercepts."""
    js = list(values)
    S = np.array([[mean(power(np.abs(values[j]), qq)) for j in js]
                  for qq in q])
    with np.errstate(all='ignore'):
        lg = np.log2(S)
    w = weights(values, j1, j2, weighted)
    z = [fit(range(j1, j2 + 1), lg[i, j1 - 1:j2], w) for i in range(len(q))]
    return S, lg, np.array([a for a, _ in z]), np.array([b for _, b in z])


def cumulant_values(logs, n):
    """First n cumulants of the surviving values of each column, through the
    moment generating series: log(sum mu_k t^k / k!)."""
    r = logs.shape[1]
    mu = [np.ones(r)] + [mean(power(logs, k)) for k in range(1, n + 1)]
    a = [mu[k] / math.factorial(k) for k in range(n + 1)]
    # log of a power series with a0 = 1
    b = [np.zeros(r)]
    for k in range(1, n + 1):
        s = k * a[k]
        for i in range(1, k):
            s = s - i * b[i] * a[k - i]
        b.append(s / k)
    return [b[k] * math.factorial(k) for k in range(1, n + 1)]


def cumulants(values, n, j1, j2, weighted):
    js = list(values)
    C = np.empty((n, len(js), values[1].shape[1]))
    for i, j in enumerate(js):
        with np.errstate(all='ignore'):
            C[:, i] = cumulant_values(np.log(np.abs(values[j])), n)
    w = weights(values, j1, j2, weighted)
    f = [fit(range(j1, j2 + 1), C[m, j1 - 1:j2], w) for m in range(n)]
    slope = np.array([a for a, _ in f])
    icpt = np.array([b for _, b in f])
    return C, slope, icpt, slope / math.log(2)


def spectrum(values, q, j1, j2, weighted):
    js = list(values)
    r = values[1].shape[1]
    U = np.empty((len(js), len(q), r))
    V = np.empty((len(js), len(q), r))
    for i, j in enumerate(js):
        a = np.abs(values[j])
        for m, qq in enumerate(q):
            for c in range(r):
                v = a[~np.isnan(a[:, c]), c]
                R = v ** float(qq)
                R = R / R.sum()
                V[i, m, c] = (R * np.log2(v)).sum()
                U[i, m, c] = math.log2(len(v)) + (R * np.log2(R)).sum()
    w = weights(values, j1, j2, weighted)
    D = np.array([1 + fit(range(j1, j2 + 1), U[j1 - 1:j2, m], w)[0]
                  for m in range(len(q))])
    h = np.array([fit(range(j1, j2 + 1), V[j1 - 1:j2, m], w)[0]
                  for m in range(len(q))])
    return U, V, D, h


def hmin(values, j1, j2, weighted):
    y = []
    for j in range(j1, j2 + 1):
        a = np.abs(values[j])
        y.append(np.log2(np.where(np.isnan(a), -1, a).max(axis=0)))
    return fit(range(j1, j2 + 1), np.array(y),
               weights(values, j1, j2, weighted))


def wavelet_psd(x, fs, n_moments, j2=None):
    T = wavelet(x, None, f'db{n_moments}', 1, j2, 0.5, 1, False)
    psd = np.array([mean(T.coefs[j] ** 2) for j in T.coefs])
    freq = np.array([.75 * fs / 2. ** j for j in T.coefs])
    return freq, psd


def welch_psd(x, fs, n_fft, seg):
    """Averaged one-sided Hamming periodograms, 50 % overlap, times 4."""
    x = np.asarray(x, dtype=float)
    if seg is None:
        seg = n_fft
    n_fft = max(n_fft, seg)
    # periodic Hamming window
    win = .54 - .46 * np.cos(2 * np.pi * np.arange(seg) / seg)
    step = seg - seg // 2
    P = []
    for s in range(0, len(x) - seg + 1, step):
        f = np.fft.rfft(x[s:s + seg] * win, n_fft)
        P.append(np.abs(f) ** 2)
    P = np.mean(P, axis=0) / (2 * np.pi * (win ** 2).sum())
    if n_fft % 2:
        P[1:] *= 2
    else:
        P[1:-1] *= 2
    return fs * np.fft.rfftfreq(n_fft), 4 * P


def beta(freq, psd, band, log):
    """Slope, intercept per realisation and log-frequencies in the band."""
    freq, psd = np.asarray(freq), np.asarray(psd)
    if psd.ndim == 1:
        psd = psd[:, None]
    s = (freq >= band[0]) & (freq <= band[1]) & (freq != 0)
    lg = {'log2': np.log2, 'log': np.log}[log]
    f = lg(freq[s])
    a, b = fit(f, lg(psd[s]), np.ones((s.sum(), psd.shape[1])))
    return a, b, f


def bi_structure(v1, v2, q1, q2, j1, j2, weighted):
    js = list(v1)
    S = np.empty((len(q1), len(q2), len(js)))
    for i, a in enumerate(q1):
        for k, b in enumerate(q2):
            for m, j in enumerate(js):
                S[i, k, m] = mean(power(np.abs(v1[j][:, 0]), a)
                                  * power(np.abs(v2[j][:, 0]), b))
    lg = np.log2(S)
    w = weights(v1, j1, j2, weighted)
    z = np.empty(S.shape[:2])
    c = np.empty(S.shape[:2])
    for i in range(len(q1)):
        for k in range(len(q2)):
            s, t = fit(range(j1, j2 + 1), lg[i, k, j1 - 1:j2, None], w)
            z[i, k], c[i, k] = s[0], t[0]
    coh = np.array([mean(v1[j][:, 0] * v2[j][:, 0])
                    / math.sqrt(mean(v1[j][:, 0] ** 2)
                                * mean(v2[j][:, 0] ** 2)) for j in js])
    return lg, z, c, coh


def bi_cumulants(v1, v2, n, j1, j2, weighted):
    """Pure cumulants C_m0, C_0m and the covariance C_11 of the logs."""
    js = list(v1)
    C = {}
    for m, j in enumerate(js):
        a, b = np.log(np.abs(v1[j])), np.log(np.abs(v2[j]))
        both = ~(np.isnan(a) | np.isnan(b))
        a, b = np.where(both, a, np.nan), np.where(both, b, np.nan)
        ca, cb = cumulant_values(a, n), cumulant_values(b, n)
        for k in range(n):
            C.setdefault((k + 1, 0), []).append(ca[k][0])
            C.setdefault((0, k + 1), []).append(cb[k][0])
        C.setdefault((1, 1), []).append(
            (mean(a * b) - mean(a) * mean(b))[0])
    C = {k: np.array(v) for k, v in C.items()}
    w = weights(v1, j1, j2, weighted)
    sl = {}
    for k in C:
        s, t = fit(range(j1, j2 + 1), C[k][j1 - 1:j2, None], w)
        sl[k] = (s[0], t[0])
    return C, sl
