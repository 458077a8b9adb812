"""Recordings with acquisition faults, option swarms, and plan helpers."""
import math

import numpy as np

WAVELETS = {'db1': 2, 'db2': 4, 'db3': 6, 'db4': 8, 'db5': 10, 'sym4': 8,
            'coif1': 6}


def dec(x):
    """JSON-safe plan value -> python value."""
    if isinstance(x, str) and x in ('inf', '-inf', 'nan'):
        return float(x)
    return x


def max_level(n, wt):
    return int(math.floor(math.log2(n / (WAVELETS[wt] + 1))))


# ------------------------------------------------------------- recordings
def rand_sig(rng, nmin=180, nmax=900, rep=None, faults=0, kinds=None,
             layouts=True):
    n = rng.randint(nmin, nmax)
    if rep is None:
        rep = rng.choice([0, 0, 0, 1, 2, 3])    # 0: one-dimensional
    s = {'n': n, 'rep': rep, 'proc': rng.choice(['bm', 'white', 'ar', 'cascade']),
         'seed': rng.randrange(10**6), 'faults': [],
         'layout': rng.choice(['C', 'C', 'F', 'strided', 'ro', 'neg'])
         if layouts else 'C',
         'dtype': rng.choice(['f8', 'f8', 'f8', 'f8', 'f4', 'i4', '>f8'])
         if layouts else 'f8'}
    for _ in range(faults):
        s['faults'].append(rand_fault(rng, n, max(rep, 1), kinds))
    if any(f[0] == 'drop' for f in s['faults']) and s['dtype'] == 'i4':
        s['dtype'] = 'f8'
    return s


def rand_fault(rng, n, rep, kinds=None):
    k = rng.choice(kinds or ['drop', 'drop', 'drop', 'spike', 'gain',
                             'offset'])
    r = rng.randrange(rep) if rng.random() < .75 else -1    # -1: all
    at = rng.randrange(n)
    if k == 'drop':
        ln = rng.choice([1, 1, 2, 5, 17, rng.randint(1, max(2, n // 10))])
        if rng.random() < .15:
            at = rng.choice([0, n - ln])
        return ['drop', max(at, 0), ln, r]
    if k == 'spike':
        return ['spike', at, round(rng.uniform(5, 80), 2), r]
    if k in ('saturate', 'stuck'):
        return [k, at, rng.choice([1, 3, 17]), r]
    if k == 'gain':
        return ['gain', at, round(rng.uniform(.3, 4), 2), r]
    return ['offset', at, round(rng.uniform(-30, 30), 2), r]


def units(rng, s, every=.5):
    """Recordings in other units (MEG in tesla, counts of a converter): all
    channels, or one channel next to others."""
    if s['dtype'] in ('i4', 'f4'):
        s['dtype'] = 'f8'
    rep = max(s['rep'], 1)
    f = ['gain', 0, float(f'1e{rng.choice([-13, -13, -9, -6, 4, 6])}'),
         -1 if rng.random() < every else rng.randrange(rep)]
    s['faults'].append(f)       # after everything else


def base(s):
    """The signal a recorder would deliver without faults, (n, max(rep,1))
    float64. Column r depends only on (seed, r)."""
    n, rep = s['n'], max(s['rep'], 1)
    cols = []
    for r in range(rep):
        g = np.random.Generator(np.random.PCG64([s['seed'], r]))
        w = g.standard_normal(n)
        p = s['proc']
        if p == 'bm':
            x = np.cumsum(w)
        elif p == 'white':
            x = w * 3
        elif p == 'ar':
            x = np.empty(n)
            acc = 0.
            for i in range(n):
                acc = .8 * acc + w[i]
                x[i] = acc
        else:
            v = np.repeat(g.standard_normal(n // 16 + 1), 16)[:n]
            x = np.cumsum(w * np.exp(.4 * v))
        cols.append(x)
    return np.stack(cols, axis=1)


def apply_faults(x, faults):
    x = x.copy()
    for f in faults:
        k, at, a, r = f
        c = slice(None) if r == -1 else slice(r % x.shape[1],
                                              r % x.shape[1] + 1)
        if k == 'drop':
            x[at:at + a, c] = np.nan
        elif k == 'saturate':
            x[at:at + a, c] = np.inf * np.sign(x[at:at + 1, c] + 1e-300)
        elif k == 'stuck':
            x[at:at + a, c] = x[at:at + 1, c]
        elif k == 'off':        # silent after (or, a < 0, until) a sample
            x[at:at + a if a > 0 else None, c] = 0
        elif k == 'late':
            x[:at, c] = 0
        elif k == 'spike':
            x[min(at, len(x) - 1), c] += a
        elif k == 'gain':
            x[at:, c] *= a
        elif k == 'offset':
            x[at:, c] += a
        else:
            raise ValueError(k)
    return x


def layout(x, kind):
    """Same values, different memory layout."""
    if kind == 'C':
        return np.ascontiguousarray(x)
    if kind == 'F':
        return np.asfortranarray(x)
    if kind == 'strided':
        buf = np.full((2 * x.shape[0],) + x.shape[1:], 7, dtype=x.dtype)
        buf[::2] = x
        return buf[::2]
    if kind == 'neg':
        return np.ascontiguousarray(x[::-1])[::-1]
    if kind == 'ro':
        y = np.array(x)
        y.flags.writeable = False
        return y
    raise ValueError(kind)


def recording(s, columns=None):
    """The array handed to the package: 1-D if rep == 0."""
    x = apply_faults(base(s), s['faults'])
    if columns is not None:
        x = x[:, columns]
    dt = s.get('dtype', 'f8')
    if dt == 'i4':
        x = np.round(x * 1000).astype('i4')
    else:
        x = x.astype(dt)
    if s['rep'] == 0:
        x = x[:, 0]
    return layout(x, s.get('layout', 'C'))


# ------------------------------------------------------------- options
QSETS = [None, [2], [2.0], [1, 2], [-2, -1, 0, 1, 2],
         [-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0], [1], [3], [-1.5, 0.5],
         [0, 2], [2, 1], [0.25, 2.0, 3.0, 4.0]]


def rand_wt_opts(rng, n, p_exps=(None, None, 'inf', 'inf', 2, 1, 0.5, 1.5, 3,
                                 4), simple=False):
    wts = [w for w in WAVELETS if max_level(n, w) >= 3] or ['db1']
    wt = rng.choice(wts)
    ml = max_level(n, wt)
    j1 = rng.choice([1, 1, 1, 2])
    if j1 + 2 > ml:
        j1 = 1
    return {'wt_name': wt, 'j1': j1,
            'j2': rng.randint(j1 + 1, ml),
            'gamint': rng.choice([0.0, 0.0, 0.5, 1.0, 0.3]),
            'normalization': rng.choice([1, 1, 1, 2, 'inf']),
            'weighted': rng.choice([True, True, False]),
            'p_exp': rng.choice(list(p_exps))}


def wt_kw(o):
    return {k: dec(v) for k, v in o.items()}


def q_value(spec):
    """[form, values]: form is 'none', 'list', 'arr'."""
    form, v = spec
    if form == 'none' or v is None:
        return None
    return list(v) if form == 'list' else np.array(v, dtype=float) \
        if any(isinstance(e, float) for e in v) else np.array(v)


def rand_q(rng, forms=('none', 'list', 'arr')):
    v = rng.choice(QSETS)
    if v is None and 'none' in forms:
        return ['none', None]
    if v is None:
        v = [2]
    return [rng.choice([f for f in forms if f != 'none']), v]


# ------------------------------------------------------------- minimising
def shrink_list(lst, minlen=0):
    """Shorter versions of a list: halves first, then single removals."""
    n = len(lst)
    if n > minlen:
        if n >= 4:
            h = n // 2
            for part in (lst[:h], lst[h:]):
                if len(part) >= minlen:
                    yield part
        for i in range(n - 1, -1, -1):
            yield lst[:i] + lst[i + 1:]


def shrink_sig(s):
    for f in shrink_list(s['faults']):
        yield {**s, 'faults': f}
    if s['rep'] > 1:
        yield {**s, 'rep': 1}
    if s['rep'] == 1:
        yield {**s, 'rep': 0}
    for k, v in (('layout', 'C'), ('dtype', 'f8')):
        if s.get(k, v) != v:
            yield {**s, k: v}
    if s['n'] > 200:
        yield {**s, 'n': max(200, s['n'] // 2)}


def subst(plan, path, value):
    """Copy of plan with plan[path...] = value."""
    import copy
    p = copy.deepcopy(plan)
    d = p
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = value
    return p
