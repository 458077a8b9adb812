"""Extraction of the documented fields of results, and their comparison."""
import hashlib

import numpy as np

# Documented public fields by class. A class that is not listed is walked as a
# namedtuple / mapping / sequence / array.
FIELDS = {
    'MultiResolutionQuantity': ('formalism', 'gamint', 'nj', 'values', 'nrep'),
    'StructureFunction': ('formalism', 'gamint', 'nj', 'j', 'j1', 'j2',
                          'weighted', 'q', 'values', 'logvalues', 'zeta',
                          'intercept', 'H', 'nrep'),
    'Cumulants': ('formalism', 'nj', 'n_cumul', 'j', 'j1', 'j2', 'weighted',
                  'm', 'values', 'log_cumulants', 'var_log_cumulants',
                  'slope', 'intercept', 'nrep'),
    'MultifractalSpectrum': ('formalism', 'nj', 'j', 'j1', 'j2', 'weighted',
                             'q', 'Dq', 'hq', 'U', 'V', 'nrep'),
    'BiStructureFunction': ('formalism', 'gamint', 'nj', 'j', 'j1', 'j2',
                            'weighted', 'q1', 'q2', 'logvalues', 'zeta',
                            'intercept', 'coherence', 'nrep'),
    'BiCumulants': ('formalism', 'nj', 'n_cumul', 'j', 'j1', 'j2', 'weighted',
                    'm', 'values', 'log_cumulants', 'slope', 'intercept',
                    'RHO_MF', 'rho_mf', 'nrep'),
}


def derived(obj):
    """Attributes the classes derive from their values (c1, C2, M, c11...)."""
    name = type(obj).__name__
    if name == 'Cumulants':
        out = [f'c{m}' for m in range(1, min(int(obj.n_cumul), 9) + 1)]
        out += [f'C{m}' for m in range(1, min(int(obj.n_cumul), 9) + 1)]
        if obj.n_cumul >= 2:
            out.append('M')
        return out
    if name == 'BiCumulants':
        r = range(0, min(int(obj.n_cumul), 9) + 1)
        return [f'{c}{a}{b}' for c in 'cC' for a in r for b in r]
    return []


def flatten(x, path='', out=None, with_derived=False):
    if out is None:
        out = {}
    name = type(x).__name__
    if name in FIELDS:
        out[path + '#type'] = name
        for f in FIELDS[name]:
            try:
                v = getattr(x, f)
            except (AttributeError, TypeError) as e:
                out[f'{path}.{f}'] = f'<missing: {type(e).__name__}>'
                continue
            flatten(v, f'{path}.{f}', out, with_derived)
        if with_derived:
            for f in derived(x):
                flatten(getattr(x, f), f'{path}.{f}', out)
    elif x is None or isinstance(x, (bool, str)):
        out[path] = x
    elif isinstance(x, (int, float, complex, np.generic)):
        out[path] = x if isinstance(x, np.generic) else np.asarray(x)[()]
    elif isinstance(x, np.ndarray):
        out[path] = np.array(x, copy=True)
    elif isinstance(x, tuple) and hasattr(x, '_fields'):
        out[path + '#type'] = name
        for f in x._fields:
            flatten(getattr(x, f), f'{path}.{f}', out, with_derived)
    elif isinstance(x, dict):
        out[path + '#keys'] = repr([_key(k) for k in x])
        for k in x:
            flatten(x[k], f'{path}[{_key(k)}]', out, with_derived)
    elif isinstance(x, (list, tuple)):
        out[path + '#len'] = len(x)
        for i, v in enumerate(x):
            flatten(v, f'{path}[{i}]', out, with_derived)
    else:
        out[path] = f'<{name}>'
    return out


def _key(k):
    return int(k) if isinstance(k, (int, np.integer)) else k


def _num(v):
    return isinstance(v, (np.ndarray, np.generic, int, float)) \
        and not isinstance(v, (bool, np.bool_))


def same_value(a, b, rtol=1e-9, atol=1e-11, floor=0.):
    """None, or a description of the difference. atol is relative to the
    largest finite magnitude in the arrays, floor absolute."""
    if _num(a) and _num(b):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return f'shape {a.shape} instead of {b.shape}'
        if a.size == 0:
            return None
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            a, b = a.astype(float), b.astype(float)
        na, nb = np.isnan(a), np.isnan(b)
        if not np.array_equal(na, nb):
            i = tuple(int(k) for k in np.argwhere(na != nb)[0])
            return f'missing values differ, first at {i}: {a[i]!r} instead ' \
                   f'of {b[i]!r}'
        ia, ib = np.isinf(a), np.isinf(b)
        if not np.array_equal(np.where(ia, a, 0), np.where(ib, b, 0)):
            return 'infinite values differ'
        ok = ~(na | ia)
        if not ok.any():
            return None
        x, y = a[ok], b[ok]
        scale = max(np.abs(x).max(), np.abs(y).max())
        bad = np.abs(x - y) > rtol * np.maximum(np.abs(x), np.abs(y)) \
            + atol * scale + floor
        if bad.any():
            i = int(np.argmax(np.where(bad, np.abs(x - y), -1)))
            pos = tuple(int(k) for k in np.argwhere(ok)[i]) if a.ndim else ()
            return f'{x[i]!r} instead of {y[i]!r} at {pos} ' \
                   f'({int(bad.sum())} of {a.size} differ)'
        return None
    if type(a) is not type(b) and not (isinstance(a, (bool, np.bool_))
                                       and isinstance(b, (bool, np.bool_))):
        return f'{a!r} instead of {b!r}'
    if isinstance(a, np.ndarray):
        return None if np.array_equal(a, b) else 'differs'
    return None if a == b else f'{a!r} instead of {b!r}'


def diff(a, b, rtol=1e-9, atol=1e-11, skip=(), floor=0.):
    """First difference between two flattened results, or None."""
    ka = [k for k in a if not any(s in k for s in skip)]
    kb = [k for k in b if not any(s in k for s in skip)]
    if set(ka) != set(kb):
        d = sorted(set(ka) ^ set(kb), key=str)
        return f'fields differ: {d[:4]}'
    for k in kb:
        m = same_value(a[k], b[k], rtol, atol, floor)
        if m is not None:
            return f'{k}: {m}'
    return None


def digest(flat):
    h = hashlib.sha256()
    for k in flat:
        v = flat[k]
        h.update(k.encode())
        if isinstance(v, (np.ndarray, np.generic)):
            h.update(np.ascontiguousarray(v).tobytes())
        else:
            h.update(repr(v).encode())
    return h.hexdigest()


def coarse(flat):
    """Values up to what the memory alignment of vectorised numerical kernels
    can change (the last bits), for event logs."""
    def one(v):
        if not isinstance(v, (np.ndarray, np.generic)) or \
                np.asarray(v).dtype.kind not in 'fc':
            return v
        v = np.asarray(v)
        with np.errstate(all='ignore'):
            m = np.abs(v[np.isfinite(v)]).max(initial=0)
            e = 2. ** np.floor(np.log2(m)) if m > 0 else 1.
            return np.round(v / e, 8) + 0.
    return {k: one(v) for k, v in flat.items()}


def snapshot(x):
    """Bit-exact image of an argument, for 'was not modified' checks."""
    out = []

    def walk(v, path):
        n = type(v).__name__
        if isinstance(v, np.ndarray):
            out.append((path, v.dtype.str, v.shape, v.strides,
                        v.flags.writeable, v.tobytes()))
        elif isinstance(v, dict):
            out.append((path, 'dict', [repr(k) for k in v]))
            for k in v:
                walk(v[k], f'{path}[{k!r}]')
        elif isinstance(v, (list, tuple)):
            out.append((path, n, len(v)))
            for i, e in enumerate(v):
                walk(e, f'{path}[{i}]')
        elif n == 'DataFrame':
            out.append((path, n, repr(list(v.columns)), repr(list(v.index))))
            for c in v.columns:
                for i, e in enumerate(v[c].tolist()):
                    walk(e, f'{path}[{c}][{i}]')
        elif hasattr(v, '__dict__') and n in FIELDS:
            d = {k: w for k, w in vars(v).items() if k in FIELDS[n]}
            out.append((path, n, sorted(d)))
            for k in sorted(d):
                walk(d[k], f'{path}.{k}')
        else:
            out.append((path, n, repr(v)))

    walk(x, '')
    return out


def snapshot_diff(before, after):
    if before == after:
        return None
    for a, b in zip(before, after):
        if a != b:
            what = 'contents'
            if a[1:-1] != b[1:-1]:
                what = f'{a[1:-1]} -> {b[1:-1]}'
            elif not isinstance(a[-1], bytes):
                what = f'{a[-1]} -> {b[-1]}'
            return f'{a[0] or "argument"} changed ({what})'
    return 'structure changed'
