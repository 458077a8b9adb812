"""Comparisons shared by the checks of wavelet quantities."""
import math

import numpy as np

from . import refmodel as rm
from .kernel import Violation


def close(a, b, scale, rtol=1e-8, atol=1e-10):
    return np.abs(a - b) <= rtol * np.maximum(np.abs(a), np.abs(b)) \
        + atol * scale


def first_bad(bad):
    return tuple(int(v) for v in np.argwhere(bad)[0])


def same_mask(got, want, what):
    if got.shape != want.shape:
        raise Violation('shape', f'{what}: shape {got.shape} instead of '
                        f'{want.shape}')
    bad = got != want
    if bad.any():
        i = first_bad(bad)
        raise Violation(
            'missing-mask', f'{what}: position {i[0]} of realisation {i[1]} '
            + ('is reported missing although everything it covers is present'
               if got[i] else 'has a value although something it covers is '
               'missing') + f' ({int(bad.sum())} positions)')


def same_values(got, want, where, scale, what):
    """where: mask of positions to compare."""
    with np.errstate(invalid='ignore'):
        bad = where & ~close(got, want, scale)
    if bad.any():
        i = first_bad(bad)
        raise Violation('value-changed', f'{what}: position {i[0]} of '
                        f'realisation {i[1]} is {got[i]!r} instead of '
                        f'{want[i]!r} ({int(bad.sum())} positions)')


def proportional(got, want, where, what):
    """Per realisation, got/want is the same number at all positions in
    where. Returns that number (r,), NaN if nothing to compare."""
    out = np.full(got.shape[1], np.nan)
    for r in range(got.shape[1]):
        s = where[:, r]
        if not s.any():
            continue
        a, b = got[s, r], want[s, r]
        keep = b > 1e-9 * np.abs(b).max()
        if (a[~keep] > 1e-6 * np.abs(a).max()).any():
            raise Violation('leader-definition', f'{what}: a leader is '
                            'larger than its definition')
        a, b = a[keep], b[keep]
        if not len(a):
            continue
        f = a / b
        m = np.median(f)
        bad = np.abs(f - m) > 1e-6 * abs(m)
        if bad.any() or not np.isfinite(m):
            k = int(np.flatnonzero(s)[keep][np.argmax(np.abs(f - m))])
            raise Violation('leader-definition', f'{what}: position {k} of '
                            f'realisation {r} is {got[k, r]!r}, its '
                            f'definition gives {want[k, r]!r} (common factor '
                            f'of the scale: {m:.9g})')
        out[r] = m
    return out


def formalism(p):
    if p is None:
        return None
    return 'inf' if math.isinf(p) else 'p'


def expected_scales(coefs, p):
    """(stored coefficient scales, stored leader scales) given the stored
    coefficients of all scales up to the limit."""
    cs, ls = [], []
    for j in coefs:
        if rm.count(coefs[j]).min() < 3:
            break
        cs.append(j)
        if p is not None:
            le = rm.leaders(coefs, j, math.inf)
            if len(le) == 0 or rm.count(le).min() < 3:
                break
            ls.append(j)
    return cs, ls
