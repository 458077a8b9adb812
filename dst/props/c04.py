import os
import shutil
import sys
import tempfile

import numpy as np

from .. import env, gen, kernel, compare, ops, plots, points
from ..env import plt, api
from ..kernel import Violation

points.install(env.PKGDIR)

ID = 'C04'
COUNT = {'quick': 420, 'thorough': 9000}
RULE = ('one run = 1-3 seeded calls (analysis, estimation, synthesis from '
        'supplied noise, synthesis with list shapes, plots, signal sessions) '
        'on recordings in C, Fortran, strided, reversed, big-endian, '
        'float32, int32, memory-mapped and read-only arrays; each call is '
        'made once undisturbed, once with everything read-only, and several '
        'times cut short by a failure at seeded library calls; all inputs '
        'are compared bit by bit; non-trivial: at least one call was cut '
        'short after it had made a library call')
STATE_MEASURE = 'distinct (operation, fault site) pairs'
REACH = ['fault.memory', 'fault.interrupt', 'readonly_ok', 'memmap']

# the plots that take lists and dictionaries of styles, more often
KINDS = plots.KINDS + ['p_log', 'p_log', 'p_log', 'p_multiscale']


def plan(rng, tier):
    n = rng.randint(180, 500)
    sigs = [gen.rand_sig(rng, n, n, faults=rng.choice([0, 0, 1, 2]))
            for _ in range(2)]
    for s in sigs:
        if s['dtype'] != 'i4' and rng.random() < .3:
            s['faults'].append(gen.rand_fault(rng, n, max(s['rep'], 1),
                                              ['saturate', 'stuck']))
    calls = []
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < .3:
            one = [i for i, s in enumerate(sigs) if s['rep'] == 0]
            if not one:
                sigs.append(gen.rand_sig(rng, n, n, rep=0, faults=1))
                one = [len(sigs) - 1]
            sub = [sigs[rng.choice(one)]]
            c = plots.rand_plot(rng, sub, KINDS)
            off = len(sigs)
            sigs += sub
            c['s'] += off
            if 's2' in c:
                c['s2'] += off
        elif rng.random() < .12:
            c = {'op': rng.choice(['draw_fgn', 'draw_mrw', 'draw_skewed',
                                   'draw_mrw2D', 'qlog', 'conv', 'conv_dumb',
                                   'cme', 'chol', 'cme_z', 'chol_z']),
                 'n': 32, 'seed': rng.randrange(1000)}
        else:
            c = ops.rand_op(rng, sigs)
        c['cuts'] = [points.spec(rng)
                     for _ in range(rng.choice([1, 2, 4]))]
        c['ro'] = rng.choice(['none', 'flags', 'flags', 'memmap'])
        calls.append(c)
    return {'sigs': sigs, 'calls': calls}


def shrink(P, res=None):
    for c in gen.shrink_list(P['calls'], 1):
        yield {**P, 'calls': c}
    for i, c in enumerate(P['calls']):
        for f in gen.shrink_list(c['cuts'], 0):
            yield gen.subst(P, ['calls', i, 'cuts'], f)
        if c['ro'] != 'none':
            yield gen.subst(P, ['calls', i, 'ro'], 'none')
        for t in ops.simpler_ops(c):
            yield gen.subst(P, ['calls', i], t)
    for i, s in enumerate(P['sigs']):
        for k, v in (('layout', 'C'), ('dtype', 'f8'), ('faults', [])):
            if s[k] != v:
                yield gen.subst(P, ['sigs', i, k], v)


def prepare(op, sigs):
    k = op['op']
    if k.startswith('p_'):
        return plots.prepare(op, sigs)
    if k == 'draw_fgn':
        return ops.Call(k, api.fbm, [op['n'], 2], .4)
    if k == 'draw_mrw':
        return ops.Call(k, api.mrw, [op['n'], 2], .4, .2, op['n'])
    if k == 'draw_skewed':
        return ops.Call(k, api.skewed_mrw, [op['n'], 2], .4, .2, op['n'])
    if k == 'draw_mrw2D':
        return ops.Call(k, api.mrw2D, [op['n'], 2], .4, .2, op['n'])
    if k in ('conv', 'conv_dumb'):
        f = getattr(sys.modules['pymultifracs.simul.mrw'],
                    'skewness_convolution' + k[4:])
        e = np.random.RandomState(op['seed']).randn(op['n'], 2)
        return ops.Call(k, f, e, .3, .6)
    if k[:3] in ('cme', 'cho'):
        f = getattr(sys.modules['pymultifracs.simul.pzutils'],
                    'gaussian_' + k.split('_')[0])
        n, g = op['n'], np.random.RandomState(op['seed'])
        cov = .6 ** np.arange(n)
        if 'z' not in k:
            return ops.Call(k, f, cov, n, 2)
        if k[:3] == 'cme':
            z = g.randn(2 * n - 2, 2) + 1j * g.randn(2 * n - 2, 2)
        else:
            z = g.randn(n, 2)
        return ops.Call(k, f, cov, n, 2, z)
    if k == 'qlog':
        u = sys.modules['pymultifracs.utils']
        x = np.arange(5.)
        return ops.Call(k, u.linear_regression, x[:, None], x[:, None] ** 2,
                        np.ones((5, 1)))
    return ops.prepare(op, sigs)


def values(P, result):
    flat = compare.flatten(result)
    if not any(f[0] == 'saturate' for s in P['sigs'] for f in s['faults']):
        return flat
    # inf and nan are interchangeable in transforms of infinite samples
    return {k: np.where(np.isfinite(v), v, np.nan)
            if isinstance(v, np.ndarray) and v.dtype.kind == 'f' else v
            for k, v in flat.items()}


def arrays(x, seen=None):
    """Every array reachable from the inputs."""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from arrays(v, seen)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays(v, seen)
    elif type(x).__name__ == 'DataFrame':
        for c in x.columns:
            for v in x[c].tolist():
                yield from arrays(v, seen)
    elif hasattr(x, '__dict__') and type(x).__name__ in compare.FIELDS:
        yield from arrays(vars(x), seen)


def with_bases(inputs):
    """The inputs and the buffers they are views of."""
    b = [a.base for a in arrays(inputs) if isinstance(a.base, np.ndarray)]
    return [inputs, b]


def build(op, P, ro, scratch):
    sigs = [gen.recording(s) for s in P['sigs']]
    if ro == 'memmap':
        out = []
        for i, x in enumerate(sigs):
            f = os.path.join(scratch, f'{os.getpid()}-{i}.bin')
            x.tofile(f)
            out.append(np.memmap(f, dtype=x.dtype, mode='r', shape=x.shape))
        sigs = out
    call = prepare(op, sigs)
    call.inputs = [i for i in call.inputs
                   if not any(type(v).__name__ == 'Axes' for v in (
                       i.values() if isinstance(i, dict) else [i]))]
    if ro != 'none':
        for a in arrays(call.inputs):
            if a.flags.writeable:
                a.flags.writeable = False
    return call


def result(op, call):
    """Comparable result of a call."""
    np.random.seed(op.get('seed', 0))
    if op['op'].startswith('p_'):
        plt.close('all')
        return plots.observe(call)[0]
    return call()


def execute(P, ctx):
    scratch = tempfile.mkdtemp(prefix='dst-c04-')
    try:
        for i, op in enumerate(P['calls']):
            one(P, ctx, i, op, scratch)
    finally:
        plt.close('all')
        shutil.rmtree(scratch, ignore_errors=True)


def one(P, ctx, i, op, scratch):
    where = f'call {i} ({op["op"]})'
    call = build(op, P, 'none', scratch)
    watch = with_bases(call.inputs)
    before = compare.snapshot(watch)
    n, o = points.survey(lambda: kernel.outcome(result, op, call))
    d = compare.snapshot_diff(before, compare.snapshot(watch))
    if d:
        raise Violation('input-modified', f'{where} modified its input: {d}')
    ctx.count('calls')
    if o[0] == 'ok':
        flat = values(P, o[1])
        ctx.log_result(op['op'], flat)
    else:
        flat = None
        ctx.count('failing_calls')
        ctx.log(op['op'], o[1])
    # read-only inputs
    if op['ro'] != 'none':
        c2 = build(op, P, op['ro'], scratch)
        w2 = with_bases(c2.inputs)
        b2 = compare.snapshot(w2)
        o2 = kernel.outcome(result, op, c2)
        d = compare.snapshot_diff(b2, compare.snapshot(w2))
        if d:
            raise Violation('input-modified', f'{where} modified its '
                            f'read-only input: {d}')
        if o2[0] != o[0]:
            raise Violation('readonly-rejected',
                            f'{where} with read-only inputs ({op["ro"]}): '
                            f'{o2[1:] if o2[0] == "exc" else "succeeded"}, '
                            'unlike with writable ones')
        if flat is not None:
            d = compare.diff(values(P, o2[1]), flat)
            if d:
                raise Violation('readonly-differs', f'{where} with '
                                f'read-only inputs: {d}')
            ctx.count('readonly_ok')
        if op['ro'] == 'memmap':
            ctx.count('memmap')
    # cut short
    for kind, at in op['cuts']:
        if n == 0:
            break
        with points.fault(kind, n.at(kind, at)) as f:
            o3 = kernel.outcome(result, op, call)
        if f.fired is None:
            ctx.count('fault_not_reached')
            continue
        ctx.count('fault.' + kind)
        ctx.nontrivial = True
        ctx.state((op['op'], f.fired))
        ctx.log(op['op'], kind, f.fired, o3[0])
        d = compare.snapshot_diff(before, compare.snapshot(watch))
        if d:
            raise Violation('input-modified-when-cut-short',
                            f'{where} cut short by {kind} in {f.fired} left '
                            f'its input modified: {d}')
    # and once more, undisturbed: same inputs, same answer
    o4 = kernel.outcome(result, op, call)
    if o4[0] != o[0]:
        raise Violation('repeat-differs', f'{where} repeated on the same '
                        f'inputs: {o4[0]} instead of {o[0]}')
    if flat is not None:
        d = compare.diff(values(P, o4[1]), flat)
        if d:
            raise Violation('repeat-differs', f'{where} repeated on the same '
                            f'inputs differs: {d}')
