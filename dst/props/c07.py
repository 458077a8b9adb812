import random

import numpy as np

from .. import env, gen, kernel, compare, ops, points
from ..env import api
from ..kernel import Violation

points.install(env.PKGDIR)

ID = 'C07'
HISTORY = True
COUNT = {'quick': 420, 'thorough': 20000}
RULE = ('one run = a history of 3-9 steps: synthesis calls (drawing, with '
        'supplied noise, partly supplied noise), requests that have to be '
        'rejected, calls cut short at seeded points, and changes of the '
        'global generator (reseeding, foreign draws that leave a cached '
        'half-pair, restored states); every call is repeated in a pristine '
        'process started from the same generator state and output and final '
        'generator state are compared; non-trivial: a call follows another '
        'synthesis call, a rejection or a fault')
STATE_MEASURE = 'distinct (previous step, step) pairs'
REACH = ['fault.interrupt', 'fault.memory', 'rejected', 'supplied',
         'partly_supplied', 'fresh_noise']

SIMUL = ['fgn', 'fbm', 'mrw', 'mrw_cumul', 'skewed_mrw', 'mrw2D']


def rand_call(rng):
    k = rng.choice(SIMUL)
    c = {'k': k, 'N': rng.choice([4, 8, 9, 16, 31, 64, 150]),
         'R': rng.choice([0, 0, 1, 2, 3, 5]),
         'H': rng.choice([.1, .3, .5, .7, .9]), 'sigma': rng.choice([1, 2.]),
         'lam': rng.choice([.1, .25]), 'dt': rng.choice([None, 1, .25]),
         'method': rng.choice(['cme', 'cme', 'chol']),
         'lfrac': rng.choice([.25, .5, 1]), 'noise': 'draw'}
    if k == 'mrw2D':
        c['N'] = min(c['N'], 16)
    if k in ('fgn', 'fbm', 'mrw', 'mrw_cumul'):
        c['noise'] = rng.choice(['draw', 'draw', 'full', 'full', 'e', 'w'])
        c['zseed'] = rng.randrange(10**6)
    if k == 'skewed_mrw':
        c['K0'] = rng.choice([0, .1, 1])
        c['mirror'] = rng.random() < .3
    return c


def mutate(rng, c):
    d = rand_call(rng)
    c = dict(c)
    for _ in range(rng.choice([0, 1, 1, 2])):
        k = rng.choice(['N', 'R', 'H', 'sigma', 'lam', 'dt', 'method',
                        'lfrac', 'noise', 'zseed', 'k', 'width'])
        if k == 'width':        # the same request, wider or narrower
            c['R'] = rng.choice([1, 2, 3, 5])
        elif k == 'k':
            if c['k'] in ('fgn', 'fbm'):
                c['k'] = rng.choice(['fgn', 'fbm'])
            if c['k'] in ('mrw', 'mrw_cumul'):
                c['k'] = rng.choice(['mrw', 'mrw_cumul'])
        elif k == 'noise' and 'zseed' in c:
            c[k] = rng.choice(['draw', 'full', 'e', 'w'])
        elif k in c and k in d:
            c[k] = d[k]
    if c['k'] == 'mrw2D':
        c['N'] = min(c['N'], 16)
    return c


def plan(rng, tier):
    steps = [{'s': 'seed', 'v': rng.randrange(10**6)}]
    last = None
    for _ in range(rng.randint(3, 9)):
        u = rng.random()
        if u < .15:
            steps.append({'s': 'seed', 'v': rng.choice(
                [steps[0]['v'], rng.randrange(10**6)])})
        elif u < .25:
            steps.append({'s': 'draw', 'n': rng.choice([1, 2, 7])})
        elif u < .32:
            steps.append({'s': 'restore', 'back': rng.randint(0, 3)})
        else:
            c = rand_call(rng) if last is None or rng.random() < .3 \
                else mutate(rng, last)
            last = c
            st = {'s': 'call', 'c': c}
            v = rng.random()
            if v < .2:
                st['bad'] = rng.choice(['H-', 'H+', 'L', 'method'])
            elif v < .45:
                st['fault'] = points.spec(rng)
            steps.append(st)
    return {'steps': steps}


def shrink(P, res=None):
    for s in gen.shrink_list(P['steps'][1:], 1):
        yield {**P, 'steps': P['steps'][:1] + s}
    for i, s in enumerate(P['steps']):
        if s['s'] == 'call':
            for k, v in (('R', 0), ('N', 8), ('sigma', 1), ('dt', None)):
                if s['c'][k] != v:
                    yield gen.subst(P, ['steps', i, 'c', k], v)


def make(c, bad=None):
    """(Call, draws: whether it has to draw)."""
    k, N, R = c['k'], c['N'], c['R']
    shape = N if R == 0 else (N, R)
    H, L, method = c['H'], max(2, int(c['lfrac'] * N)), c['method']
    if bad == 'H-':
        H = -.1
    if bad == 'H+':
        H = 1.25
    if bad == 'L':
        L = 10 * N
    if bad == 'method':
        method = 'spectral'
    noise = c['noise']
    if k in ('fgn', 'fbm'):
        z = None
        if noise != 'draw':
            z = ops.z_for(N, R, c['method'], c['zseed'])
        f = api.fgn if k == 'fgn' else api.fbm
        return ops.Call(k, f, shape, H, sigma=c['sigma'], dt=c['dt'],
                        method=method, z0=z), z is None
    if k in ('mrw', 'mrw_cumul'):
        ze = ops.z_for(N, R, c['method'], c['zseed']) \
            if noise in ('full', 'e') else None
        zw = ops.z_for(N, R, c['method'], c['zseed'] + 1) \
            if noise in ('full', 'w') else None
        kw = dict(sigma=c['sigma'], method=method)
        if noise != 'draw' or c['zseed'] % 2:
            kw['z0'] = (ze, zw)
        if k == 'mrw':
            return ops.Call(k, api.mrw, shape, H, c['lam'], L, **kw), \
                ze is None or zw is None
        c2 = -c['lam'] ** 2
        return ops.Call(k, api.mrw_cumul, shape, H - c2, c2, L, **kw), \
            ze is None or zw is None
    if k == 'skewed_mrw':
        dt = c['dt'] or 1
        return ops.Call(k, api.skewed_mrw, shape, H, c['lam'], L * dt,
                        K0=c['K0'], sigma=c['sigma'], dt=dt,
                        do_mirror=c['mirror']), True
    return ops.Call(k, api.mrw2D, shape, H, c['lam'], L,
                    sigma=c['sigma']), True


def rejectable(c, bad):
    if c['k'] == 'mrw2D':
        return False
    if c['k'] == 'skewed_mrw' and bad == 'method':
        return False
    return not (c['k'] in ('fgn', 'fbm') and bad == 'L')


def key(st):
    return (st[0], st[1].tobytes(), st[2], st[3], st[4])


def pristine(c, bad, state, pystate=None):
    def fn():
        np.random.set_state(state)
        random.seed(99)
        n, o = points.survey(lambda: kernel.flat_outcome(make(c, bad)[0]))
        return n, o, np.random.get_state()
    return kernel.pristine_eval(fn)


def execute(P, ctx):
    states = []
    prev = 'start'
    last = None      # (call, output) of the last drawing call
    ncalls = 0
    for i, st in enumerate(P['steps']):
        states.append(np.random.get_state())
        kind = st['s']
        if kind == 'seed':
            np.random.seed(st['v'])
            last = None
        elif kind == 'draw':
            np.random.randn(st['n'])
        elif kind == 'restore':
            np.random.set_state(states[max(0, len(states) - 1 - st['back'])])
            last = None
        if kind != 'call':
            prev = kind
            continue
        c, bad = st['c'], st.get('bad')
        if bad and not rejectable(c, bad):
            bad = None
        call, draws = make(c, bad)
        before = np.random.get_state()
        npts, exp, exp_after = pristine(c, bad, before)
        fired = None
        if 'fault' in st and npts:
            with points.fault(st['fault'][0],
                              npts.at(*st['fault'])) as f:
                out = kernel.flat_outcome(call)
            fired = f.fired
        else:
            out = kernel.flat_outcome(call)
        after = np.random.get_state()
        where = f'step {i} ({c["k"]}{" " + bad if bad else ""})'
        if fired:
            ctx.count('fault.' + st['fault'][0])
        ctx.log(i, c['k'], bad, fired and list(fired), out[0])
        ctx.state((prev, c['k'], bad, bool(fired)))
        prev_was = prev
        prev = c['k'] + (' fault' if fired else '') + (' bad' if bad else '')
        if ncalls:
            ctx.nontrivial = True
        ncalls += 1
        if fired and out[0] == 'exc':
            continue
        if bad:
            if out[0] == 'ok':
                raise Violation('not-rejected', f'{where} returned a result')
            if key(after) != key(before):
                raise Violation('rejected-draws', f'{where} was rejected '
                                f'({out[1]}) but consumed randomness')
            ctx.count('rejected')
            continue
        if out[0] == 'exc' or exp[0] == 'exc':
            if out[0] != exp[0]:
                raise Violation('history-dependent', f'{where} after '
                                f'{prev_was}: {out[:3]}; from the same '
                                f'generator state in a fresh process: '
                                f'{exp[:3]}')
            if out[1] != 'LinAlgError':
                # not the Cholesky factor of a matrix that has none
                raise Violation('request-fails', f'{where}: a legitimate '
                                f'request fails: {out[1]}: {out[2]}')
            ctx.count('refused_alone_too')
            continue
        d = compare.diff(out[1], exp[1], rtol=1e-11, atol=1e-12)
        if d:
            raise Violation('history-dependent', f'{where} after {prev_was} '
                            f'differs from the same call from the same '
                            f'generator state in a fresh process: {d}')
        ctx.log_result(where, out[1])
        if key(after) != key(exp_after):
            raise Violation('generator-advance', f'{where} after {prev_was} '
                            'advances the generator by another amount than '
                            'in a fresh process')
        if draws and key(after) == key(before):
            raise Violation('no-draw', f'{where} does not draw from the '
                            'global generator')
        arr = next(v for v in out[1].values() if isinstance(v, np.ndarray))
        if not draws:
            ctx.count('supplied')
            if key(after) != key(before):
                raise Violation('draws-despite-noise', f'{where} draws '
                                'although all its noise is supplied')
            other = {**c, 'zseed': c['zseed'] + 7919}
            other_state = np.random.RandomState(c['zseed']).get_state()
            _, o1, _ = pristine(c, None, other_state)
            _, o2, _ = pristine(other, None, before)
            d = compare.diff(out[1], o1[1], rtol=1e-11, atol=1e-12)
            if d:
                raise Violation('generator-dependent', f'{where} with '
                                'supplied noise depends on the generator '
                                f'state: {d}')
            if compare.diff(out[1], o2[1]) is None:
                raise Violation('noise-ignored', f'{where}: other supplied '
                                'noise gives the same output')
        elif c['noise'] in ('e', 'w') and c['k'] in ('mrw', 'mrw_cumul'):
            ctx.count('partly_supplied')
            other = {**c, 'zseed': c['zseed'] + 7919}
            _, o2, st2 = pristine(other, None, before)
            if compare.diff(out[1], o2[1]) is None:
                raise Violation('noise-ignored', f'{where}: other supplied '
                                'noise gives the same output')
            if key(st2) != key(after):
                raise Violation('generator-advance', f'{where}: number of '
                                'draws depends on the supplied noise')
        if draws:
            if last is not None and last[0] == c and \
                    compare.diff(last[1], out[1]) is None:
                raise Violation('noise-repeats', f'{where}: repeated call '
                                'returns the same realisation')
            # ask again without reseeding: noise has to be fresh, and
            # realisations of one call have to differ
            if c['noise'] == 'draw':
                again = kernel.fork_eval(
                    lambda: kernel.flat_outcome(make(c)[0]))
                if again[0] != 'ok':
                    raise Violation('history-dependent', f'{where} works '
                                    f'once, then: {again[1:]}')
                if compare.diff(again[1], out[1]) is None:
                    raise Violation('noise-repeats', f'{where}: repeated '
                                    'call returns the same realisation')
                ctx.count('fresh_noise')
            last = (c, out[1])
            if c['R'] > 1 and c['k'] in ('fgn', 'fbm'):
                if np.allclose(arr[..., 0], arr[..., 1]):
                    raise Violation('realisations-equal', f'{where}: '
                                    'realisations are identical')
        ctx.count('calls')
