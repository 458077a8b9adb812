import logging
import math
import sys
import warnings

import numpy as np

from .. import env, gen, kernel, compare, points, ops
from .. import refmodel as rm
from .. import wavecheck as wc
from ..env import api
from ..kernel import Violation

points.install(env.PKGDIR)

ID = 'C15'
HISTORY = True
COUNT = {'quick': 700, 'thorough': 15000}
RULE = ('one run = one process history of 2-7 requests, degraded and '
        'regular ones mixed and repeated, under a seeded sequence of warning '
        'policies (always, default, once, module, ignore, error, error for '
        'the category only) and warning sinks (recorder, logging, a standard '
        'error stream that is missing or whose device is full), with some '
        'requests interrupted part-way and repeated; every answer is '
        'compared with the one of a pristine process that ignores warnings, '
        'with the reference model, and with the set of conditions derived '
        'from the request by the reference model; non-trivial: a degraded '
        'request was answered')
STATE_MEASURE = 'distinct (request kind, conditions, policy, sink) tuples'
REACH = ['cond.scale', 'cond.eta', 'cond.embedding', 'cond.hmin', 'regular',
         'error_policy_raised', 'repeated', 'fault.sink', 'fault.interrupt',
         'both_conditions']
COMPONENTS = {'real': 'all of pymultifracs, numpy, scipy, pywt, sklearn, the '
                      'warnings module',
              'stub': 'warning sinks and standard error'}
ASSUMPTIONS = ['a warning announces a condition if it is issued by the call '
               'and is not one of the numerical RuntimeWarnings of numpy or '
               'scipy']
NUMERIC = ('divide by zero', 'invalid value', 'overflow', 'underflow',
           'mean of empty', 'all-nan', 'degrees of freedom',
           'deprecationwarning', 'futurewarning', 'runtimewarning')
POLICIES = ['always', 'always', 'always', 'default', 'once', 'module',
            'ignore', 'error', 'error', 'error_user']
SINKS = ['record', 'record', 'logging', 'stderr_full', 'stderr_none']


# ---------------------------------------------------------------- planning
def plan(rng, tier):
    n = rng.randint(120, 700)
    sigs = []
    for _ in range(rng.choice([1, 2, 2])):
        cols = [{'n': n, 'rep': 0, 'proc': rng.choice(
            ['bm', 'bm', 'white', 'white', 'ar', 'cascade']),
            'seed': rng.randrange(10**6), 'faults': []}
            for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < .25:
            c = rng.choice(cols)
            c['faults'].append(['drop', rng.randrange(n - 20),
                                rng.choice([1, 2, 9]), 0])
        sigs.append({'cols': cols, 'flat': rng.random() < .5})
    reqs = []
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(['wavelet', 'wavelet', 'wavelet', 'full', 'signal',
                        'signal_full', 'bivariate', 'hmin', 'cme', 'synth',
                        'psd_w', 'mf'])
        r = {'k': k, 's': rng.randrange(len(sigs))}
        if k in ('cme', 'synth'):
            r.update(N=rng.choice([6, 9, 16, 33, 64]), R=rng.choice([1, 2]),
                     shape=rng.choice(['exp', 'exp', 'notch', 'box', 'alt',
                                       'edge']),
                     H=rng.choice([.05, .3, .5, .8, .95]),
                     a=round(rng.uniform(.2, .95), 3),
                     seed=rng.randrange(10**6), stream=rng.random() < .4,
                     method=rng.choice(['cme', 'chol']),
                     what=rng.choice(['fgn', 'fbm', 'mrw', 'mrw_cumul']))
        else:
            o = gen.rand_wt_opts(rng, n, p_exps=(None, 'inf', 2, 1, 4, .5,
                                                 1.5))
            ml = gen.max_level(n, o['wt_name'])
            o['j2'] = rng.choice([None, ml, ml, ml - 1, ml + 1, ml + 1,
                                  ml + 2, 10, 25])
            if o['j2'] is not None and o['j2'] <= o['j1']:
                o['j2'] = ml + 1
            if k == 'full' and o['j2'] is None:
                o['j2'] = ml + 1
            r['o'] = o
            r['q'] = gen.rand_q(rng)
            r['nc'] = rng.choice([1, 2, 3])
            if k == 'hmin':
                r.update(warn=rng.random() < .8, via=rng.choice(
                    ['fn', 'fn', 'signal']))
                r['o']['p_exp'] = rng.choice([None, 'inf'])
            if k == 'psd_w':
                r['m'] = ops.rand_moments(rng, n)
        reqs.append(r)
        while rng.random() < .35:
            reqs.append(dict(rng.choice(reqs)))
    for r in reqs:
        if rng.random() < .55:
            r['policy'] = [rng.choice(POLICIES), rng.choice(SINKS)]
        if rng.random() < .15:
            r['fault'] = points.spec(rng)
    reqs[0]['policy'] = [rng.choice(POLICIES), rng.choice(SINKS)]
    return {'sigs': sigs, 'reqs': reqs}


def shrink(P, res=None):
    for c in gen.shrink_list(P['reqs'], 1):
        yield {**P, 'reqs': c}
    for i, r in enumerate(P['reqs']):
        for k in ('fault', 'policy'):
            if k in r:
                yield gen.subst(P, ['reqs', i], {a: b for a, b in r.items()
                                                 if a != k})
        if 'o' in r:
            for t in ops.simpler_ops(r):
                yield gen.subst(P, ['reqs', i], t)
    for i, s in enumerate(P['sigs']):
        for c in gen.shrink_list(s['cols'], 1):
            yield gen.subst(P, ['sigs', i, 'cols'], c)
        for k, c in enumerate(s['cols']):
            if c['faults']:
                yield gen.subst(P, ['sigs', i, 'cols', k, 'faults'], [])


# --------------------------------------------------------------- requests
def data(s):
    x = np.stack([gen.recording(c) for c in s['cols']], axis=1)
    return x[:, 0].copy() if s['flat'] and x.shape[1] == 1 else x


def cov(r):
    """Autocovariance sequence of length N."""
    N, a = r['N'], r['a']
    k = np.arange(N, dtype=float)
    if r['shape'] == 'exp':
        return a ** k
    if r['shape'] == 'notch':           # one eigenvalue pushed below zero
        c = a ** k
        m = 2 * N - 2
        e = np.real(np.fft.fft(np.concatenate([c, c[1:-1][::-1]])))
        f = int(N // 3)
        c = c - (e[f] * 1.3) * (1 if f in (0, N - 1) else 2) / m \
            * np.cos(2 * np.pi * f * k / m)
        return c
    if r['shape'] == 'edge':            # the last (Nyquist) one only
        c = a ** k
        m = 2 * N - 2
        e = np.real(np.fft.fft(np.concatenate([c, c[1:-1][::-1]])))
        return c - e[N - 1] * 1.2 / m * np.cos(np.pi * k)
    if r['shape'] == 'box':
        return (k < max(2, N // 3)).astype(float)
    return np.where(k == 0, 1., np.where(k == 1, a, 0.))


def run(r, sigs, objs=None):
    """The request. objs holds signal objects that live on between
    requests."""
    k = r['k']
    if k == 'cme':
        g = sys.modules['pymultifracs.simul.pzutils'].gaussian_cme
        if r['stream']:
            np.random.seed(r['seed'])
            return g(cov(r), r['N'], r['R'])
        return g(cov(r), r['N'], r['R'],
                 ops.noise((2 * r['N'] - 2, r['R']), r['seed'], True))
    if k == 'synth':
        np.random.seed(r['seed'])
        sh = (r['N'], r['R'])
        if r['what'] in ('fgn', 'fbm'):
            return (api.fgn if r['what'] == 'fgn' else api.fbm)(
                sh, r['H'], method=r['method'])
        if r['what'] == 'mrw':
            return api.mrw(sh, r['H'], .2, max(2, int(r['N'] * r['a'])),
                           method=r['method'])
        return api.mrw_cumul(sh, r['H'] + .04, -.04, r['N'],
                             method=r['method'])
    x = sigs[r['s']]
    o = gen.wt_kw(r['o'])
    if k == 'wavelet':
        return api.wavelet_analysis(x, **o)
    if k == 'full':
        return api.mf_analysis_full(x, **o, q=gen.q_value(r['q']),
                                    n_cumul=r['nc'])
    if k == 'mf':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            W = api.wavelet_analysis(x, **o)
        return api.mf_analysis(W.wt_coefs, W.wt_leaders, W.j2_eff, o['j1'],
                               o['weighted'], r['nc'], gen.q_value(r['q']))
    if k == 'psd_w':
        return api.wavelet_estimation(x, 10., r['m'])
    if k == 'bivariate':
        y = sigs[0]
        if x.ndim > 1:
            x = x[:, 0]
        y = y if y.ndim == 1 else y[:, -1]
        return api.bivariate_analysis_full(
            x, y, **o, q1=np.array([0., 1, 2]), q2=np.array([0., 1, 2]),
            n_cumul=2)
    if k in ('signal', 'signal_full') or (k == 'hmin'
                                          and r['via'] == 'signal'):
        S = None if objs is None else objs.get(r['s'])
        if S is None:
            S = api.Signal(x, 10.)
            if objs is not None:
                objs[r['s']] = S
        if k == 'signal':
            return S.wavelet_analysis(**o)
        if k == 'signal_full':
            return S.mf_analysis_full(**o, q=gen.q_value(r['q']),
                                      n_cumul=r['nc'])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            S.wavelet_analysis(**o)
        return S.hmin()
    if k == 'hmin':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            W = api.wavelet_analysis(x, **o)
        mrq = W.wt_coefs if W.wt_leaders is None else W.wt_leaders
        return api.estimate_hmin(mrq, o['j1'], W.j2_eff, o['weighted'],
                                 warn=r['warn'])
    raise ValueError(k)


def quiet(fn, *a):
    warnings.resetwarnings()
    warnings.simplefilter('ignore')
    return fn(*a)


def stored(r, objs):
    """Signal objects reuse a stored transform: nothing is computed."""
    if r['k'] not in ('signal', 'signal_full'):
        return False
    S = objs.get(r['s'])
    if S is None or S.wt_param is None:
        return False
    o = gen.wt_kw(r['o'])
    return S.wt_param._asdict() == o


# ------------------------------------------------------------- conditions
def conditions(r, sigs):
    """Set of conditions of a request from the reference model; None where
    it is too close to call."""
    k = r['k']
    out = set()
    if k == 'cme':
        c = cov(r)
        e = np.real(np.fft.fft(np.concatenate([c, c[1:-1][::-1]])))
        if abs(e.min()) < 1e-9 * np.abs(e).max():
            return None
        return {'embedding'} if e.min() < 0 else set()
    if k in ('synth', 'psd_w', 'mf'):
        return set()
    x = sigs[r['s']]
    o = gen.wt_kw(r['o'])
    if k == 'bivariate':
        y = sigs[0]
        both = [x if x.ndim == 1 else x[:, 0], y if y.ndim == 1 else y[:, -1]]
    else:
        both = [x]
    for z in both:
        L = gen.WAVELETS[o['wt_name']]
        top = rm.level_limit(len(z), L)
        if k != 'hmin' and o['j2'] is not None and o['j2'] > top:
            out.add('scale')
        T = rm.wavelet(z, **o)
        if k == 'hmin':
            if r['via'] == 'signal' or T.leaders is None:
                v = T.coefs
            else:
                v = T.leaders
            if T.j2_eff <= o['j1'] or (r['via'] == 'fn' and not r['warn']):
                return set()
            h = rm.hmin(v, o['j1'], T.j2_eff, o['weighted'])[0]
            if np.isnan(h).any() or np.abs(h).min() < 1e-6:
                return None
            if (h < 0).any():
                out.add('hmin')
            continue
        if o['p_exp'] is not None and not math.isinf(o['p_exp']):
            if T.j2_eff <= o['j1']:
                continue
            e = T.eta_p
            if np.isnan(e).any() or np.abs(e).min() < 1e-7:
                return None
            if (e <= 0).any():
                out.add('eta')
    return out


def answerable(r, sigs):
    """Whether enough of a degraded request can be met for an answer."""
    if r['k'] == 'cme':
        return True
    if r['k'] == 'bivariate' or 'o' not in r:
        return False
    o = gen.wt_kw(r['o'])
    return rm.wavelet(sigs[r['s']], **o).j2_eff > o['j1']


def hmin_negative(r, sigs):
    o = gen.wt_kw(r['o'])
    T = rm.wavelet(sigs[r['s']], **o)
    if T.j2_eff <= o['j1']:
        return True
    for v in (T.coefs, T.leaders):
        if v is not None:
            h = rm.hmin(v, o['j1'], T.j2_eff, o['weighted'])[0]
            if not (h > 1e-6).all():
                return True
    return False


def check_answer(r, sigs, val):
    """The reduced result, checked against the reference model."""
    if r['k'] not in ('wavelet', 'signal'):
        return
    o = gen.wt_kw(r['o'])
    T = rm.wavelet(sigs[r['s']], **o)
    what = f'wavelet_analysis({r["o"]})'
    if val.j2_eff != T.j2_eff:
        raise Violation('not-clipped', f'{what}: j2_eff is {val.j2_eff}, '
                        f'available are the scales up to {T.j2_eff}')
    if list(val.wt_coefs.values) != list(T.coefs):
        raise Violation('not-clipped', f'{what}: scales '
                        f'{list(val.wt_coefs.values)} instead of '
                        f'{list(T.coefs)}')
    if T.eta_p is None:
        return
    e = compare.same_value(np.asarray(val.eta_p), T.eta_p, 1e-6, 1e-8)
    if e:
        raise Violation('eta-not-returned', f'{what}: eta_p: {e}')
    if np.abs(T.eta_p).min() < 1e-6:
        return
    for j in T.raw_leaders:
        want = T.leaders[j]
        e = compare.same_value(val.wt_leaders.values[j], want, 1e-6, 1e-8)
        if e:
            raise Violation(
                'correction', f'{what}: eta_p = {T.eta_p}: leaders of scale '
                f'{j} are not {"the corrected" if T.corrected else "left un"}'
                f'{"" if T.corrected else "corrected"} ones: {e}')


# -------------------------------------------------------------- the sinks
class Full:
    def write(self, s):
        raise OSError(28, 'No space left on device')

    def flush(self):
        raise OSError(28, 'No space left on device')


class World:
    """Warning policy and sink of the simulated process."""

    def __init__(self, ctx):
        self.ctx, self.seen = ctx, []
        self.true_show = warnings.showwarning
        self.stderr = sys.stderr
        self.handler = None

    def show(self, message, category, filename, lineno, file=None,
             line=None):
        self.seen.append((category, str(message)))

    def set(self, policy, sink):
        self.policy, self.sink = policy, sink
        warnings.resetwarnings()
        if policy == 'error_user':
            warnings.simplefilter('ignore')
            warnings.filterwarnings('error', category=UserWarning)
        else:
            warnings.simplefilter(policy)
            if policy == 'error':
                warnings.filterwarnings('ignore', category=RuntimeWarning)
                warnings.filterwarnings('ignore',
                                        category=DeprecationWarning)
        self.fresh = True
        self.install()

    def install(self):
        logging.captureWarnings(False)
        warnings.showwarning = self.true_show
        sys.stderr = self.stderr
        lg = logging.getLogger('py.warnings')
        lg.handlers = []
        if self.sink == 'record':
            warnings.showwarning = self.show
        elif self.sink == 'logging':
            world = self

            class H(logging.Handler):
                def emit(self, rec):
                    world.seen.append((None, rec.getMessage()))
            lg.addHandler(H())
            lg.propagate = False
            logging.captureWarnings(True)
        elif self.sink == 'stderr_full':
            sys.stderr = Full()
        else:
            sys.stderr = None

    def restore(self):
        logging.captureWarnings(False)
        warnings.showwarning = self.true_show
        sys.stderr = self.stderr
        warnings.resetwarnings()
        warnings.simplefilter('ignore')

    def announced(self):
        out = []
        for c, m in self.seen:
            low = m.lower()
            if any(t in low for t in NUMERIC):
                continue
            if c is not None and issubclass(c, (DeprecationWarning,
                                                PendingDeprecationWarning,
                                                FutureWarning)):
                continue
            if m not in out:
                out.append(m)
        return out


def execute(P, ctx):
    sigs = [data(s) for s in P['sigs']]
    objs = {}
    world = World(ctx)
    late = []
    ran = []
    cache = {}
    try:
        for i, r in enumerate(P['reqs']):
            core = {k: v for k, v in r.items() if k not in ('policy',
                                                            'fault')}
            key = repr(sorted(core.items()))
            if key not in cache:
                world_set(world, None)
                cache[key] = (kernel.solo(quiet, run, r, sigs),
                              conditions(r, sigs),
                              kernel.fork_eval(lambda: points.survey(
                                  lambda: kernel.outcome(quiet, run, r, sigs))[0])
                              if 'fault' in r else None)
            want, cond, ncalls = cache[key]
            if 'policy' in r:
                world.set(*r['policy'])
            else:
                world_set(world, 'on')
            if 'fault' in r:
                if ncalls is None:
                    world_set(world, None)
                    ncalls = kernel.fork_eval(lambda: points.survey(
                        lambda: kernel.outcome(quiet, run, r, sigs))[0])
                    world_set(world, 'on')
                with points.fault(r['fault'][0],
                                  ncalls.at(*r['fault'])) as f:
                    kernel.outcome(run, r, sigs, objs)
                if f.fired:
                    ctx.count('fault.' + r['fault'][0])
                world.fresh = False
            if key in ran:
                ctx.count('repeated')
            ran.append(key)
            one(r, sigs, objs, world, want, cond, ctx, late)
            world_set(world, 'on')
    finally:
        world.restore()
    if late:
        raise late[0]


def world_set(world, how):
    if how is None:
        sys.stderr = world.stderr
    elif hasattr(world, 'sink'):
        world.install()


def name(r):
    return r['k'] + (f'({r["o"]})' if 'o' in r else
                     f'({r["shape"]}, N={r["N"]})' if r['k'] == 'cme' else
                     f'({r["what"]})')


def one(r, sigs, objs, world, want, cond, ctx, late):
    world.seen.clear()
    reused = stored(r, objs)
    raising = world.policy in ('error', 'error_user')
    try:
        val = ('ok', run(r, sigs, objs))
    except Warning as e:
        val = ('warning', str(e))
    except Exception as e:
        val = ('exc', type(e).__name__, str(e)[:300])
    msgs = world.announced()
    if r['k'] in ('full', 'mf', 'signal_full') and hmin_negative(r, sigs):
        # announcing the h_min they report as well would be right
        msgs = [m for m in msgs if 'h_min' not in m]
        if val[0] == 'warning' and 'h_min' in val[1]:
            return
    visible = world.sink in ('record', 'logging')
    if not visible:
        ctx.count('fault.sink')
    ctx.state((r['k'], None if cond is None else tuple(sorted(cond)),
               world.policy, world.sink, reused))
    ctx.log(r['k'], None if cond is None else sorted(cond), world.policy,
            world.sink, val[0], len(msgs))
    what = f'{name(r)} under policy {world.policy!r}'
    for c in (cond or ()):
        ctx.count('cond.' + c)
    if cond == set():
        ctx.count('regular')
    if cond and len(cond) > 1:
        ctx.count('both_conditions')
    if reused:
        cond = None if cond else cond       # may or may not be repeated
    fail = []
    if val[0] == 'exc':
        if want[0] == 'ok' or want[1:] != val[1:]:
            raise Violation('not-answered', f'{what}: {val[1]}: {val[2]}; '
                            f'alone it gives {want[0]}')
        if cond and answerable(r, sigs):
            raise Violation('not-answered', f'{what}: the conditions '
                            f'{sorted(cond)} make it fail with {val[1]}: '
                            f'{val[2]}')
        return
    if val[0] == 'warning':
        if not raising:
            raise Violation('raises', f'{what}: raises {val[1][:200]}')
        if cond == set():
            raise Violation('false-warning', f'{what}: a request that can '
                            f'be met in full issues {val[1][:200]!r}')
        ctx.count('error_policy_raised')
        return
    if want[0] != 'ok':
        raise Violation('answer-differs', f'{what}: answered, but alone it '
                        f'fails with {want[1:]}')
    d = compare.diff(compare.flatten(val[1]), want[1])
    if d:
        raise Violation('answer-differs', f'{what}: {d} (second: same '
                        'request alone, warnings ignored)')
    check_answer(r, sigs, val[1])
    if cond == set() and msgs:
        raise Violation('false-warning', f'{what}: a request that can be met '
                        f'in full issues {msgs[0][:200]!r}')
    if cond:
        ctx.nontrivial = True
        unannounced = None
        if raising:
            unannounced = 'no warning is raised'
        elif visible and world.policy == 'always':
            if len(msgs) < len(cond):
                unannounced = f'{len(msgs)} warnings are issued for the ' \
                              f'conditions {sorted(cond)}'
        elif visible and world.policy in ('default', 'module') \
                and world.fresh and len(msgs) < 1:
            unannounced = 'no warning is issued'
        if unannounced and cond == {'hmin'}:
            late.append(Violation('unannounced', f'{what}: h_min is negative '
                                  f'and {unannounced}',
                                  'hmin-negative-unannounced'))
        elif unannounced:
            raise Violation('unannounced', f'{what}: {unannounced} '
                            f'(conditions {sorted(cond)})')
    if cond is None or cond:
        world.fresh = False
