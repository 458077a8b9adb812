import copy
import io
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from .. import env, gen, kernel, compare, faultgen, points, ops
from ..env import api
from ..kernel import Violation

points.install(env.PKGDIR)

ID = 'C13'
COUNT = {'quick': 900, 'thorough': 30000}
RULE = ('one run = an analysis pipeline (synthesis, wavelet analysis, '
        'univariate / minimal / bivariate analysis, spectral estimation, or '
        'a session on a Signal object) executed as a sequence of processes '
        'that share only a store of serialised results: each process '
        'restores what survived, completes a few stages and is lost at a '
        'seeded point (inside a stage, before the save, during the save: '
        'torn write), stored results get lost in between; the final result '
        'and every restored intermediate one are compared with the '
        'uninterrupted call in a pristine process; non-trivial: at least one '
        'process was lost or one stored result was lost')
STATE_MEASURE = 'distinct (pipeline, sequence of losses) histories'
REACH = ['fault.lost_inside_stage', 'fault.lost_before_save',
         'fault.torn_write', 'fault.lost_result', 'resumed', 'other_program']
COMPONENTS = {'real': 'pymultifracs, numerical libraries, pickle, copy, '
                      'joblib; processes are real forked (or newly started) '
                      'interpreters',
              'stub': 'the durable store (bytes kept by the simulator)'}

FORMATS = ['pickle2', 'pickle4', 'pickle5', 'purepickle', 'joblib', 'copy',
           'deepcopy']


def plan(rng, tier):
    k = rng.choice(['uni', 'uni', 'minimal', 'bi', 'beta', 'est', 'synth',
                    'signal', 'signal'])
    n = rng.randint(180, 420)
    rep = 0 if k in ('bi', 'synth') else rng.choice([0, 0, 1, 2])
    s = gen.rand_sig(rng, n, n, rep=rep, faults=rng.choice([0, 1, 2]))
    sigs = [s]
    if k == 'bi':
        sigs.append({**s, 'seed': rng.randrange(10**6)})
    P = {'k': k, 'sigs': sigs, 'o': gen.rand_wt_opts(rng, n),
         'q': gen.rand_q(rng), 'nc': rng.choice([2, 2, 3, 4]),
         'q1': rng.choice(ops.Q12), 'q2': rng.choice(ops.Q12),
         'fmt': rng.choice(FORMATS), 'exec': rng.random() < .04}
    m = ops.rand_moments(rng, n)
    fs, band = ops.rand_band(rng, n, m)
    P.update(m=m, fs=fs, band=band, log=rng.choice(['log2', 'log']))
    if k == 'synth':
        P.update(seed=rng.randrange(10**6), H=rng.choice([.3, .6, .8]),
                 lam=rng.choice([0, .2]))
    if k == 'signal':
        calls = []
        for _ in range(rng.randint(2, 6)):
            c = rng.choice(['wt', 'wt2', 'mf', 'mf2', 'wpsd', 'fractal',
                            'hurst', 'hmin', 'full', 'nosave'])
            calls.append(c)
        P['calls'] = calls
        P['o2'] = gen.rand_wt_opts(rng, n)
        P['qb'] = gen.rand_q(rng)
    lives = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        f = {'do': rng.choice([0, 1, 1, 2, 3]),
             'end': rng.choice(['inside', 'inside', 'before', 'torn',
                                'clean'])}
        if f['end'] == 'inside':
            f['fault'] = points.spec(rng)
        if f['end'] == 'torn':
            f['frac'] = round(rng.random(), 3)
        if rng.random() < .3:
            f['lose'] = rng.randrange(8)
        lives.append(f)
    P['lives'] = lives
    return P


def shrink(P, res=None):
    if P['exec']:
        yield {**P, 'exec': False}
    for c in gen.shrink_list(P['lives']):
        yield {**P, 'lives': c}
    if 'calls' in P:
        for c in gen.shrink_list(P['calls'], 1):
            yield {**P, 'calls': c}
    if len(P['sigs']) == 1:
        for s in gen.shrink_sig(P['sigs'][0]):
            yield {**P, 'sigs': [s]}
    if P['fmt'] != 'pickle4':
        yield {**P, 'fmt': 'pickle4'}
    for t in ops.simpler_ops({'o': P['o'], 'nc': P['nc']}):
        yield {**P, 'o': t['o'], 'nc': t['nc']}


# ------------------------------------------------------------ pipelines
def stages(P):
    """[(name, dependencies, function of the dependencies)]"""
    o = gen.wt_kw(P['o'])
    k = P['k']
    q = gen.q_value(P['q'])

    def rec(i):
        return lambda: gen.recording(P['sigs'][i])

    def wt(x):
        return api.wavelet_analysis(x, **o)

    def mf(W):
        f = api.minimal_mf_analysis if k == 'minimal' else api.mf_analysis
        return f(W.wt_coefs, W.wt_leaders, W.j2_eff, o['j1'], o['weighted'],
                 P['nc'], q)

    if k in ('uni', 'minimal'):
        return [('x', [], rec(0)), ('wt', ['x'], wt), ('final', ['wt'], mf)]
    if k == 'synth':
        def state():
            np.random.seed(P['seed'])
            np.random.standard_normal(P['seed'] % 5)
            return np.random.get_state()

        def syn(st):
            np.random.set_state(st)
            n = P['sigs'][0]['n']
            return api.mrw(n, P['H'], P['lam'], n) if P['lam'] else \
                api.fbm(n, P['H'])
        return [('state', [], state), ('x', ['state'], syn),
                ('wt', ['x'], wt), ('final', ['wt'], mf)]
    if k == 'bi':
        return [('x1', [], rec(0)), ('x2', [], rec(1)),
                ('wt1', ['x1'], wt), ('wt2', ['x2'], wt),
                ('final', ['wt1', 'wt2'],
                 lambda a, b: api.bivariate_analysis(
                     a, b, o['j1'], o['weighted'], P['nc'],
                     np.array(P['q1']), np.array(P['q2'])))]
    if k == 'beta':
        return [('x', [], rec(0)),
                ('psd', ['x'], lambda x: api.wavelet_estimation(
                    x, P['fs'], P['m'])),
                ('final', ['psd'], lambda p: api.estimate_beta(
                    p.freq, p.psd, tuple(P['band']), P['log']))]
    if k == 'est':
        def est(W):
            m = W.wt_coefs if W.wt_leaders is None else W.wt_leaders
            return [api.compute_hurst(m, o['j1'], W.j2_eff, o['weighted']),
                    api.estimate_hmin(m, o['j1'], W.j2_eff, o['weighted'])]
        return [('x', [], rec(0)), ('wt', ['x'], wt), ('final', ['wt'], est)]
    out = [('s0', [], lambda: [api.Signal(gen.recording(P['sigs'][0]),
                                          P['fs'], P['log']), []])]
    for i, c in enumerate(P['calls']):
        def step(prev, c=c):
            S, ans = prev
            return [S, ans + [signal_call(P, S, c)]]
        name = f's{i + 1}' if i < len(P['calls']) - 1 else 'final'
        out.append((name, [f's{i}'], step))
    return out


def signal_call(P, S, c):
    o, o2 = gen.wt_kw(P['o']), gen.wt_kw(P['o2'])
    if c in ('mf', 'mf2', 'nosave', 'hurst', 'hmin') \
            and S.wt_transform is None:
        S.wavelet_analysis(**o)
    if c == 'wt':
        return S.wavelet_analysis(**o)
    if c == 'wt2':
        return S.wavelet_analysis(**o2)
    if c == 'mf':
        return S.mf_analysis(gen.q_value(P['q']), P['nc'])
    if c == 'mf2':
        return S.mf_analysis(gen.q_value(P['qb']), P['nc'])
    if c == 'nosave':
        return S.mf_analysis(gen.q_value(P['qb']), P['nc'], save=False)
    if c == 'full':
        return S.mf_analysis_full(**o2, q=gen.q_value(P['q']),
                                  n_cumul=P['nc'])
    if c == 'wpsd':
        return S.estimate_wavelet_psd(P['m'])
    if c == 'fractal':
        return S.fractal_analysis(P['m'], tuple(P['band']))
    if c == 'hurst':
        return S.hurst()
    return S.hmin()


def oneshot(P):
    """The uninterrupted analysis."""
    o = gen.wt_kw(P['o'])
    k = P['k']
    if k in ('uni', 'minimal'):
        return api.mf_analysis_full(
            gen.recording(P['sigs'][0]), **o, q=gen.q_value(P['q']),
            n_cumul=P['nc'], minimal=k == 'minimal')
    if k == 'bi':
        return api.bivariate_analysis_full(
            gen.recording(P['sigs'][0]), gen.recording(P['sigs'][1]), **o,
            q1=np.array(P['q1']), q2=np.array(P['q2']), n_cumul=P['nc'])
    if k == 'beta':
        return api.fractal_analysis(gen.recording(P['sigs'][0]), P['fs'],
                                    P['m'], tuple(P['band']), P['log'])
    vals = {}
    for name, deps, fn in stages(P):
        vals[name] = fn(*[vals[d] for d in deps])
        if k == 'synth' and name == 'x':
            return api.mf_analysis_full(vals['x'], **o,
                                        q=gen.q_value(P['q']),
                                        n_cumul=P['nc'])
    return vals['final']


# ---------------------------------------------------------- serialising
def dump(v, fmt):
    b = io.BytesIO()
    if fmt == 'purepickle':
        pickle._Pickler(b, 4).dump(v)
    elif fmt == 'joblib':
        import joblib
        joblib.dump(v, b)
    else:
        if fmt == 'copy':
            v = copy.copy(v)
        if fmt == 'deepcopy':
            v = copy.deepcopy(v)
        pickle.dump(v, b, int(fmt[-1]) if fmt[-1].isdigit() else 4)
    return b.getvalue()


def load(data, fmt):
    b = io.BytesIO(data)
    if fmt == 'joblib':
        import joblib
        return joblib.load(b)
    return pickle.load(b)


def image(v):
    """All documented fields and derived attributes, and the answers of the
    small accessors."""
    out = compare.flatten(signal_fields(v), with_derived=True)
    seen = set()

    def walk(x, path):
        if id(x) in seen:
            return
        seen.add(id(x))
        n = type(x).__name__
        if n in compare.FIELDS:
            if hasattr(x, 'get_intercept'):
                compare.flatten(x.get_intercept(), path + '.get_intercept',
                                out)
            compare.flatten(x.get_nj(), path + '.get_nj', out)
        elif isinstance(x, (list, tuple)):
            for i, e in enumerate(x):
                walk(e, f'{path}[{i}]')
    walk(v, '')
    return out


def signal_fields(v):
    if isinstance(v, list) and v and type(v[0]).__name__ == 'Signal':
        S = v[0]
        d = {f: getattr(S, f, '<missing>') for f in
             ('data', 'fs', 'log', 'wt_psd', 'welch_psd', 'fractal',
              'wt_transform', 'multi_fractal')
             if hasattr(S, f)}
        return [d, v[1]]
    return v


def check_restored(name, v, data, fmt):
    try:
        w = load(data, fmt)
        a, b = image(v), image(w)
    except Exception as e:
        return f'restoring {name} ({fmt}): {type(e).__name__}: {e}'
    d = compare.diff(b, a, 0, 0)
    if d:
        return f'{name} restored from {fmt} differs: {d}'
    c = copy.deepcopy(v)
    wipe(c)
    d = compare.diff(image(v), a, 0, 0)
    if d:
        return f'changing a deep copy of {name} changes the original: {d}'
    return None


def wipe(v, seen=None):
    seen = set() if seen is None else seen
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, np.ndarray):
        if v.flags.writeable:
            v[...] = 0
    elif isinstance(v, dict):
        for e in v.values():
            wipe(e, seen)
    elif isinstance(v, (list, tuple)):
        for e in v:
            wipe(e, seen)
    elif hasattr(v, '__dict__'):
        wipe(vars(v), seen)


# ------------------------------------------------------------ processes
def life(P, store, f):
    """One process: restores, works, is lost. Returns (events, new store,
    problem)."""
    fmt = P['fmt']
    st = stages(P)
    by = {n: (d, fn) for n, d, fn in st}
    mem, events = {}, []
    store = dict(store)

    def get(name):
        if name in mem:
            return True
        if name in store:
            try:
                mem[name] = load(store[name], fmt)
                events.append(('restored', name))
                return True
            except Exception:
                del store[name]        # torn
                events.append(('torn', name))
        return False

    def next_stage(name='final'):
        """Deepest stage needed that can be computed now."""
        for d in by[name][0]:
            if not get(d):
                return next_stage(d)
        return name

    done = 0
    while not get('final'):
        if f is not None and done >= f['do'] and f['end'] == 'clean':
            return events + [('lost', 'clean')], store, None
        name = next_stage()
        last = f is not None and done >= f['do']
        fn = by[name][1]
        args = [mem[d] for d in by[name][0]]
        if last and f['end'] == 'inside':
            n = points.passes(fn, *args)
            with points.fault(f['fault'][0], n.at(*f['fault'])) as ft:
                o = kernel.outcome(fn, *args)
            if ft.fired:
                return events + [('lost', 'inside', name, ft.fired)], store, \
                    None
            last = False
        else:
            o = kernel.outcome(fn, *args)
        if o[0] == 'exc':
            return events, store, f'stage {name}: {o[1]}: {o[2]}'
        v = o[1]
        mem[name] = v
        if last and f['end'] == 'before':
            return events + [('lost', 'before', name)], store, None
        try:
            data = dump(v, fmt)
        except Exception as e:
            return events, store, \
                f'serialising {name} ({fmt}): {type(e).__name__}: {e}'
        bad = check_restored(name, v, data, fmt)
        if bad:
            return events, store, bad
        if last and f['end'] == 'torn':
            store[name] = data[:int(len(data) * f['frac'])]
            return events + [('lost', 'torn', name)], store, None
        store[name] = data
        events.append(('saved', name))
        if type(v) is list and name != 'final' and P['k'] == 'signal':
            mem[name] = v
        done += 1
    return events, store, None


def run_life(P, store, f, ctx):
    if not (P['exec'] and f is None):
        return kernel.fork_eval(lambda: life(P, store, f))
    # the last process is a newly started interpreter
    with tempfile.TemporaryDirectory() as d:
        a, b = os.path.join(d, 'in'), os.path.join(d, 'out')
        with open(a, 'wb') as fh:
            pickle.dump((P, store), fh)
        r = subprocess.run([sys.executable, '-c',
                            'from dst.props import c13; import sys; '
                            'c13.other_program(*sys.argv[1:])', a, b],
                           cwd=env.VERIF, capture_output=True, text=True,
                           timeout=240,
                           env={**os.environ, 'PYTHONHASHSEED': '12345'})
        if not os.path.exists(b):
            raise kernel.HarnessError(r.stderr[-2000:])
        with open(b, 'rb') as fh:
            out = pickle.load(fh)
    ctx.count('other_program')
    return out


def other_program(a, b):
    with open(a, 'rb') as fh:
        P, store = pickle.load(fh)
    out = life(P, store, None)
    with open(b + '.tmp', 'wb') as fh:
        pickle.dump(out, fh)
    os.rename(b + '.tmp', b)


def execute(P, ctx):
    exp = kernel.fork_eval(lambda: _image_outcome(lambda: oneshot(P)))
    if exp[0] == 'exc':
        ctx.count('refused')
        ctx.log('refused', exp)
        bad = run_life(P, {}, None, ctx)[2]
        if not bad:
            raise Violation('one-call-fails', f'{P["k"]}: {exp[1:]}, while '
                            'its stages succeed')
        if P['k'] == 'minimal' and kernel.fork_eval(
                lambda: _image_outcome(lambda: oneshot({**P, 'k': 'uni'}))
                )[0] == 'ok':
            raise Violation('minimal-fails', f'{exp[1:]}, while the full '
                            'analysis succeeds')
        return
    store = {}
    hist = []
    for f in P['lives'] + [None]:
        ev, store, bad = run_life(P, store, f, ctx)
        ctx.log('life', ev)
        hist.append([e[:3] for e in ev])
        for e in ev:
            if e[0] == 'restored':
                ctx.count('resumed')
            if e[0] == 'lost' and e[1] != 'clean':
                ctx.count({'inside': 'fault.lost_inside_stage',
                           'before': 'fault.lost_before_save',
                           'torn': 'fault.torn_write'}[e[1]])
                ctx.nontrivial = True
        if bad:
            raise Violation('stage-fails', f'{P["k"]}: {bad}, while the '
                            'uninterrupted call succeeds')
        if f is not None and 'lose' in f and store:
            k = sorted(store)[f['lose'] % len(store)]
            del store[k]
            ctx.count('fault.lost_result')
            ctx.nontrivial = True
            ctx.log('lost', k)
    ctx.state((P['k'], hist))
    got = kernel.fork_eval(lambda: _image_outcome(
        lambda: load(store['final'], P['fmt'])))
    if got[0] == 'exc':
        raise Violation('not-restorable', f'final result: {got[1:]}')
    d = compare.diff(got[1], exp[1], 1e-9, 1e-11)
    if d:
        raise Violation('resume-differs', f'{P["k"]} resumed after '
                        f'{len(P["lives"])} lost processes differs from the '
                        f'uninterrupted call: {d}')
    ctx.log_result('final', got[1])
    ctx.count('finals_compared')
    if P['k'] == 'minimal':
        full = kernel.fork_eval(lambda: _image_outcome(
            lambda: oneshot({**P, 'k': 'uni'})))
        part = {k: v for k, v in got[1].items()
                if k.startswith(('.dwt.structure', '.lwt.cumulants'))}
        ref = {k: full[1][k] for k in part if k in full[1]} \
            if full[0] == 'ok' else {}
        d = compare.diff(part, ref, 1e-9, 1e-11)
        if d:
            raise Violation('minimal-differs', 'the minimal analysis differs '
                            f'from the full one: {d}')
        ctx.count('minimal_compared')


def _image_outcome(fn):
    o = kernel.outcome(fn)
    return ('ok', image(o[1])) if o[0] == 'ok' else o
