"""Plot operations and observation of what they draw."""
import numpy as np

from . import gen, ops
from .env import api, plt
from .ops import Call

KINDS = ['p_structure', 'p_structure', 'p_scaling', 'p_cumulants',
         'p_cumulants', 'p_spectrum', 'p_spectrum', 'p_hmin', 'p_psd',
         'p_fractal', 'p_log', 'p_bistruct', 'p_bicumul', 'p_multiscale',
         'p_sigpsd', 'p_sigfractal']
SAVES = {'p_structure', 'p_scaling', 'p_cumulants', 'p_spectrum'}
# plots that own (and clear or create) the figure they draw
OWN = {'p_structure', 'p_cumulants', 'p_bistruct', 'p_bicumul',
       'p_legendre'}


def rand_plot(rng, sigs, kinds=KINDS):
    """sigs must be one-dimensional recordings."""
    k = rng.choice(kinds)
    i = rng.randrange(len(sigs))
    n = sigs[i]['n']
    op = {'op': k, 's': i}
    if k in ('p_structure', 'p_scaling', 'p_cumulants', 'p_spectrum',
             'p_hmin'):
        op['o'] = gen.rand_wt_opts(rng, n)
        op['q'] = rng.choice([[2], [1, 2], [0.0, 1.0, 2.0],
                              [-2.0, -1.0, 0.0, 1.0, 2.0],
                              [-1.0, 1.0, 3.0], [0.0, 2.0], [2.0, 1.0],
                              [1.0, -1.0, 0.0, 3.0]])
        op['nc'] = rng.choice([1, 2, 3, 4])
        op['lead'] = rng.random() < .5
        if k == 'p_scaling' and len(op['q']) < 2:
            op['q'] = [1, 2]
        if k == 'p_structure':
            op['kw'] = rng.choice([{}, {}, {'nrow': 2}, {'nrow': 1},
                                   {'ignore_q0': False},
                                   {'figlabel': 'A'}])
        if k == 'p_cumulants':
            op['kw'] = rng.choice([{}, {}, {'nrow': 2}, {'fignum': 7}])
        if k == 'p_spectrum':
            op['kw'] = rng.choice([{}, {'fmt': 'r-'}, {'ax': True}])
        if k == 'p_scaling':
            op['kw'] = rng.choice([{}, {'figlabel': 'B'}])
        return op
    if k in ('p_bistruct', 'p_bicumul', 'p_legendre'):
        a = {**sigs[i], 'faults': []}
        sigs += [a, {**a, 'seed': rng.randrange(10**6)}]
        op.update(s=len(sigs) - 2, s2=len(sigs) - 1,
                  o=gen.rand_wt_opts(rng, n), nc=rng.choice([2, 3]),
                  q1=[0, 1, 2], q2=[0, 1, 2])
        if k != 'p_bistruct':
            # leaders need the usual log-cumulants
            op['o']['p_exp'] = rng.choice([None, 'inf'])
        return op
    m = ops.rand_moments(rng, n)
    fs, band = ops.rand_band(rng, n, m)
    op.update(fs=fs, m=m, band=band, log=rng.choice(['log2', 'log']),
              n_fft=64, seg=rng.choice([None, 32]))
    if k == 'p_log':
        op['kw'] = rng.choice([{}, {'legend': True}, {'lowpass': True},
                               {'xticks': True}, {'slope': True},
                               {'ax': True}, {'color': True}])
        if rng.random() < .5:
            # lists of any length: the shortest decides
            op['lists'] = {
                a: [rng.choice(v) for _ in range(rng.randint(1, 3))]
                for a, v in (('color', ['k', 'red', '#00000020', 'C3']),
                             ('fmt', ['-', 'o', '--', 'r.-']),
                             ('linewidth', [1, .5, 2.25]),
                             ('legend', ['a', 'b', 'c']))
                if rng.random() < .5}
            op['plot_kwargs'] = rng.choice([None, {}, {'alpha': .5},
                                            {'markersize': 2}])
    if k == 'p_multiscale':
        op['colors'] = rng.choice(['names', 'alpha', 'more'])
    if k in ('p_fractal', 'p_sigfractal'):
        op['aslist'] = rng.random() < .5
    return op


def mf_objects(op, x):
    o = gen.wt_kw(op['o'])
    wt = api.wavelet_analysis(x, **o)
    mf = api.mf_analysis(wt.wt_coefs, wt.wt_leaders, wt.j2_eff,
                         j1=o['j1'], weighted=o['weighted'],
                         n_cumul=op['nc'], q=np.array(op['q']))
    lead = op['lead'] and mf.lwt is not None
    return (mf.lwt if lead else mf.dwt), \
        (wt.wt_leaders if lead else wt.wt_coefs), wt.j2_eff


def bound(name, meth, obj, *a, **k):
    c = Call(name, meth, *a, **k)
    c.inputs = [obj, list(a), k]
    return c


def prepare(op, sigs, filename=None):
    k = op['op']
    x = sigs[op['s']]
    sv = {} if filename is None else {'filename': filename}
    if k in ('p_structure', 'p_scaling', 'p_cumulants', 'p_spectrum',
             'p_hmin'):
        var, mrq, j2 = mf_objects(op, x)
        if k == 'p_hmin':
            return Call(k, api.plot_hmin, mrq, op['o']['j1'], j2,
                        op['o']['weighted'])
        kw = dict(op['kw'])
        if kw.get('ax') is True:
            kw['ax'] = _new_axes()
        if k == 'p_structure':
            return bound(k, var.structure.plot, var.structure, **kw, **sv)
        if k == 'p_scaling':
            return bound(k, var.structure.plot_scaling, var.structure,
                         **kw, **sv)
        if k == 'p_cumulants':
            return bound(k, var.cumulants.plot, var.cumulants, **kw, **sv)
        return bound(k, var.spectrum.plot, var.spectrum, **kw, **sv)
    if k in ('p_bistruct', 'p_bicumul', 'p_legendre'):
        b = api.bivariate_analysis_full(
            x, sigs[op['s2']], **gen.wt_kw(op['o']), n_cumul=op['nc'],
            q1=np.array(op['q1']), q2=np.array(op['q2']))
        v = b.dwt if b.lwt is None else b.lwt
        if k == 'p_bistruct':
            return bound(k, v.structure.plot, v.structure)
        if k == 'p_bicumul':
            return bound(k, v.cumulants.plot, v.cumulants)
        return bound(k, v.cumulants.plot_legendre, v.cumulants, resolution=8)
    if k == 'p_psd':
        return Call(k, api.plot_psd, x, op['fs'], op['n_fft'], op['seg'],
                    op['m'], op['log'])
    if k == 'p_fractal':
        return Call(k, api.plot_fractal, x, op['fs'], op['log'],
                    ops.band(op), op['m'], op['n_fft'], op['seg'])
    if k in ('p_sigpsd', 'p_sigfractal'):
        S = api.Signal(x, op['fs'], op['log'])
        if k == 'p_sigpsd':
            c = Call(k, S.plot_psd, op['n_fft'], op['seg'], op['m'])
        else:
            c = Call(k, S.plot_fractal, op['m'], ops.band(op),
                     op['n_fft'], op['seg'])
        c.inputs = [x]
        return c
    if k == 'p_log':
        p1 = api.wavelet_estimation(x, op['fs'], op['m'])
        p2 = api.welch_estimation(x, op['fs'], op['n_fft'], op['seg'])
        kw = {'log': op['log']}
        q = op['kw']
        if 'legend' in q:
            kw['legend'] = ['a', 'b']
        if 'lowpass' in q:
            kw['lowpass_freq'] = op['fs'] / 4
        if 'xticks' in q:
            kw['xticks'] = True
        if 'slope' in q:
            kw['slope'] = [(np.array([1., 2.]), np.array([3., 4.]))]
        if 'color' in q:
            kw['color'] = ['red', 'blue']
            kw['plot_kwargs'] = {'alpha': .5}
        if 'ax' in q:
            kw['ax'] = _new_axes()
        for a, v in op.get('lists', {}).items():
            kw[a] = list(v)
        if op.get('plot_kwargs') is not None:
            kw['plot_kwargs'] = dict(op['plot_kwargs'])
        return Call(k, api.log_plot, [p1.freq, p2.freq], [p1.psd, p2.psd],
                    **kw)
    if k == 'p_multiscale':
        return multiscale(op, x)
    raise ValueError(k)


def _new_axes():
    fig, axes = plt.subplots(1, 2)
    plt.figure()            # another figure is current
    return axes[1]


def multiscale(op, x):
    import pandas as pd
    rows, idx = [], []
    n = len(x) // 2
    for s in range(2):
        for seg in ('rest', 'task', 'sleep'):
            xx = x[s * 7:s * 7 + n] * (1 + len(seg))
            p = api.wavelet_estimation(xx, 40., op['m'])
            sl = [(float(np.log2(p.freq[-1])), float(np.log2(p.freq[0])))]
            rows.append({'freq': p.freq, 'mscale': p.psd[:, 0], 'slope': sl})
            idx.append((f's{s}', seg))
    df = pd.DataFrame(rows, index=pd.MultiIndex.from_tuples(idx))
    col = {'rest': 'red', 'task': 'blue', 'sleep': 'green'}
    if op.get('colors') == 'alpha':
        col = {'rest': '#ff000020', 'task': '#0000ff40', 'sleep': '#00ff0080'}
    col.update({k + '_avg': v[:7] + 'ff' if v[0] == '#' else v
                for k, v in list(col.items())})
    if op.get('colors') == 'more':
        col['other'] = col['other_avg'] = 'black'
    return Call(op['op'], api.viz.plot_multiscale, df, col)


# ------------------------------------------------------------- observation
def _all_lines():
    out = []
    for num in plt.get_fignums():
        f = plt.figure(num) if False else _fig(num)
        for ax in f.axes:
            for ln in ax.lines:
                out.append((f, ax, ln))
    return out


def _fig(num):
    from matplotlib._pylab_helpers import Gcf
    return Gcf.figs[num].canvas.figure


def _line(ln):
    import matplotlib.colors as mc
    x, y = ln.get_data()
    lab = str(ln.get_label())
    return {'x': np.asarray(x, float).ravel(),
            'y': np.asarray(y, float).ravel(),
            'color': mc.to_hex(ln.get_color(), keep_alpha=True),
            'style': str(ln.get_linestyle()) + '|' + str(ln.get_marker()),
            'width': [float(ln.get_linewidth()), float(ln.get_markersize()),
                      -1. if ln.get_alpha() is None else
                      float(ln.get_alpha())],
            'label': '' if lab.startswith('_') else lab}


def figures():
    return [_fig(num) for num in plt.get_fignums()]


def occupied():
    """Axes that show something."""
    return [ax for num in plt.get_fignums() for ax in _fig(num).axes
            if ax.lines or ax.collections or ax.get_xlabel() or
            ax.get_ylabel() or ax.get_title()]


def observe(call):
    """Make the call; describe what it drew. Returns (description, figures
    drawn into)."""
    before = {id(t[2]) for t in _all_lines()}
    keep = _all_lines()         # keep ids alive
    ret = call()
    new = [t for t in _all_lines() if id(t[2]) not in before]
    figs = []
    for f, ax, ln in new:
        if f not in figs:
            figs.append(f)
    d = {'lines': [_line(t[2]) for t in new],
         'axes': [[t[1].get_xlabel(), t[1].get_ylabel(), t[1].get_title()]
                  for t in new]}
    # labels and titles of axes under shared figures are set by each call
    for ax in d['axes']:
        for i in range(3):
            ax[i] = ax[i].replace('\n', ' ')
    if call.name in OWN:
        d['own'] = []
        for f in figs:
            st = f._suptitle.get_text() if f._suptitle is not None else ''
            axs = []
            for ax in f.axes:
                leg = ax.get_legend()
                axs.append({'n': len(ax.lines),
                            'legend': [] if leg is None else
                            [t.get_text() for t in leg.get_texts()],
                            'pos': np.array(ax.get_position().bounds)})
            d['own'].append({'title': st, 'axes': axs,
                             'size': np.array(f.get_size_inches())})
    del keep, ret
    return d, figs
