"""Simulated sessions on signal objects: shared by C01, C02 and C03.

A session is a history of method calls on one or two Signal objects, with
failures injected inside calls. The oracle is the corresponding stand-alone
function, evaluated in a pristine process on pristine data.
"""
import copy
import json

import numpy as np

from . import gen, kernel, compare, points, ops
from .env import api, plt
from .kernel import Violation

BAD = [{'wt_name': 'nope'}, {'p_exp': 'x'}, {'normalization': 0},
       {'j2': 'many'}, {'gamint': 'a'}]


# ---------------------------------------------------------------- planning
def plan(rng, faulty, mutate=True):
    n = rng.randint(200, 700)
    rep = rng.choice([0, 0, 0, 1, 2])
    sigs = []
    for _ in range(rng.choice([1, 1, 2])):
        k = n if not sigs else rng.choice([n, n, n // 2 + 100])
        s = gen.rand_sig(rng, k, k, rep=rep,
                         faults=rng.choice([0, 0, 1, 2]))
        sigs.append(s)
    m = [1, 2, 3]
    fs, band = ops.rand_band(rng, n, 2)
    if fs > 90:
        band = [b / (fs / 64.) for b in band]
        fs = 64.
    w0 = gen.rand_wt_opts(rng, n)
    wps = [w0]
    for _ in range(rng.choice([1, 2])):
        w = dict(w0)
        alt = gen.rand_wt_opts(rng, n)
        k = rng.choice(list(w))
        if k == 'wt_name':
            alt['j1'], alt['j2'] = 1, 3
            w = {**w, 'wt_name': alt['wt_name'], 'j1': 1, 'j2': 3}
        elif k == 'j1':
            w['j1'] = 2 if (w['j1'] == 1 and w['j2'] >= 3) else 1
        elif k == 'j2':
            w['j2'] = rng.choice([None, 20, w['j1'] + 1])
        else:
            w[k] = alt[k]
        wps.append(w)
    qs = [gen.rand_q(rng) for _ in range(rng.choice([2, 3]))]
    if rng.random() < .5:           # same values in another guise
        b = rng.choice(qs)
        if b[1] is not None:
            qs.append([rng.choice(['list', 'arr']), list(b[1])])
    if rng.random() < .3:           # almost the same values
        b = rng.choice(qs)
        if b[1] is not None and len(b[1]):
            v = list(b[1])
            i = rng.randrange(len(v))
            v[i] += rng.choice([1e-3, 1e-6, 1e-9])
            qs.append([rng.choice(['list', 'arr', b[0]]), v])
    ncs = rng.choice([[2], [2, 3], [1, 3]])
    bands = [band, [band[0] * 1.9, band[1]]]
    P = {'sigs': sigs, 'fs': fs, 'log': rng.choice(['log2', 'log']),
         'wps': wps, 'qs': qs, 'calls': []}
    kinds = ['wt', 'wt', 'mf', 'mf', 'mf', 'full', 'full', 'wpsd', 'wpsd',
             'fractal', 'hurst', 'hmin']
    if rep == 0:
        kinds += ['welch']
    if rep == 0 and rng.random() < .15:
        kinds += ['plotpsd', 'plotfractal']
    if rng.random() < .4:
        kinds += ['diff']
    if mutate:
        kinds += ['mutq']
    if rng.random() < .5:           # swarm: drop some kinds
        for _ in range(3):
            k = rng.choice(kinds)
            if len(set(kinds)) > 3:
                kinds = [x for x in kinds if x != k]
    if len(sigs) > 1 and rng.random() < .5:
        P['rates'] = [1, rng.choice([2, .5, 4, 1.5])]
    calls = P['calls']
    if rng.random() < .35:
        motif(rng, P, m, bands, ncs, rep)
    for _ in range(rng.randint(3, 9)):
        k = rng.choice(kinds)
        c = {'m': k, 'o': rng.randrange(len(sigs))}
        if k == 'wt':
            c['w'] = rng.randrange(len(wps))
        elif k == 'mf':
            c.update(q=rng.randrange(len(qs)), nc=rng.choice(ncs),
                     save=rng.random() < .7)
        elif k == 'full':
            c.update(w=rng.randrange(len(wps)), q=rng.randrange(len(qs)),
                     nc=rng.choice(ncs), save=rng.random() < .7)
            if rng.random() < .15:
                c['defaults'] = True
        elif k == 'wpsd':
            c.update(mom=rng.choice(m), j2=rng.choice([None, None, 3]))
        elif k == 'fractal':
            c.update(mom=rng.choice(m), band=rng.choice(bands))
        elif k == 'welch':
            c.update(nfft=rng.choice([64, 128]),
                     seg=rng.choice([None, 32, 32, 33, 96, 160]))
        elif k == 'diff':
            c.update(other=rng.randrange(len(sigs)),
                     log=rng.choice([None, None, 'log2']))
        elif k in ('plotpsd', 'plotfractal'):
            c.update(mom=rng.choice(m), nfft=64, seg=32, band=band)
        elif k == 'mutq':
            c.update(q=rng.randrange(len(qs)), pos=rng.randrange(4),
                     val=rng.choice([-3, 3, 2, .75, 0]))
        calls.append(c)
    if faulty and rng.random() < .3:
        # first uses of fresh results that are cut short, and tried again
        del calls[rng.randint(0, 2):]
        for _ in range(rng.randint(3, 6)):
            o = rng.randrange(len(sigs))
            w = {'m': 'wt', 'o': o, 'w': rng.randrange(len(wps))}
            c = rng.choice([{'m': 'hurst', 'o': o}, {'m': 'hmin', 'o': o},
                            {'m': 'mf', 'o': o, 'q': rng.randrange(len(qs)),
                             'nc': rng.choice(ncs), 'save': True}])
            c2 = dict(c)
            if c['m'] == 'mf' and rng.random() < .5:    # or something else
                k = rng.choice(['q', 'nc'])
                c2[k] = rng.randrange(len(qs)) if k == 'q' else \
                    rng.choice([1, 2, 3])
            calls += [w, {**c, 'fault': points.spec(rng)}, c2]
    elif faulty:
        # A failure inside a call, biased towards what happens next: a repeat
        # of the same call and calls that could reuse what it left behind.
        for _ in range(rng.choice([1, 1, 2])):
            at = rng.randrange(len(calls))
            base = calls[at]
            if base['m'] in ('mutq', 'diff'):
                continue
            bad = copy.deepcopy(base)
            if bad['m'] in ('wt', 'full') and rng.random() < .25:
                bad['bad'] = rng.choice(BAD)
                bad.pop('defaults', None)
            else:
                bad['fault'] = points.spec(rng)
            pos = at if rng.random() < .6 else rng.randint(0, len(calls))
            calls.insert(pos, bad)
            if rng.random() < .4:
                calls.insert(pos + 1, copy.deepcopy(bad) if rng.random() < .2
                             else copy.deepcopy(base))
            if rng.random() < .4:
                # something else between the success and the failure
                other = copy.deepcopy(base)
                if 'w' in other:
                    other['w'] = (other['w'] + 1) % len(wps)
                    calls.insert(pos, other)
                elif 'q' in other and other['m'] == 'mf':
                    other['q'] = (other['q'] + 1) % len(qs)
                    other['save'] = True
                    calls.insert(pos, other)
                elif 'mom' in other:
                    other['mom'] = other['mom'] % 3 + 1
                    calls.insert(pos, other)
    return P


def motif(rng, P, m, bands, ncs, rep):
    """The same question before and after one parameter changed."""
    o = rng.randrange(len(P['sigs']))
    k = rng.choice(['hurst', 'hurst', 'hmin', 'hmin', 'mf', 'fractal',
                    'welch', 'diff'])
    if k in ('hurst', 'hmin', 'mf'):
        w = rng.choice(P['wps'])
        n = min(s['n'] for s in P['sigs'])
        alt = rng.choice([
            {**w, 'normalization': 3 - w['normalization']
             if w['normalization'] in (1, 2) else 1},
            {**w, 'gamint': w['gamint'] + .5},
            {**w, 'weighted': not w['weighted']},
            {**w, 'wt_name': rng.choice(['db1', 'db2', 'db3', 'coif1']),
             'j1': 1, 'j2': 3}])
        P['wps'] = P['wps'] + [{**w, **{x: alt[x] for x in ('j1', 'j2')}},
                               alt]
        d = {'m': k, 'o': o}
        if k == 'mf':
            d.update(q=rng.randrange(len(P['qs'])), nc=rng.choice(ncs),
                     save=True)
        i = len(P['wps'])
        P['calls'] += [{'m': 'wt', 'o': o, 'w': i - 2}, d,
                       {'m': 'wt', 'o': o, 'w': i - 1}, dict(d)]
    elif k == 'fractal':
        a, b = rng.sample(m, 2)
        P['calls'] += [{'m': k, 'o': o, 'mom': a, 'band': bands[0]},
                       {'m': k, 'o': o, 'mom': b, 'band': bands[0]},
                       {'m': k, 'o': o, 'mom': b, 'band': bands[1]}]
    elif k == 'welch' and rep == 0:
        for nf, sg in rng.sample([(64, None), (64, 32), (64, 96), (64, 160),
                                  (96, None), (128, 32), (128, 96)], 3):
            P['calls'].append({'m': k, 'o': o, 'nfft': nf, 'seg': sg})
    elif k == 'diff':
        a = rng.choice(m)
        p = len(P['sigs']) - 1 - o
        P['calls'] += [{'m': 'wpsd', 'o': o, 'mom': a, 'j2': None},
                       {'m': 'wpsd', 'o': p, 'mom': rng.choice([a, a, 1]),
                        'j2': None},
                       {'m': k, 'o': o, 'other': p,
                        'log': rng.choice([None, 'log2'])}]


def shrink(plan, res=None):
    for c in gen.shrink_list(plan['calls'], 1):
        yield {**plan, 'calls': c}
    for i, c in enumerate(plan['calls']):
        if 'fault' in c:
            yield gen.subst(plan, ['calls', i, 'fault'], ['memory', 0])
        if c.get('o'):
            yield gen.subst(plan, ['calls', i, 'o'], 0)
    for i, s in enumerate(plan['sigs']):
        for t in gen.shrink_sig(s):
            if i == 0 or t['rep'] == s['rep']:
                if len(plan['sigs']) == 1 or t['rep'] == s['rep']:
                    yield gen.subst(plan, ['sigs', i], t)
    for i, w in enumerate(plan['wps']):
        for t in ops.simpler_ops({'o': w}):
            yield gen.subst(plan, ['wps', i], t['o'])


# --------------------------------------------------------------- execution
class Session:
    def __init__(self, P, ctx, fields=False, returns=True):
        self.P, self.ctx = P, ctx
        self.fields, self.returns = fields, returns
        self.data = [gen.recording(s) for s in P['sigs']]
        self.pristine = [gen.recording(s) for s in P['sigs']]
        self.fs = [P['fs'] * k for k in P.get('rates', [1, 1])]
        self.S = [api.Signal(x, f, P['log'])
                  for x, f in zip(self.data, self.fs)]
        self.q = [gen.q_value(q) for q in P['qs']]
        self.model = [{'w': None, 'wpsd': None} for _ in self.S]
        self.cache = {}
        self.kept = []

    # -- oracle
    def expect(self, key, fn):
        k = json.dumps(key, default=lambda a: ['arr', np.asarray(a).tolist()])
        if k not in self.cache:
            self.cache[k] = kernel.solo(fn)
        return self.cache[k]

    def qval(self, i):
        return copy.deepcopy(self.q[i])

    def ex_wpsd(self, o, mom, j2):
        x, fs = self.pristine[o], self.fs[o]
        return self.expect(['wpsd', o, mom, j2],
                           lambda: api.wavelet_estimation(x, fs, mom, j2=j2))

    def ex_welch(self, o, nfft, seg):
        x, fs = self.pristine[o], self.fs[o]
        return self.expect(['welch', o, nfft, seg],
                           lambda: api.welch_estimation(x, fs, nfft, seg))

    def ex_fractal(self, o, mom, band, log):
        x, fs = self.pristine[o], self.fs[o]
        return self.expect(['fractal', o, mom, list(band), log],
                           lambda: api.fractal_analysis(x, fs, mom,
                                                        tuple(band), log))

    def ex_wt(self, o, w):
        x = self.pristine[o]
        return self.expect(['wt', o, w],
                           lambda: api.wavelet_analysis(x, **gen.wt_kw(w)))

    def ex_mf(self, o, w, q, nc):
        x = self.pristine[o]
        kw = gen.wt_kw(w)
        return self.expect(['mf', o, w, q, nc],
                           lambda: api.mf_analysis_full(x, q=q, n_cumul=nc,
                                                        **kw))

    def ex_wtfun(self, o, w, which):
        x = self.pristine[o]

        def fn():
            t = api.wavelet_analysis(x, **gen.wt_kw(w))
            f = api.compute_hurst if which == 'hurst' else api.estimate_hmin
            return f(t.wt_coefs, w['j1'], t.j2_eff, w['weighted'])
        return self.expect([which, o, w], fn)

    def ex_diff(self, a, b, log):
        ma, mb = self.model[a]['wpsd'], self.model[b]['wpsd']
        if ma is None or mb is None:
            return ('exc', 'no PSD', '')
        ea, eb = self.ex_wpsd(a, *ma), self.ex_wpsd(b, *mb)
        if ea[0] != 'ok' or eb[0] != 'ok':
            return ('exc', 'no PSD', '')
        fa, pa = ea[1]['.freq'], ea[1]['.psd']
        fb, pb = eb[1]['.freq'], eb[1]['.psd']
        common = np.intersect1d(fa, fb)
        if not len(common) and log is not None:
            return ('exc', 'no common frequency', '')
        ia = [int(np.flatnonzero(fa == f)[0]) for f in common]
        ib = [int(np.flatnonzero(fb == f)[0]) for f in common]
        if log is None:
            d = pa[ia] - pb[ib]
        else:
            d = np.log2(pa[ia]) - np.log2(pb[ib])
            d = np.exp2(d - d.min() + .1)
        return ('ok', compare.flatten({'freq': common, 'psd': d}))

    def ex_plot(self, o, c):
        x, P, fs = self.pristine[o], self.P, self.fs[o]

        def fn():
            plt.figure()
            if c['m'] == 'plotpsd':
                api.plot_psd(x, fs, c['nfft'], c['seg'], c['mom'],
                             P['log'])
            else:
                # the method has no low-pass option and shows all
                api.plot_fractal(x, fs, P['log'], tuple(c['band']),
                                 c['mom'], c['nfft'], c['seg'],
                                 lowpass_freq=np.inf)
            return curves()
        return self.expect(['plot', o, c['m'], c['mom'], c['nfft'], c['seg'],
                            c['band']], fn)

    # -- the call itself
    def wparams(self, c):
        w = dict(self.P['wps'][c['w']])
        w.update(c.get('bad', {}))
        return w

    def call(self, c):
        S, o = self.S[c['o']], c['o']
        m = c['m']
        if m == 'wt':
            w = gen.wt_kw(self.wparams(c))
            return lambda: S.wavelet_analysis(**w)
        if m == 'mf':
            q = self.q[c['q']]
            return lambda: S.mf_analysis(q, c['nc'], c['save'])
        if m == 'full':
            q = self.q[c['q']]
            if c.get('defaults'):
                return lambda: S.mf_analysis_full()
            w = gen.wt_kw(self.wparams(c))
            return lambda: S.mf_analysis_full(q=q, n_cumul=c['nc'],
                                              save=c['save'], **w)
        if m == 'wpsd':
            return lambda: S.estimate_wavelet_psd(c['mom'], c['j2'])
        if m == 'fractal':
            return lambda: S.fractal_analysis(c['mom'], tuple(c['band']))
        if m == 'welch':
            return lambda: S.estimate_welch_psd(c['nfft'], c['seg'])
        if m == 'hurst':
            return S.hurst
        if m == 'hmin':
            return S.hmin
        if m == 'diff':
            T = self.S[c['other']]
            lg = (np.log2, np.exp2) if c['log'] else None

            def fn():
                d = S.psd_difference(T, lg)
                return {'freq': d.wt_psd.freq, 'psd': d.wt_psd.psd}
            return fn
        if m in ('plotpsd', 'plotfractal'):
            def fn():
                plt.figure()
                try:
                    if m == 'plotpsd':
                        S.plot_psd(c['nfft'], c['seg'], c['mom'])
                    else:
                        S.plot_fractal(c['mom'], tuple(c['band']), c['nfft'],
                                       c['seg'])
                    return curves()
                finally:
                    plt.close('all')
            return fn
        raise ValueError(m)

    def expected(self, c):
        """Oracle for a call, given the parameters in force."""
        o, m, M = c['o'], c['m'], self.model[c['o']]
        if m == 'wt':
            return self.ex_wt(o, self.wparams(c))
        if m == 'mf':
            if M['w'] is None:
                return ('exc', 'no transform', '')
            return self.ex_mf(o, M['w'], self.qval(c['q']), c['nc'])
        if m == 'full':
            if c.get('defaults'):
                return self.ex_mf(o, DEFAULT_W, None, 3)
            return self.ex_mf(o, self.wparams(c), self.qval(c['q']), c['nc'])
        if m == 'wpsd':
            return self.ex_wpsd(o, c['mom'], c['j2'])
        if m == 'fractal':
            return self.ex_fractal(o, c['mom'], c['band'], self.P['log'])
        if m == 'welch':
            return self.ex_welch(o, c['nfft'], c['seg'])
        if m in ('hurst', 'hmin'):
            if M['w'] is None:
                return ('exc', 'no transform', '')
            return self.ex_wtfun(o, M['w'], m)
        if m == 'diff':
            return self.ex_diff(o, c['other'], c['log'])
        return self.ex_plot(o, c)

    def effects(self, c):
        """Parameters in force after c completed."""
        M, m = self.model[c['o']], c['m']
        if m == 'wt':
            M['w'] = self.wparams(c)
        elif m == 'full':
            M['w'] = DEFAULT_W if c.get('defaults') else self.wparams(c)
        elif m == 'wpsd':
            M['wpsd'] = [c['mom'], c['j2']]
        elif m in ('fractal', 'plotfractal', 'plotpsd'):
            M['wpsd'] = [c['mom'], None]

    def failed_effects(self, c):
        """After a failed call. A combined call may have completed its first
        step: what the object then says is in force, is in force, but it has
        to be either the old or the requested parameters."""
        M, m, S = self.model[c['o']], c['m'], self.S[c['o']]
        if m == 'full':
            w = DEFAULT_W if c.get('defaults') else self.wparams(c)
            if S.wt_param is not None and same_w(S.wt_param, w):
                M['w'] = w
        elif m in ('fractal', 'plotfractal', 'plotpsd'):
            p = S.wt_psd_param
            if p is not None and (p.n_moments, p.j2) == (c['mom'], None):
                M['wpsd'] = [c['mom'], None]

    def run(self):
        ctx, P = self.ctx, self.P
        seen = set()
        for i, c in enumerate(P['calls']):
            if c['m'] == 'mutq':
                q = self.q[c['q']]
                if q is not None and len(q):
                    q[c['pos'] % len(q)] = c['val']
                    ctx.count('q_changed_in_place')
                ctx.log(i, 'mutq')
                continue
            exp = self.expected(c)
            fn = self.call(c)
            pre = self.before(c) if self.fields else None
            fired = None
            if 'fault' in c:
                n = kernel.fork_eval(lambda: points.survey(
                    lambda: kernel.outcome(fn)[0])[0])
                if n:
                    kind, at = c['fault']
                    with points.fault(kind, n.at(kind, at)) as f:
                        got = raw_outcome(fn)
                    fired = f.fired
                    if fired:
                        ctx.count('fault.' + kind)
                        ctx.count('fault_in_' + c['m'])
                        ctx.nontrivial = True
                    else:
                        ctx.count('fault_not_reached')
                else:
                    ctx.count('fault_call_reuses_results')
                    got = raw_outcome(fn)
            else:
                got = raw_outcome(fn)
            if 'bad' in c:
                ctx.count('fault.rejected_parameters')
            where = f'call {i} ({describe(c)})'
            ctx.log(i, c['m'], c['o'], got[0], str(fired))
            if got[0] == 'exc':
                if fired is None and exp[0] == 'ok':
                    raise Violation('spurious-failure-' + got[1],
                                    f'{where} raised {got[1]}: {got[2]}; the '
                                    'stand-alone function does not')
                ctx.count('failed_calls')
                self.failed_effects(c)
            else:
                if exp[0] != 'ok':
                    if fired is None and self.returns:
                        raise Violation('missing-failure',
                                        f'{where} returned although '
                                        f'{exp[1]} {exp[2]}')
                else:
                    flat = compare.flatten(got[1])
                    ctx.log_result('result', flat)
                    if self.returns:
                        d = compare.diff(flat, exp[1])
                        if d:
                            raise Violation('wrong-answer',
                                            f'{where} differs from the '
                                            f'stand-alone function: {d}')
                        if c['m'] not in ('diff', 'plotpsd', 'plotfractal'):
                            self.kept.append((where, got[1], exp[1]))
                self.effects(c)
            key = (c['m'], c['o'])
            if key in seen:
                ctx.nontrivial = True
            seen.add(key)
            ctx.count('calls')
            ctx.state((i, c['m'], json.dumps(self.model[c['o']], default=str)))
            if self.fields:
                self.check_fields(c, where)
                self.check_saved(c, pre, got, where, exp)
        if self.returns:
            for where, obj, exp in self.kept:
                d = compare.diff(compare.flatten(obj), exp)
                if d:
                    raise Violation('result-changed-later',
                                    f'the result of {where} was changed by '
                                    f'later calls: {d}')

    # -- stored fields (C03)
    def before(self, c):
        S = self.S[c['o']]
        return {'mf': S.multi_fractal, 'wt': S.wt_param, 'wpsd': S.wt_psd,
                'wpsdp': S.wt_psd_param, 'welch': S.welch_psd,
                'welchp': S.welch_param, 'tr': S.wt_transform,
                'mfp': S.mf_param,
                'mfflat': None if S.multi_fractal is None
                else compare.digest(compare.flatten(S.multi_fractal))}

    def check_fields(self, c, where):
        """Every exposed result matches the exposed parameters."""
        for o, S in enumerate(self.S):
            pairs = []
            if S.wt_psd is not None:
                p = S.wt_psd_param
                pairs.append(('wt_psd', S.wt_psd, p, None if p is None else
                              lambda: self.ex_wpsd(o, p.n_moments, p.j2)))
            if S.welch_psd is not None:
                p1 = S.welch_param
                pairs.append(('welch_psd', S.welch_psd, p1,
                              None if p1 is None else
                              lambda: self.ex_welch(o, p1.n_fft,
                                                    p1.seg_size)))
            if S.fractal is not None:
                p2 = S.fractal_param
                pairs.append(('fractal', S.fractal, p2,
                              None if p2 is None else
                              lambda: self.ex_fractal(
                                  o, p2.n_moments, p2.freq_band,
                                  self.P['log'])))
            w = None
            if S.wt_param is not None:
                w = w_of(S.wt_param)
            if S.wt_transform is not None:
                pairs.append(('wt_transform', S.wt_transform, S.wt_param,
                              None if w is None else
                              lambda: self.ex_wt(o, w)))
            if S.multi_fractal is not None:
                p4 = S.mf_param
                pairs.append(('multi_fractal', S.multi_fractal,
                              p4 if w is not None else None,
                              None if p4 is None or w is None else
                              lambda: self.ex_mf(o, w, jq(p4.q),
                                                 p4.n_cumul)))
            # parameters without a result claim something that is not there
            for name, res, par in (
                    ('wt_psd', S.wt_psd, S.wt_psd_param),
                    ('welch_psd', S.welch_psd, S.welch_param),
                    ('fractal', S.fractal, S.fractal_param),
                    ('wt_transform', S.wt_transform, S.wt_param),
                    ('multi_fractal', S.multi_fractal, S.mf_param)):
                if res is None and par is not None:
                    raise Violation('parameters-without-result',
                                    f'after {where}, the parameters of '
                                    f'{name} are set but it is None')
            for name, res, par, ex in pairs:
                if par is None:
                    raise Violation('result-without-parameters',
                                    f'after {where}, {name} is set but its '
                                    'parameters are not')
                e = ex()
                if e[0] != 'ok':
                    raise Violation('stored-mismatch',
                                    f'after {where}, {name} holds a result '
                                    f'for parameters that are rejected: '
                                    f'{par}')
                d = compare.diff(compare.flatten(res), e[1])
                if d:
                    raise Violation('stored-mismatch',
                                    f'after {where}, {name} does not match '
                                    f'its parameters {par}: {d}')
                self.ctx.count('stored_results_checked')

    def check_saved(self, c, pre, got, where, exp):
        S = self.S[c['o']]
        m = c['m']
        if m in ('mf', 'full') and c.get('save') is False \
                and not c.get('defaults'):
            changed = m == 'full' and not (
                pre['wt'] is not None
                and same_w(pre['wt'], self.wparams(c)))
            if not changed:
                now = S.multi_fractal
                if (now is None) != (pre['mf'] is None) or (
                        now is not None and compare.digest(
                            compare.flatten(now)) != pre['mfflat']):
                    raise Violation('save-false-stored',
                                    f'{where} with save=False changed the '
                                    'saved multifractal result')
                self.ctx.count('save_false_checked')
        if got[0] != 'ok':
            return
        # reuse with unchanged parameters
        if m == 'wpsd' and pre['wpsd'] is not None and pre['wpsdp'] is not \
                None and (pre['wpsdp'].n_moments, pre['wpsdp'].j2) == \
                (c['mom'], c['j2']):
            self.reused(got[1] is pre['wpsd'], where)
        if m == 'welch' and pre['welch'] is not None and pre['welchp'] is not \
                None and (pre['welchp'].n_fft, pre['welchp'].seg_size) == \
                (c['nfft'], c['seg']):
            self.reused(got[1] is pre['welch'], where)
        if m == 'wt' and pre['wt'] is not None and \
                same_w(pre['wt'], self.wparams(c)):
            self.reused(got[1] is pre['tr'], where)
        if m in ('mf', 'full') and pre['mf'] is not None and \
                not c.get('defaults') and c['nc'] == pre['mfp'].n_cumul \
                and (m == 'mf' or same_w(pre['wt'], self.wparams(c))):
            a, b = pre['mfp'].q, self.qval(c['q'])
            if a is not None and b is not None and np.array_equal(a, b):
                self.reused(got[1] is pre['mf'], where)
        # a saved request is stored
        if m in ('mf', 'full') and c.get('save', True):
            if S.multi_fractal is not got[1]:
                raise Violation('not-saved', f'{where}: the result is not '
                                'the one stored on the object')

    def reused(self, same, where):
        self.ctx.count('reuse_checked')
        self.ctx.nontrivial = True
        if not same:
            raise Violation('recomputed', f'{where} repeats a request with '
                            'unchanged parameters but did not hand back the '
                            'stored result')


DEFAULT_W = {'wt_name': 'db3', 'j1': 1, 'j2': 10, 'gamint': 0.0,
             'normalization': 1, 'weighted': True, 'p_exp': None}


def w_of(p):
    return {k: getattr(p, k) for k in DEFAULT_W}


def jq(q):
    return None if q is None else np.array(q)


def same_w(p, w):
    try:
        return all(getattr(p, k) == gen.dec(w[k]) for k in DEFAULT_W)
    except AttributeError:
        return False


def raw_outcome(fn):
    return kernel.outcome(fn)


def curves():
    out = []
    for ax in plt.gcf().axes:
        for ln in ax.lines:
            x, y = ln.get_data()
            out.append([np.asarray(x, float).ravel(),
                        np.asarray(y, float).ravel()])
    return out


def describe(c):
    return json.dumps({k: v for k, v in c.items()})
