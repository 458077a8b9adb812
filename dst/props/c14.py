import builtins
import errno
import io
import os
import shutil
import tempfile

import numpy as np

from .. import env, gen, kernel, compare, plots
from ..env import plt
from ..kernel import Violation

ID = 'C14'
HISTORY = True
COUNT = {'quick': 130, 'thorough': 3000}
RULE = ('one run = a seeded history of 2-6 plot calls of results of one or '
        'two recordings (structure functions, scaling function, cumulants, '
        'spectrum, h_min, PSDs, fractal, bivariate, multiscale, Legendre), '
        'some with a file name and with the storage failing at a seeded '
        'write (disk full, I/O error, error at close, directory missing, '
        'permission); what each call draws is compared with the same call '
        'alone in a pristine process, images with a rendering of the figure; '
        'non-trivial: at least two plots in one process, or a storage fault')
STATE_MEASURE = 'distinct (previous plot, plot, figure count) triples'
REACH = ['fault.enospc', 'fault.eio', 'fault.close', 'fault.nodir',
         'image_checked']
COMPONENTS = {'real': 'pymultifracs, matplotlib (Agg), PIL, pandas, seaborn',
              'stub': 'file objects of the image writer (fault injection at '
                      'write and close, on a real scratch file)'}
FAULTS = ['enospc', 'eio', 'close', 'nodir', 'perm']


def plan(rng, tier):
    n = rng.randint(200, 400)
    sigs = [gen.rand_sig(rng, n, n, rep=0, faults=rng.choice([0, 0, 1]),
                         layouts=False) for _ in range(2)]
    kinds = plots.KINDS
    if rng.random() < .4:
        kinds = rng.sample(sorted(set(kinds)), 3)
    if rng.random() < .04:
        kinds = kinds + ['p_legendre']
    calls = []
    pool = [plots.rand_plot(rng, sigs, kinds) for _ in range(rng.choice(
        [1, 2, 3]))]
    for _ in range(rng.randint(2, 6)):
        op = dict(rng.choice(pool))
        if op['op'] in plots.SAVES and rng.random() < .45:
            op['save'] = {'fmt': rng.choice(['png', 'png', 'png', 'svg',
                                             'pdf']),
                          'existing': rng.random() < .3}
            if rng.random() < .7:
                op['save']['fault'] = [rng.choice(FAULTS),
                                       rng.choice([0, 1, 2, 3, 5, 8]),
                                       rng.choice([0, 1, 7, 4096])]
        elif rng.random() < .1:
            op['close'] = True
        if rng.random() < .3:
            op['figure'] = True
        calls.append(op)
    return {'sigs': sigs, 'calls': calls}


def shrink(P, res=None):
    for c in gen.shrink_list(P['calls'], 1):
        yield {**P, 'calls': c}
    for i, c in enumerate(P['calls']):
        for k in ('save', 'close', 'figure'):
            if k in c:
                d = dict(c)
                del d[k]
                yield gen.subst(P, ['calls', i], d)
        if c.get('save', {}).get('fault'):
            yield gen.subst(P, ['calls', i, 'save', 'fault'],
                            [c['save']['fault'][0], 0, 0])
    for i, s in enumerate(P['sigs']):
        for t in gen.shrink_sig(s):
            yield gen.subst(P, ['sigs', i], t)


class FaultyFile(io.RawIOBase):
    """A file on a failing disk; only what was written before the failure
    reaches the real file."""

    def __init__(self, f, kind, at, part, st):
        self.f, self.kind, self.at, self.part = f, kind, at, part
        self.st = st
        self.n = 0

    def write(self, b):
        if self.kind in ('enospc', 'eio') and self.n == self.at \
                or self.st['fired']:
            if not self.st['fired']:
                self.f.write(bytes(b)[:self.part])      # torn write
            self.st['fired'] = True
            raise OSError(errno.ENOSPC if self.kind == 'enospc'
                          else errno.EIO, 'simulated storage failure')
        self.n += 1
        return self.f.write(b)

    def close(self):
        if not self.closed:
            super().close()
            self.f.close()
            if self.kind == 'close' and not self.st['fired']:
                self.st['fired'] = True
                raise OSError(errno.EIO, 'simulated failure at close')

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def read(self, *a):
        return self.f.read(*a)

    def flush(self):
        if not self.closed:
            self.f.flush()

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True


class Storage:
    """Seam over open() for files below root."""

    def __init__(self, root, fault):
        self.root, self.fault = root, fault
        self.st = {'fired': False, 'opened': 0}

    def __enter__(self):
        self.real = builtins.open
        st, fault, root, real = self.st, self.fault, self.root, self.real

        def sim_open(file, mode='r', *a, **k):
            try:
                name = os.fspath(file)
            except TypeError:
                return real(file, mode, *a, **k)
            if not isinstance(name, str) or not name.startswith(root) \
                    or 'w' not in mode:
                return real(file, mode, *a, **k)
            st['opened'] += 1
            if fault is None:
                return real(file, mode, *a, **k)
            if fault[0] == 'perm':
                st['fired'] = True
                raise PermissionError(errno.EACCES, 'simulated', name)
            if fault[0] == 'nodir':
                st['fired'] = True
                raise FileNotFoundError(errno.ENOENT, 'simulated', name)
            raw = FaultyFile(real(name, 'w+b'), fault[0], fault[1], fault[2],
                             st)
            if 'b' in mode:
                return raw
            return io.TextIOWrapper(raw, encoding=k.get('encoding', 'utf-8'),
                                    write_through=True)
        builtins.open = sim_open
        io.open, self.io_open = sim_open, io.open
        return self

    def __exit__(self, *a):
        builtins.open = self.real
        io.open = self.io_open


def execute(P, ctx):
    scratch = tempfile.mkdtemp(prefix='dst-c14-')
    try:
        _execute(P, ctx, scratch)
    finally:
        plt.close('all')
        shutil.rmtree(scratch, ignore_errors=True)


def alone(op, P):
    def fn():
        c = plots.prepare(op, [gen.recording(s) for s in P['sigs']])
        return compare.flatten(plots.observe(c)[0])
    return kernel.pristine_eval(kernel.outcome, fn)


def _execute(P, ctx, scratch):
    sigs = [gen.recording(s) for s in P['sigs']]
    prev = None
    objs = {}
    for i, op in enumerate(P['calls']):
        if op.get('close'):
            plt.close('all')
        sv = op.get('save')
        core = {k: v for k, v in op.items() if k not in ('save', 'close',
                                                          'figure')}
        where = f'plot {i} ({core["op"]}, {core.get("kw", {})})'
        exp = alone(core, P)
        if exp[0] != 'ok' and core['op'] == 'p_legendre':
            # no point of the spectrum lies in the plotted range
            ctx.count('nothing_to_draw')
            continue
        if exp[0] != 'ok':
            # a plot that fails even alone
            raise Violation('plot-fails-' + exp[1], f'{where} raises {exp[1]}: '
                            f'{exp[2]}')
        fname = None
        if sv:
            fname = os.path.join(scratch, f'im{i}.{sv["fmt"]}')
            if sv['existing']:
                with open(fname, 'wb') as f:
                    f.write(b'previous contents' * 9)
        try:
            call = plots.prepare(core, sigs, fname)
        except Exception as e:
            raise Violation('plot-prepare-fails', f'{where}: preparing it raised '
                            f'{type(e).__name__}: {e}')
        before = compare.snapshot(call.inputs[:1] if fname or 'ax' in str(
            core.get('kw')) else call.inputs)
        fault = sv.get('fault') if sv else None
        if fault:
            with Storage(scratch, fault) as st:
                o = kernel.outcome(call)
            if st.st['fired']:
                ctx.count('fault.' + fault[0])
                ctx.nontrivial = True
                if o[0] == 'ok':
                    raise Violation('save-failure-hidden',
                                    f'{where}: the storage failed '
                                    f'({fault[0]}) while the image was '
                                    'written, but the call returned '
                                    'normally')
            elif o[0] != 'ok':
                raise Violation('plot-fails-' + o[1], f'{where} raised {o[1]}: '
                                f'{o[2]}')
            ctx.log(i, core['op'], fault, st.st['fired'], o[0])
            # the failure is cleared; the call is repeated below
        if op.get('figure'):
            plt.figure()
        used = plots.occupied()
        open_figs = plots.figures()
        with Storage(scratch, None) as st:
            o = kernel.outcome(plots.observe, call)
        if o[0] != 'ok':
            raise Violation('plot-fails-' + o[1], f'{where} raised {o[1]}: {o[2]} '
                            f'(after {prev})')
        desc, figs = o[1]
        got = compare.flatten(desc)
        want = exp[1]
        if core['op'] not in plots.OWN and any(
                ax in used for f in figs for ax in f.axes):
            # earlier curves fix the next colour; earlier labels stay where
            # the call sets none
            ctx.count('shared_axes')
            got = {k: v for k, v in got.items() if not k.endswith('[color]')
                   and not ('[axes]' in k and want.get(k) == '')}
            want = {k: v for k, v in want.items() if k in got}
        if any(f in open_figs for f in figs):
            # a figure that is used again keeps its size
            ctx.count('reused_figure')
            want = {k: v for k, v in want.items() if '[size]' not in k
                    and '[pos]' not in k}
            got = {k: v for k, v in got.items() if k in want
                   or not ('[size]' in k or '[pos]' in k)}
        d = compare.diff(got, want, rtol=1e-7)
        if d:
            raise Violation('draws-differently', f'{where}, after {prev}, '
                            f'does not draw what it draws alone: {d}')
        after = compare.snapshot(call.inputs[:1] if fname or 'ax' in str(
            core.get('kw')) else call.inputs)
        d = compare.snapshot_diff(before, after)
        if d:
            raise Violation('plot-changes-result', f'{where}: {d}')
        if fname:
            check_image(fname, sv['fmt'], figs, where, ctx)
        ctx.log_result(core['op'], compare.flatten(desc))
        ctx.count('plots')
        if prev is not None:
            ctx.nontrivial = True
        ctx.state((prev, core['op'], len(plt.get_fignums()), bool(fault)))
        prev = core['op']
        if prev == 'p_legendre':
            plt.figure()    # the next plot is not drawn into a surface plot
    # results shown earlier stay on screen unless their figure was reused
    ctx.count('figures', len(plt.get_fignums()))


def check_image(fname, fmt, figs, where, ctx):
    if not os.path.exists(fname):
        raise Violation('image-missing', f'{where}: no file was written')
    if len(figs) != 1:
        raise Violation('image-incomplete', f'{where}: drew into '
                        f'{len(figs)} figures')
    with open(fname, 'rb') as f:
        data = f.read()
    if fmt == 'png':
        import matplotlib.image as mi
        try:
            a = mi.imread(io.BytesIO(data), format='png')
        except Exception as e:
            raise Violation('image-incomplete', f'{where}: the image cannot '
                            f'be read: {type(e).__name__}: {e}')
        buf = io.BytesIO()
        figs[0].savefig(buf, format='png')
        b = mi.imread(io.BytesIO(buf.getvalue()), format='png')
        if a.shape != b.shape or not np.array_equal(a, b):
            raise Violation('image-incomplete', f'{where}: the saved image '
                            'is not the figure that was drawn')
    elif fmt == 'svg':
        if not data.rstrip().endswith(b'</svg>'):
            raise Violation('image-incomplete', f'{where}: truncated svg')
    elif not data.rstrip().endswith(b'%%EOF'):
        raise Violation('image-incomplete', f'{where}: truncated pdf')
    ctx.count('image_checked')
