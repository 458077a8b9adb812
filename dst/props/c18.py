import contextlib
import os
import platform
import re
import shlex
import shutil
import subprocess
import sys
import time
import types

import numpy as np

from .. import compare, env, gen, kernel, points
from ..env import api
from ..kernel import Violation

points.install(env.PKGDIR)

ID = 'C18'
COUNT = {'quick': 4000, 'thorough': 60000}
RULE = ('one run = a simulated machine (platform, installed commands, '
        'optional package, window-size default, DISPLAY, virtual clock) on '
        'which start_xvfb is requested 1-6 times with seeded arguments while '
        'commands fail, are killed, are missing or are interrupted and the '
        'machine changes between attempts (server installed or removed, '
        'default size changed); the log of launched servers, waits and '
        'environment changes of each attempt is judged; non-trivial: an '
        'attempt started a server or met a fault')
STATE_MEASURE = 'distinct (situation, arguments, outcome) tuples'
REACH = ['started', 'refused', 'fault.no_server', 'fault.platform',
         'fault.launch_fails', 'fault.lookup_fails', 'fault.interrupt_launch',
         'fault.interrupt_wait', 'fault.no_package', 'after_refusal',
         'no_wait', 'default_size', 'through_plot', 'through_plain_plot']
COMPONENTS = {'real': 'pymultifracs.viz.start_xvfb, '
                      'BiCumulants.plot_legendre_pv',
              'stub': 'os.system, os.popen, subprocess, shutil.which, '
                      'time.sleep and clocks, os.name, environment, pyvista'}
ASSUMPTIONS = ['the simulated shell understands lookups (which, command -v, '
               'type) and Xvfb command lines']


def plan(rng, tier):
    atts = []
    for _ in range(rng.randint(1, 6)):
        a = {'wait': rng.choice(['default', 0, 0, 0.0, .5, 1, 3, 7.25, 60]),
             'size': rng.choice([None, None, [800, 600], [1, 1],
                                 [1920, 1080], [640, 481],
                                 [rng.randint(1, 5000),
                                  rng.randint(1, 5000)]]),
             'kind': rng.choice(['list', 'tuple', 'array'])}
        a['fault'] = rng.choice([None, None, None, 'no_server', 'platform',
                                 'launch_fails', 'lookup_fails',
                                 'interrupt_launch', 'interrupt_wait',
                                 'interrupt_lookup', 'no_package', 'memory'])
        a['status'] = rng.choice([256, 32512, 32256, 9, 2, 139, -1])
        a['absent'] = rng.choice([256, 256, 512, 32512, 32256])
        a['os'] = rng.choice(['nt', 'java', 'nt'])
        if rng.random() < .3:
            a['default'] = [rng.randint(1, 4000), rng.randint(1, 4000)]
        if rng.random() < .2:
            a['display'] = rng.choice([None, ':0', 'host:10.0', ':99', ''])
        if rng.random() < .04:
            # requested by the 3-D plot of a bivariate spectrum
            a.update(via=rng.choice(['plot', 'plot', 'plain_plot']),
                     wait='default', size=None)
        atts.append(a)
    return {'atts': atts, 'display': rng.choice([None, ':0', 'x:1', ':99']),
            'default': rng.choice([[1024, 768], [300, 200]])}


def shrink(P, res=None):
    for a in gen.shrink_list(P['atts'], 1):
        yield {**P, 'atts': a}
    for i, a in enumerate(P['atts']):
        for k in ('default', 'display', 'via'):
            if k in a:
                yield gen.subst(P, ['atts', i], {x: y for x, y in a.items()
                                                 if x != k})
        for k, v in (('fault', None), ('size', None), ('wait', 0),
                     ('kind', 'list'), ('status', 256)):
            if a[k] != v:
                yield gen.subst(P, ['atts', i, k], v)


def spectrum():
    """A bivariate spectrum to plot."""
    x, y = (gen.recording({'n': 300, 'rep': 0, 'proc': 'bm', 'seed': s,
                           'faults': [], 'layout': 'C', 'dtype': 'f8'})
            for s in (1, 2))
    b = api.bivariate_analysis_full(
        x, y, p_exp=np.inf, j1=1, j2=4, weighted=True, n_cumul=2,
        q1=np.array([0, 1, 2]), q2=np.array([0, 1, 2]))
    return b.lwt.cumulants


class Scene:
    """What the simulated 3-D plotter was asked to show."""

    def __init__(self, sim):
        scene = self
        self.shown = []

        class Grid:
            def __init__(self, X, Y, Z):
                self.points = np.stack([np.asarray(a, float).ravel()
                                        for a in (X, Y, Z)], axis=1)

            def clip_box(self, bounds, invert=True):
                return self

        class Plotter:
            def __init__(self, *a, **k):
                self.mesh = []

            def add_mesh(self, mesh, *a, **k):
                self.mesh.append(mesh.points.copy())

            def show_grid(self, *a, **k):
                pass

            def show(self, *a, **k):
                scene.shown.append((self.mesh, os.environ.get('DISPLAY')))
        self.Grid, self.Plotter = Grid, Plotter


class Hang(BaseException):
    pass


class Sim:
    """The machine."""

    def __init__(self, P):
        self.default = list(P['default'])
        self.clock = 1000.
        self.total = 0.
        self.running = []

    def begin(self, a):
        self.a, self.fault = a, a['fault']
        self.events = []            # ('lookup'|'launch'|'wait', ...)
        self.met = set()
        if 'default' in a:
            self.default[:] = a['default']

    def meet(self, f):
        self.met.add(f)

    # -- commands ----------------------------------------------------------
    def command(self, argv, background):
        """Exit code of a command given as words."""
        words = [w for w in argv if w]
        words = words[:next((i for i, w in enumerate(words)
                             if w.startswith('>') or w.startswith('2>')
                             or w == '&'), len(words))]
        if words and os.path.basename(words[0]) in ('nohup', 'exec',
                                                    'setsid'):
            words = words[1:]
        if words[:2] == ['command', '-v'] or words[:1] in (
                ['which'], ['type'], ['hash'], ['whereis']):
            return self.lookup(words[-1])
        if words and os.path.basename(words[0]) == 'Xvfb':
            return self.launch(words, background)
        self.events.append(('other', ' '.join(words)))
        return 0

    def lookup(self, prog):
        self.events.append(('lookup', prog))
        if self.fault == 'interrupt_lookup':
            self.meet('interrupt_lookup')
            raise KeyboardInterrupt
        if self.fault == 'lookup_fails':
            self.meet('lookup_fails')
            return self.a['status']
        if prog.endswith('Xvfb'):
            if self.fault == 'no_server':
                self.meet('no_server')
                return self.a['absent']
            return 0
        return 0

    def launch(self, words, background):
        size = disp = None
        for i, w in enumerate(words):
            if re.fullmatch(r':\d+(\.\d+)?', w):
                disp = w
            m = re.fullmatch(r'(\d+)x(\d+)x(\d+)', w)
            if m:
                size = [int(m[1]), int(m[2])]
        if self.fault == 'interrupt_launch':
            self.meet('interrupt_launch')
            raise KeyboardInterrupt
        if self.fault == 'memory':
            self.meet('memory')
            raise MemoryError('simulated: fork failed')
        if self.fault == 'launch_fails':
            self.meet('launch_fails')
            self.events.append(('launch_failed', disp))
            return self.a['status']
        if self.fault == 'no_server':
            # backgrounded by a shell, so the shell itself succeeds
            self.events.append(('launch_failed', disp))
            return 0 if background else 32512
        self.events.append(('launch', disp, size))
        self.running.append(disp)
        if not background:
            raise Hang('waits for the server to end')
        return 0

    def shell(self, line):
        """Status of a shell command line, as os.system returns it."""
        try:
            words = shlex.split(line)
        except ValueError:
            return 512
        rest, cur, out, status = words, [], [], 0
        for w in rest + [';']:
            if w in (';', '&&', '||', '&'):
                if cur:
                    out.append((cur, w))
                cur = []
            else:
                cur.append(w)
        for cur, sep in out:
            if cur[-1].endswith('&') and not cur[-1].endswith('>&'):
                sep, cur = '&', cur[:-1] + [cur[-1][:-1]]
            status = self.command(cur, sep == '&')
            if sep == '&&' and status:
                break
            if sep == '||' and not status:
                break
        return status

    def system(self, line):
        return self.shell(line)

    def popen(self, line, *a, **k):
        sim = self

        class F:
            def __init__(self):
                self.status = sim.shell(line)
                self.text = '/usr/bin/Xvfb\n' if not self.status else ''

            def read(self):
                return self.text

            def close(self):
                return self.status or None

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False
        return F()

    def which(self, prog, *a, **k):
        return None if self.lookup(prog) else '/usr/bin/' + prog

    @staticmethod
    def code(status):
        return status >> 8 if status > 255 else (-status if status > 0
                                                 else 127 if status else 0)

    def words(self, args, k):
        if isinstance(args, (str, bytes)):
            return None
        return [str(x) for x in args]

    def run_(self, args, check=False, **k):
        w = self.words(args, k)
        st = self.shell(args) if w is None else self.command(w, False)
        c = self.code(st)
        if check and c:
            raise subprocess.CalledProcessError(c, args)
        return subprocess.CompletedProcess(args, c, '', '')

    def call(self, args, **k):
        return self.run_(args).returncode

    def check_call(self, args, **k):
        return self.run_(args, check=True).returncode

    def check_output(self, args, **k):
        self.run_(args, check=True)
        return b'/usr/bin/Xvfb\n'

    def getstatusoutput(self, line, **k):
        return self.code(self.shell(line)), ''

    def Popen(self, args, *a, **k):
        w = self.words(args, k)
        st = self.shell(args) if w is None else self.command(w, True)
        c = self.code(st)
        if c and w is not None:
            raise FileNotFoundError(2, 'No such file or directory')

        class Proc:
            pid = 4242
            returncode = None if not c else c

            def poll(self):
                return self.returncode

            def wait(self, timeout=None):
                return c

            def communicate(self, *a, **k):
                return b'', b''
        return Proc()

    # -- time --------------------------------------------------------------
    def sleep(self, s):
        if s < 0:
            raise ValueError('sleep length must be non-negative')
        if self.fault == 'interrupt_wait':
            self.meet('interrupt_wait')
            raise KeyboardInterrupt
        self.events.append(('wait', s))
        self.clock += s
        self.total += s

    def now(self):
        self.clock += 1e-6
        return self.clock


@contextlib.contextmanager
def machine(sim, a, scene=None):
    """Everything the function can reach goes through the simulator."""
    pv = types.ModuleType('pyvista')
    pv.rcParams = {'window_size': sim.default}
    pv.global_theme = types.SimpleNamespace(window_size=sim.default)
    if scene is not None:
        pv.StructuredGrid, pv.Plotter = scene.Grid, scene.Plotter
    repl = []

    def put(obj, attr, new):
        old = getattr(obj, attr)
        repl.append((obj, attr, old))
        setattr(obj, attr, new)
        return old
    viz = api.viz
    swaps = [(os, 'system', sim.system), (os, 'popen', sim.popen),
             (shutil, 'which', sim.which), (subprocess, 'run', sim.run_),
             (subprocess, 'call', sim.call), (subprocess, 'Popen', sim.Popen),
             (subprocess, 'check_call', sim.check_call),
             (subprocess, 'check_output', sim.check_output),
             (subprocess, 'getstatusoutput', sim.getstatusoutput),
             (time, 'sleep', sim.sleep), (time, 'time', sim.now),
             (time, 'monotonic', sim.now), (time, 'perf_counter', sim.now)]
    saved = sys.modules.get('pyvista')
    try:
        for obj, attr, new in swaps:
            old = put(obj, attr, new)
            for n, v in list(vars(viz).items()):
                if v is old:
                    put(viz, n, new)
        sys.modules['pyvista'] = None if a['fault'] == 'no_package' else pv
        if a['fault'] == 'platform':
            put(os, 'name', a['os'])
            nt = a['os'] == 'nt'
            put(sys, 'platform', 'win32' if nt else 'java')
            put(platform, 'system', lambda: 'Windows' if nt else 'Java')
        yield
    finally:
        for obj, attr, old in reversed(repl):
            setattr(obj, attr, old)
        if saved is None:
            sys.modules.pop('pyvista', None)
        else:
            sys.modules['pyvista'] = saved


def execute(P, ctx):
    sim = Sim(P)
    if P['display'] is None:
        os.environ.pop('DISPLAY', None)
    else:
        os.environ['DISPLAY'] = P['display']
    refused = False
    for i, a in enumerate(P['atts']):
        if 'display' in a:
            if a['display'] is None:
                os.environ.pop('DISPLAY', None)
            else:
                os.environ['DISPLAY'] = a['display']
        ok = attempt(sim, a, ctx, i)
        if refused and ok:
            ctx.count('after_refusal')
        refused = refused or not ok
    ctx.count('sim_seconds', round(sim.total, 3))


def attempt(sim, a, ctx, i):
    sim.begin(a)
    kw = {}
    if a['wait'] != 'default':
        kw['wait'] = a['wait']
    size = a['size']
    if size is not None:
        kw['window_size'] = {'list': list, 'tuple': tuple,
                             'array': np.array}[a['kind']](size)
    before = dict(os.environ)
    want_size = list(size if size is not None else sim.default)
    dflt = list(sim.default)
    via = a.get('via')
    obj = scene = None
    if via:
        obj, scene = spectrum(), Scene(sim)
        image = compare.digest(compare.flatten(obj))
    with machine(sim, a, scene):
        try:
            if via:
                obj.plot_legendre_pv(resolution=6, use_ipyvtk=via == 'plot')
            else:
                api.viz.start_xvfb(**kw)
            out = ('ok',)
        except KeyboardInterrupt:
            out = ('exc', 'KeyboardInterrupt')
        except Hang as e:
            out = ('hang', str(e))
        except Exception as e:
            out = ('exc', type(e).__name__, str(e)[:100])
    after = dict(os.environ)
    launches = [e for e in sim.events if e[0] == 'launch']
    waits = [e for e in sim.events if e[0] == 'wait']
    waited = sum(e[1] for e in waits)
    f = a['fault']
    if f in ('platform', 'no_package'):
        sim.meet(f)
    if f == 'no_server':
        sim.meet(f)
    for m in sim.met:
        ctx.count('fault.' + m)
    ctx.state((f, a['wait'], size is None, out[:2]))
    ctx.log(i, f, via, kw and sorted(kw), out[:2], sim.events,
            after.get('DISPLAY'))
    what = f'attempt {i} (start_xvfb({", ".join(f"{k}={v}" for k, v in kw.items())})' \
           f', fault: {f})'
    if via:
        what = f'attempt {i} ({via}, fault: {f})'
        ctx.count('through_' + via)
        if compare.digest(compare.flatten(obj)) != image:
            raise Violation('result-modified', f'{what} modified the result')
        if len(scene.shown) != (out[0] == 'ok'):
            raise Violation('shown', f'{what} ends with {out} and shows '
                            f'{len(scene.shown)} plots')
        if scene.shown and (len(scene.shown[0][0]) != 1 or
                            scene.shown[0][0][0].size == 0):
            raise Violation('shown', f'{what} shows an empty scene')
        if scene.shown and scene.shown[0][1] != after.get('DISPLAY'):
            raise Violation('display', f'{what}: the plot was shown on '
                            f'{scene.shown[0][1]}')
    if via == 'plain_plot':
        if f == 'no_package':
            if out[0] == 'ok':
                raise Violation('silent-failure', f'{what} returns')
        elif out[0] != 'ok':
            raise Violation('refuses', f'{what} fails with {out[1:]}')
        if sim.events or after != before:
            raise Violation('starts-anyway', f'{what}, which asked for no '
                            f'server: {sim.events}')
        return True
    if size is not None and sim.default != dflt:
        raise Violation('changes-default', f'{what} changes the default '
                        'window size')
    if out[0] == 'hang':
        raise Violation('blocks', f'{what} {out[1]}')
    other = {k: v for k, v in after.items() if k != 'DISPLAY'} != \
            {k: v for k, v in before.items() if k != 'DISPLAY'}
    if other:
        raise Violation('environment', f'{what} changes other variables')
    if launches or sim.met:
        ctx.nontrivial = True

    must_fail = f in ('platform', 'no_server') or \
        (f == 'no_package' and size is None) or 'launch_fails' in sim.met
    must_work = not sim.met
    if out[0] == 'ok':
        if must_fail:
            raise Violation('silent-failure', f'{what} returns although no '
                            'server can have been started')
        if len(launches) != 1:
            raise Violation('not-one-server', f'{what} starts '
                            f'{len(launches)} servers: {sim.events}')
        _, disp, got = launches[0]
        if got != want_size:
            raise Violation('window-size', f'{what} starts a server of size '
                            f'{got} instead of {want_size}')
        d = after.get('DISPLAY')
        if d is None or d.split('.')[0] != (disp or '?').split('.')[0]:
            raise Violation('display', f'{what}: the server is {disp}, '
                            f'DISPLAY is {d}')
        w = 3 if a['wait'] == 'default' else a['wait']
        if abs(waited - w) > 1e-3 or (w == 0 and waits):
            raise Violation('wait', f'{what} waits {waited} s in '
                            f'{len(waits)} sleeps')
        if waits and sim.events.index(waits[0]) < \
                sim.events.index(launches[0]):
            raise Violation('wait', f'{what} waits before it starts the '
                            'server')
        ctx.count('started')
        if w == 0:
            ctx.count('no_wait')
        if size is None:
            ctx.count('default_size')
        return True
    if must_work:
        raise Violation('refuses', f'{what} fails with {out[1:]} on a '
                        'machine where everything works')
    ctx.count('refused')
    if f == 'interrupt_wait' or (f in ('interrupt_launch', 'memory')
                                 and launches):
        return False
    if launches:
        raise Violation('starts-anyway', f'{what} fails with {out[1:]} but '
                        'has started a server')
    if after.get('DISPLAY') != before.get('DISPLAY'):
        raise Violation('display-marked', f'{what} fails with {out[1:]} but '
                        f'DISPLAY changed from {before.get("DISPLAY")!r} to '
                        f'{after.get("DISPLAY")!r}')
    if waits and f in ('platform', 'no_server') and waited > 0:
        raise Violation('wait', f'{what} waits {waited} s for a server that '
                        'is not there')
    return False
