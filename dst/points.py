"""Failure points and step points inside the code under test.

sys.monitoring events of the package's own code objects give
 * CALL events on calls into numerical / plotting libraries: the points at
   which a computation can fail (MemoryError, KeyboardInterrupt delivered
   while the library works, library errors). A fault is raised in place of
   the call, exactly as if the library call itself had failed.
 * PY_START, backward JUMP and C_RETURN events: where the interpreter looks
   for pending signals, and so where a KeyboardInterrupt can arrive. Within
   signal.py, whose methods only keep the books, interrupts arrive in the
   library and package code they call, not between two of their statements.
 * LINE and CALL events as step points for the thread scheduler.
No change of the code under test is needed. Events are only enabled while a
check needs them. Points inside clean-up code (finally blocks, exception
handlers that raise, __exit__ methods, and what they call) are left out: a second
failure while a first one is being cleaned up after is not simulated.
"""
import ast
import gc
import sys
import threading
import types

import numpy as np

from . import sched

mon = sys.monitoring
FAULT_EVENTS = mon.events.CALL | mon.events.PY_START | mon.events.JUMP
TOOL = 3
FOREIGN = {'numpy', 'scipy', 'pywt', 'sklearn', 'matplotlib', 'seaborn',
           'pandas', 'mpl_toolkits'}
SKIP = {'__enter__', '__exit__', 'errstate'}

_codes = {}
_armed = {}       # thread ident -> [countdown, exception factory, fired]
_counting = {}    # thread ident -> [narrow sites, all sites]
_steps_on = False
_pkgdir = None
_installed = False


def _walk(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from _walk(c)


def _find_codes():
    global _any_cleanup
    for o in gc.get_objects():
        if type(o) is types.FunctionType:
            c = o.__code__
            if c.co_filename.startswith(_pkgdir) and c not in _codes:
                for k in _walk(c):
                    _codes[k] = True
                if _cleanup_lines(c.co_filename):
                    _any_cleanup = True


def is_foreign(f):
    if isinstance(f, np.ufunc):
        return True
    if getattr(f, '__name__', None) in SKIP:
        return False
    m = getattr(f, '__module__', None)
    if isinstance(m, str):
        return m.split('.', 1)[0] in FOREIGN
    oc = getattr(f, '__objclass__', None)
    if oc is not None:
        return (oc.__module__ or '').split('.', 1)[0] in FOREIGN
    s = getattr(f, '__self__', None)
    if s is not None:
        return (type(s).__module__ or '').split('.', 1)[0] in FOREIGN
    return False


_any_cleanup = False
_cleanup = {}     # file name -> lines of clean-up code


def _cleanup_lines(filename):
    if filename not in _cleanup:
        lines = set()
        try:
            with open(filename) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            blocks = []
            if isinstance(n, ast.Try):
                blocks = [*n.finalbody,
                          *(b for h in n.handlers for b in h.body
                            if any(isinstance(m, ast.Raise)
                                   for m in ast.walk(h)))]
            elif isinstance(n, ast.FunctionDef) and n.name == '__exit__':
                blocks = n.body
            for b in blocks:
                lines.update(range(b.lineno, b.end_lineno + 1))
        _cleanup[filename] = lines
    return _cleanup[filename]


def _cleaning_up(f):
    if not _any_cleanup:
        return False
    while f is not None:
        c = f.f_code
        if c.co_filename.startswith(_pkgdir) and \
                f.f_lineno in _cleanup_lines(c.co_filename):
            return True
        f = f.f_back
    return False


def _point(code, off, what, narrow):
    """A failure point is reached (narrow: of any kind, else: only an
    interrupt can arrive)."""
    ident = threading.get_ident()
    a = _armed.get(ident)
    c = _counting.get(ident)
    if a is None and c is None or a is not None and a[2] is not None:
        return
    if not narrow and code.co_filename.endswith('/signal.py'):
        return
    if _cleaning_up(sys._getframe(2)):
        return
    if c is not None:
        site = (code, off, narrow)
        if narrow:
            c[0].append(site)
        c[1].append(site)
    if a is not None and (narrow or a[3]):
        a[0] -= 1
        if a[0] < 0:
            a[2] = (code.co_name, what)
            raise a[1]()


def _on_call(code, off, f, arg0):
    if (_armed or _counting) and is_foreign(f):
        _point(code, off, getattr(f, '__name__', str(type(f))), True)
    if _steps_on and sched.CURRENT is not None:
        sched.CURRENT.step(code.co_name, (code, -1 - off))


def _on_start(code, off):
    if _armed or _counting:
        _point(code, off, 'start', False)


def _on_jump(code, off, dest):
    if dest < off and (_armed or _counting):
        _point(code, off, 'loop', False)


def _on_creturn(code, off, f, arg0):
    if (_armed or _counting) and getattr(f, '__name__', None) not in SKIP:
        _point(code, off, 'after ' + getattr(f, '__name__', '?'), False)


def _on_line(code, line):
    if _steps_on and sched.CURRENT is not None:
        sched.CURRENT.step(code.co_name, (code, line))


def install(pkgdir):
    global _pkgdir, _installed
    _pkgdir = pkgdir
    if not _installed:
        mon.use_tool_id(TOOL, 'dst')
        mon.register_callback(TOOL, mon.events.CALL, _on_call)
        mon.register_callback(TOOL, mon.events.LINE, _on_line)
        mon.register_callback(TOOL, mon.events.PY_START, _on_start)
        mon.register_callback(TOOL, mon.events.JUMP, _on_jump)
        mon.register_callback(TOOL, mon.events.C_RETURN, _on_creturn)
        _installed = True


def _set(ev):
    _find_codes()
    for c in _codes:
        mon.set_local_events(TOOL, c, ev)


class steps:
    """Enable step points (with failure points) for scheduled threads."""

    def __enter__(self):
        global _steps_on
        _steps_on = True
        _set(FAULT_EVENTS | mon.events.LINE)

    def __exit__(self, *a):
        global _steps_on
        _steps_on = False
        _set(0)


class FaultFired(Exception):
    pass


def _exc(kind):
    if kind == 'memory':
        return lambda: MemoryError('simulated: out of memory')
    if kind == 'interrupt':
        return lambda: KeyboardInterrupt('simulated interrupt')
    if kind == 'linalg':
        return lambda: np.linalg.LinAlgError('simulated library failure')
    if kind == 'float':
        return lambda: FloatingPointError('simulated floating point trap')
    if kind == 'os':
        return lambda: OSError(5, 'simulated I/O error')
    raise ValueError(kind)


KINDS = ['memory', 'interrupt', 'linalg', 'float']


class Sites:
    """The failure points a call passes, in order."""

    def __init__(self, narrow, wide):
        self.lists = []
        for sites in (narrow, wide):
            ids = {}
            self.lists.append([ids.setdefault(x, len(ids)) for x in sites])

    def __len__(self):
        return len(self.lists[0])

    def at(self, kind, spec):
        """Number of the point a fault is injected at. An integer counts
        points (modulo their number); a fraction selects a place in the code,
        each being as likely as any other, and one of the times it is
        passed."""
        sites = self.lists[kind == 'interrupt']
        if not sites:
            return 0
        if not isinstance(spec, float):
            return spec % len(sites)
        u = spec * (max(sites) + 1)
        place = int(u)
        u -= place
        times = [i for i, x in enumerate(sites) if x == place]
        if u < .35:
            return times[0]
        if u > .85:
            return times[-1]
        return times[int((u - .35) / .5 * (len(times) - 1) + .5)]


def spec(rng):
    """Random fault: [kind, where]."""
    return [rng.choice(KINDS),
            rng.choice([0, 1, 3, -1, -2, rng.randrange(1000)]
                       + [round(rng.random(), 5) for _ in range(6)])]


def survey(fn):
    """Run fn() and return (failure points passed, outcome)."""
    ident = threading.get_ident()
    own = not _steps_on
    if own:
        _set(FAULT_EVENTS)
    _counting[ident] = [], []
    try:
        out = fn()
    finally:
        n = _counting.pop(ident)
        if own:
            _set(0)
    return Sites(*n), out


def passes(fn, *args, **kw):
    """Failure points fn passes, found in a throw-away process."""
    from . import kernel
    return kernel.fork_eval(
        lambda: survey(lambda: kernel.outcome(fn, *args, **kw))[0])


class fault:
    """with fault(kind, n) as f: the n-th failure point reached by this thread
    fails. f.fired tells where, or None if it was not reached. Interrupts
    arrive at more points than other failures."""

    def __init__(self, kind, n):
        self.kind, self.n = kind, n

    def __enter__(self):
        self.own = not _steps_on
        self.ident = threading.get_ident()
        if self.own:
            _set(FAULT_EVENTS)
        _armed[self.ident] = self.a = [self.n, _exc(self.kind), None,
                                       self.kind == 'interrupt']
        return self

    def __exit__(self, *a):
        _armed.pop(self.ident, None)
        if self.own:
            _set(0)
        return False

    @property
    def fired(self):
        return self.a[2]
