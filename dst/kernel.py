"""The simulation kernel: isolated runs, oracles, outcomes, verdicts.

Every simulated run executes in a freshly forked copy of a pristine process in
which the package has been imported but never used; every oracle value is
computed in its own such copy, taken before the run did anything (see Zygote:
what a run leaves behind in the process cannot reach its oracles). What a run does is a pure function of its plan
(JSON) and of the code under test.
"""
import atexit
import hashlib
import importlib
import json
import marshal
import os
import pickle
import random
import select
import shutil
import signal as _signal
import sys
import tempfile
import time
import traceback
import types
from collections import Counter

import numpy as np

from . import compare, sched


class Violation(Exception):
    def __init__(self, kind, message, signature=None):
        super().__init__(message)
        self.kind, self.message = kind, message
        self.signature = signature or kind


class HarnessError(Exception):
    pass


class Ctx:
    """Recorder of one run."""

    def __init__(self):
        self.counts = Counter()
        self.h = hashlib.sha256()
        self.nontrivial = False
        self.events = 0
        self.states = set()
        self.sample = []
        self.extra = {}
        self.info = {}      # findings about the run (e.g. taken switches)

    def count(self, name, k=1):
        self.counts[name] += k

    def log(self, *items):
        """Event log: hashed for determinism checks, never read by the
        run."""
        s = json.dumps(items, default=str)
        self.events += 1
        self.h.update(s.encode())
        if len(self.sample) < 40:
            self.sample.append(s[:300])

    def log_result(self, name, flat):
        self.log(name, compare.digest(compare.coarse(flat)))

    def state(self, s):
        self.states.add(hashlib.md5(repr(s).encode()).hexdigest()[:12])


def outcome(fn, *a, **k):
    """('ok', value) or ('exc', type name, message). Interrupts simulated by
    the fault injector are outcomes too."""
    try:
        return ('ok', fn(*a, **k))
    except Exception as e:
        return ('exc', type(e).__name__, str(e)[:300])
    except KeyboardInterrupt as e:
        return ('exc', 'KeyboardInterrupt', str(e)[:300])
    except sched.Deadlock as e:
        return ('exc', 'Deadlock', str(e)[:300])


def flat_outcome(fn, *a, **k):
    o = outcome(fn, *a, **k)
    return ('ok', compare.flatten(o[1])) if o[0] == 'ok' else o


_disks = None


def _disk_root():
    """Where the private disks of runs and oracles are (made once, by the
    main process)."""
    global _disks
    if _disks is None:
        _disks = tempfile.mkdtemp(prefix='dst-disk-')
        atexit.register(shutil.rmtree, _disks, True)
    return _disks


def _own_disk():
    """Give this (just forked) process an empty disk of its own: what a run
    leaves in files reaches neither its oracles nor another run."""
    d = os.path.join(_disk_root(), str(os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    for k in ('HOME', 'TMPDIR', 'TEMP', 'TMP', 'XDG_CACHE_HOME'):
        os.environ[k] = d
    tempfile.tempdir = d


def _drop_disk(pid):
    d = os.path.join(_disk_root(), str(pid))
    try:
        os.rmdir(d)
    except FileNotFoundError:
        pass
    except OSError:
        shutil.rmtree(d, ignore_errors=True)


def _spawn(fn):
    """Fork; the child sends pickle(fn()) through a pipe."""
    _disk_root()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                _own_disk()
                out = ('value', fn())
                data = pickle.dumps(out, protocol=4)
            except BaseException:
                data = pickle.dumps(('error', traceback.format_exc()))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def fork_eval(fn, timeout=240):
    """Value of fn() computed in a forked copy of this process."""
    pid, r = _spawn(fn)
    buf = []
    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, _signal.SIGKILL)
                os.waitpid(pid, 0)
                _drop_disk(pid)
                raise HarnessError('oracle process timed out')
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
    finally:
        os.close(r)
    os.waitpid(pid, 0)
    _drop_disk(pid)
    data = b''.join(buf)
    if not data:
        raise HarnessError('oracle process died')
    kind, val = pickle.loads(data)
    if kind == 'error':
        raise HarnessError('oracle process failed:\n' + val)
    return val


def _pack(fn):
    """Pickle a function, closures included (both sides are forks of one
    process, so code objects can be marshalled)."""
    if isinstance(fn, types.FunctionType):
        mod = sys.modules.get(fn.__module__)
        if fn.__closure__ is None and \
                getattr(mod, fn.__qualname__, None) is fn:
            return ('ref', fn.__module__, fn.__qualname__)
        return ('code', marshal.dumps(fn.__code__), fn.__module__,
                tuple(_pack(v) for v in fn.__defaults__ or ()),
                tuple(_pack(c.cell_contents) for c in fn.__closure__ or ()))
    if isinstance(fn, types.ModuleType):
        return ('module', fn.__name__)
    if isinstance(fn, (tuple, list)) and any(callable(v) for v in fn):
        return ('seq', type(fn), [_pack(v) for v in fn])
    if isinstance(fn, dict) and any(callable(v) for v in fn.values()):
        return ('map', [(k, _pack(v)) for k, v in fn.items()])
    return ('value', fn)


def _unpack(t):
    if t[0] == 'ref':
        return getattr(sys.modules[t[1]], t[2])
    if t[0] == 'code':
        return types.FunctionType(
            marshal.loads(t[1]), vars(importlib.import_module(t[2])), 'f',
            tuple(_unpack(v) for v in t[3]),
            tuple(types.CellType(_unpack(v)) for v in t[4]))
    if t[0] == 'module':
        return importlib.import_module(t[1])
    if t[0] == 'seq':
        return t[1](_unpack(v) for v in t[2])
    if t[0] == 'map':
        return {k: _unpack(v) for k, v in t[1]}
    return t[1]


def _read(fd, n, end=None):
    buf = bytearray()
    while len(buf) < n:
        if end is not None:
            left = end - time.monotonic()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                raise HarnessError('oracle process timed out')
        b = os.read(fd, min(n - len(buf), 1 << 20))
        if not b:
            raise EOFError
        buf += b
    return bytes(buf)


def _send(fd, data):
    data = len(data).to_bytes(8, 'little') + data
    view = memoryview(data)
    while view:
        view = view[os.write(fd, view[:1 << 20]):]


class Zygote:
    """A copy of the process taken before a run starts. It stays untouched;
    each oracle is computed in a fork of it."""

    def __init__(self):
        _disk_root()
        req_r, self.req = os.pipe()
        self.ans, ans_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.req)
            os.close(self.ans)
            try:
                self._serve(req_r, ans_w)
            finally:
                os._exit(0)
        os.close(req_r)
        os.close(ans_w)

    @staticmethod
    def _serve(req, ans):
        while True:
            try:
                n = int.from_bytes(_read(req, 8), 'little')
                data = _read(req, n)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(req)
                    try:
                        _own_disk()
                        f, a, k = (_unpack(t) for t in pickle.loads(data))
                        out = pickle.dumps(('value', f(*a, **k)), protocol=4)
                    except BaseException:
                        out = pickle.dumps(('error', traceback.format_exc()))
                    _send(ans, out)
                    code = 0
                finally:
                    os._exit(code)
            status = os.waitpid(pid, 0)[1]
            _drop_disk(pid)
            if status:
                _send(ans, pickle.dumps(('error', 'oracle process died')))

    def eval(self, fn, a, k, timeout=240):
        _send(self.req, pickle.dumps((_pack(fn), _pack(a), _pack(k)),
                                     protocol=4))
        end = time.monotonic() + timeout
        try:
            n = int.from_bytes(_read(self.ans, 8, end), 'little')
            kind, val = pickle.loads(_read(self.ans, n, end))
        except EOFError:
            raise HarnessError('oracle server died') from None
        if kind == 'error':
            raise HarnessError('oracle process failed:\n' + val)
        return val

    def close(self):
        os.close(self.req)
        os.close(self.ans)
        os.waitpid(self.pid, 0)


ZYGOTE = None


def pristine_eval(fn, *a, **k):
    """Value of fn(*a, **k) computed in a copy of the process as it was when
    the run started."""
    if ZYGOTE is None:
        return fork_eval(lambda: fn(*a, **k))
    return ZYGOTE.eval(fn, a, k)


def solo(fn, *a, **k):
    """Flattened outcome of a call made alone in a pristine process."""
    return pristine_eval(flat_outcome, fn, *a, **k)


def run_plan(prop, plan):
    """Execute one plan in this process (a fresh fork). Returns a dict."""
    global ZYGOTE
    ctx = Ctx()
    res = {'violation': None, 'error': None}
    np.random.seed(20231)
    random.seed(20231)
    if getattr(prop, 'HISTORY', False):
        ZYGOTE = Zygote()
    try:
        prop.execute(plan, ctx)
    except Violation as v:
        res['violation'] = {'kind': v.kind, 'message': v.message,
                            'signature': v.signature}
        ctx.log('violation', v.kind)
    except (HarnessError, MemoryError, OSError):
        res['error'] = traceback.format_exc()
    except Exception as e:
        # a result without its documented fields, keys or shapes
        tb = traceback.extract_tb(e.__traceback__)
        own = [f for f in tb if os.sep + 'dst' + os.sep in f.filename] or tb
        res['violation'] = {
            'kind': 'unusable-result',
            'message': f'{type(e).__name__}: {e} while reading a result '
                       f'({os.path.basename(own[-1].filename)}: '
                       f'{own[-1].line})',
            'signature': 'unusable-result'}
        ctx.log('violation', 'unusable-result')
    except BaseException:
        res['error'] = traceback.format_exc()
    if ZYGOTE is not None:
        ZYGOTE.close()
        ZYGOTE = None
    res.update(digest=ctx.h.hexdigest(), events=ctx.events,
               counts=dict(ctx.counts), nontrivial=ctx.nontrivial,
               states=sorted(ctx.states), sample=ctx.sample,
               extra=ctx.extra, info=ctx.info)
    return res


class Pool:
    """Runs plans in forked children, several at a time; results are handed
    out in order of submission."""

    def __init__(self, prop, workers, limit=300):
        self.prop, self.workers, self.limit = prop, workers, limit
        self.active = {}    # fd -> [pid, key, buffer, deadline]

    def submit(self, key, plan):
        pid, r = _spawn(lambda: run_plan(self.prop, plan))
        self.active[r] = [pid, key, [], time.monotonic() + self.limit]

    def full(self):
        return len(self.active) >= self.workers

    def wait(self):
        """Some finished [(key, result)]."""
        done = []
        while self.active and not done:
            ready, _, _ = select.select(list(self.active), [], [], 1.0)
            now = time.monotonic()
            for r in ready:
                a = self.active[r]
                b = os.read(r, 1 << 20)
                if b:
                    a[2].append(b)
                    continue
                os.close(r)
                os.waitpid(a[0], 0)
                _drop_disk(a[0])
                del self.active[r]
                done.append((a[1], self._decode(b''.join(a[2]))))
            for r in list(self.active):
                a = self.active[r]
                if now > a[3]:
                    os.kill(a[0], _signal.SIGKILL)
                    os.waitpid(a[0], 0)
                    _drop_disk(a[0])
                    os.close(r)
                    del self.active[r]
                    done.append((a[1], _error('run exceeded its wall-clock '
                                              f'limit of {self.limit} s')))
        return done

    @staticmethod
    def _decode(data):
        if not data:
            return _error('run process died')
        kind, val = pickle.loads(data)
        return val if kind == 'value' else _error(val)

    def kill(self):
        for r, a in self.active.items():
            os.kill(a[0], _signal.SIGKILL)
            os.waitpid(a[0], 0)
            _drop_disk(a[0])
            os.close(r)
        self.active = {}


def _error(msg):
    return {'violation': None, 'error': msg, 'digest': '', 'events': 0,
            'counts': {}, 'nontrivial': False, 'states': [], 'sample': [],
            'extra': {}, 'info': {}}


def run_one(prop, plan, limit=300):
    p = Pool(prop, 1, limit)
    p.submit(0, plan)
    return p.wait()[0][1]
