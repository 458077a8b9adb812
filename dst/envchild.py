"""A fresh interpreter in a simulated environment: sets the environment up,
imports the package under it, makes the calls, writes their outcomes.

python [flags] envchild.py REPO VERIF PLAN.json OUT.pickle
"""
import sys

REPO, VERIF, PLAN, OUT = sys.argv[1:5]
sys.path[:0] = [REPO, VERIF]
import datetime  # noqa: E402
import gc  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import os  # noqa: E402
import pickle  # noqa: E402
import platform  # noqa: E402
import random  # noqa: E402
import resource  # noqa: E402
import shutil  # noqa: E402
import threading  # noqa: E402
import time  # noqa: E402

PKG = os.path.join(REPO, 'pymultifracs') + os.sep
with open(PLAN) as f:
    P = json.load(f)
E = P['env']

import numpy as np  # noqa: E402

# all of them first: they do not survive the simulated clock and directory
for name in E['third_party']:
    importlib.import_module(name)

sys.dont_write_bytecode = True
counts = {'clock_reads': 0, 'environment_reads': 0, 'entropy_reads': 0,
          'machine_reads': 0}


def from_package(depth=2):
    f = sys._getframe(depth)
    skip = (os.__file__, '_collections_abc', 'random.py', 'datetime.py',
            'tempfile.py', 'uuid.py', 'secrets.py', 'platform.py')
    while f is not None and any(s in f.f_code.co_filename for s in skip):
        f = f.f_back
    return f is not None and f.f_code.co_filename.startswith(PKG)


# -- clock -----------------------------------------------------------------
crng = random.Random(E['seed'])
state = {'now': E['epoch']}


def tick():
    counts['clock_reads'] += 1
    k = crng.random()
    if k < .3:
        state['now'] += crng.choice([1e-9, 1e-3, 1.])
    elif k < .6:
        state['now'] += crng.choice([3600., 86400. * 400])
    elif k < .9:
        state['now'] -= crng.choice([1e-3, 60., 86400. * 30])
    return state['now']


def clock(name, conv):
    real = getattr(time, name)

    def fake(*a):
        if not from_package():
            return real(*a)
        return conv(tick())
    setattr(time, name, fake)


if E['clock']:
    for n in ('time', 'monotonic', 'perf_counter', 'process_time',
              'thread_time'):
        clock(n, float)
        clock(n + '_ns', lambda t: int(t * 1e9))
    for n in ('localtime', 'gmtime'):
        real_ = getattr(time, n)
        setattr(time, n, lambda *a, _r=real_: _r(*a) if a or not
                from_package() else _r(abs(tick()) % 4e9))

    class DT(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(abs(tick()) % 4e9, tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(abs(tick()) % 4e9)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(abs(tick()) % 4e9)

    class Day(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(abs(tick()) % 4e9)
    datetime.datetime = DT
    datetime.date = Day

# -- environment variables nobody documented ---------------------------------
erng = random.Random(E['seed'] + 1)
answers = {}


DISK = ('HOME', 'TMPDIR', 'TEMP', 'TMP', 'XDG_CACHE_HOME')   # simulated too


def answer(k):
    if k in DISK:
        return os.environ._data.get(k.encode(), b'').decode() or None
    counts['environment_reads'] += 1
    if k not in answers:
        answers[k] = erng.choice([None, '0', '1', 'true', '', '64', 'x',
                                  '/tmp', '0.5', 'debug'])
    return answers[k]


if E['environ']:
    class Env(type(os.environ)):
        def __getitem__(self, key):
            if isinstance(key, str) and from_package():
                v = answer(key)
                if v is None:
                    raise KeyError(key)
                return v
            return super().__getitem__(key)

        def get(self, key, default=None):
            if isinstance(key, str) and from_package():
                v = answer(key)
                return default if v is None else v
            return super().get(key, default)

        def __contains__(self, key):
            if isinstance(key, str) and from_package():
                return answer(key) is not None
            return super().__contains__(key)
    os.environ.__class__ = Env

# -- the machine -------------------------------------------------------------
if E['cpus'] != 'real':
    os.cpu_count = lambda: E['cpus']
    if hasattr(os, 'sched_getaffinity'):
        os.sched_getaffinity = lambda pid=0: set(range(E['cpus'] or 1))
mrng = random.Random(E['seed'] + 2)
SMALL = mrng.choice([1, 2, 50, 1 << 40])


def machine(mod, name, fake):
    real = getattr(mod, name, None)
    if real is not None:
        def f(*a, **k):
            if not from_package():
                return real(*a, **k)
            counts['machine_reads'] += 1
            return fake(real, *a, **k)
        setattr(mod, name, f)


machine(os, 'sysconf', lambda real, k: real(k) if k in (
    'SC_PAGE_SIZE', 'SC_PAGESIZE') else SMALL)
machine(os, 'getloadavg', lambda real: (SMALL % 97,) * 3)
machine(os, 'uname', lambda real: os.uname_result(
    ('Linux', f'sim{SMALL}', '0', '0', 'x86_64')))
machine(os, 'getlogin', lambda real: 'sim')
machine(os, 'statvfs', lambda real, p: os.statvfs_result(
    (512, 512, SMALL, SMALL, SMALL, 9, 9, 9, 0, 255)))
machine(platform, 'node', lambda real: f'sim{SMALL}')
machine(resource, 'getrlimit', lambda real, k: (SMALL, SMALL))
machine(resource, 'getrusage', lambda real, k: resource.struct_rusage(
    (SMALL % 97.,) * 2 + (SMALL,) * 14))
machine(shutil, 'disk_usage', lambda real, p: (SMALL, 0, SMALL))
machine(threading, 'active_count', lambda real: SMALL % 97)
machine(threading, 'get_ident', lambda real: real() ^ SMALL)
pid_ = os.getpid
os.getpid = lambda: E['pid'] if from_package() else pid_()
import socket  # noqa: E402
socket.gethostname = lambda: 'sim-%d' % E['pid']
if E['entropy'] is not None:
    ernd = random.Random(E['entropy'])
    real_urandom = os.urandom

    def urandom(n):
        if not from_package():
            return real_urandom(n)
        counts['entropy_reads'] += 1
        return bytes(ernd.randrange(256) for _ in range(n))
    os.urandom = urandom
if E['gc'] == 'off':
    gc.disable()
elif E['gc'] == 'eager':
    gc.set_threshold(5, 2, 2)
if E['recursion']:
    sys.setrecursionlimit(E['recursion'])
np.set_printoptions(**E['printoptions'])
if E['locale']:
    import locale
    try:
        locale.setlocale(locale.LC_ALL, E['locale'])
    except locale.Error:
        pass
if E['cwd'] == 'gone':
    d = os.path.join(os.path.dirname(OUT), 'gone')
    os.mkdir(d)
    os.chdir(d)
    os.rmdir(d)
np.random.seed(E['np_seed'])
random.seed(E['seed'])
if E['errstate']:
    np.seterr(all=E['errstate'])

if P.get('control'):
    with open(OUT, 'wb') as f:
        pickle.dump(None, f)
    sys.exit(0)
# -- the package, imported in an order of our choice ---------------------------
for name in E['imports']:
    importlib.import_module(name)

from dst import env, gen, kernel, compare, envops  # noqa: E402,F401
import warnings  # noqa: E402
warnings.resetwarnings()
warnings.simplefilter('ignore')

out = []
for item in P['ops']:
    if item.get('reseed') is not None:
        np.random.seed(item['reseed'])
        random.seed(item['reseed'])
    # nothing of a call stays alive, so that memory is used again
    out.append(pickle.dumps(kernel.flat_outcome(envops.run, item['op'],
                                                P['sigs'])))
    if item.get('chdir'):
        os.chdir(os.path.dirname(OUT))
with open(OUT, 'wb') as f:
    pickle.dump({'out': [pickle.loads(o) for o in out], 'counts': counts}, f)
