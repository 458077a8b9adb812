"""Image of interpreter-wide state."""
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def image(rng=True):
    import matplotlib
    d = {
        'warning filters': [repr(f) for f in warnings.filters],
        'warnings.showwarning': repr(warnings.showwarning),
        'warnings.formatwarning': repr(warnings.formatwarning),
        'numpy error settings': repr(sorted(np.geterr().items())),
        'numpy error callback': repr(np.geterrcall()),
        'numpy print options': repr(sorted(np.get_printoptions().items())),
        'numpy buffer size': np.getbufsize(),
        'environment': dict(os.environ),
        'working directory': os.getcwd(),
        'locale': locale.setlocale(locale.LC_ALL),
        'logging': repr([logging.root.level, logging.root.handlers,
                         logging.root.filters, logging.root.disabled,
                         logging.raiseExceptions, logging.lastResort,
                         logging.getLoggerClass(),
                         logging.getLogRecordFactory()]),
        'temporary directory': repr([tempfile.tempdir, umask()]),
        'threads': repr([threading.stack_size(), threading._trace_hook,
                         threading._profile_hook, sys.getprofile()]),
        'decimal context': repr(decimal.getcontext().copy()),
        'garbage collection': [gc.isenabled(), gc.get_threshold(),
                               gc.get_debug(), gc.get_freeze_count()],
        'byte code': sys.dont_write_bytecode,
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'excepthook': repr(sys.excepthook),
        'threading excepthook': repr(threading.excepthook),
        'trace function': repr(sys.gettrace()),
        'standard streams': repr([sys.stdout, sys.stderr, sys.stdin]),
        'signal handlers': repr([signal.getsignal(s) for s in
                                 (signal.SIGINT, signal.SIGTERM,
                                  signal.SIGALRM, signal.SIGFPE)]),
        'module search path': list(sys.path),
        'matplotlib configuration': {k: repr(v) for k, v in
                                     dict.items(matplotlib.rcParams)},
        'matplotlib backend': matplotlib.get_backend(),
    }
    try:
        import pandas as pd
        d['pandas options'] = repr([
            pd.get_option(o) for o in (
                'display.max_rows', 'display.max_columns', 'display.width',
                'display.precision', 'display.float_format',
                'display.max_colwidth', 'mode.chained_assignment',
                'mode.copy_on_write', 'compute.use_numexpr',
                'compute.use_bottleneck', 'plotting.backend')])
    except Exception:
        pass
    import asyncio
    import codecs
    import multiprocessing
    import resource
    import scipy.special
    import pywt
    d['special function error settings'] = repr(sorted(
        scipy.special.geterr().items()))
    d['start method of worker processes'] = \
        multiprocessing.get_start_method(allow_none=True)
    d['colour maps'] = sorted(matplotlib.colormaps)
    d['hooks'] = repr([
        sys.displayhook, sys.unraisablehook, sys.breakpointhook,
        sys.get_int_max_str_digits(),
        asyncio._get_event_loop_policy()
        if hasattr(asyncio, '_get_event_loop_policy')
        else asyncio.events._event_loop_policy])
    d['codec error handlers'] = repr([
        codecs.lookup_error(k) for k in ('strict', 'ignore', 'replace')])
    d['resource limits'] = repr([resource.getrlimit(k) for k in (
        resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK,
        resource.RLIMIT_CORE)])
    d['priority'] = [os.getpriority(os.PRIO_PROCESS, 0),
                     sorted(os.sched_getaffinity(0))]
    d['wavelet families'] = pywt.families()
    try:
        import seaborn as sns
        d['seaborn palette'] = repr(sns.color_palette())
    except Exception:
        pass
    try:
        import threadpoolctl
        d['threads of the numerical libraries'] = {
            i['filepath']: i['num_threads']
            for i in threadpoolctl.threadpool_info()}
    except Exception:
        pass
    try:
        import sklearn
        d['sklearn options'] = repr(sorted(sklearn.get_config().items()))
    except Exception:
        pass
    if rng:
        s = np.random.get_state()
        d['numpy random state'] = (s[0], s[1].tobytes(), s[2], s[3], s[4])
        d['random state'] = hash(random.getstate())
    return d


def changed(a, b):
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict):
                ks = [j for j in set(x) | set(y) if x.get(j) != y.get(j)]
                if k.startswith('threads of'):      # of those loaded before
                    ks = [j for j in ks if j in x and j in y]
                    if not ks:
                        continue
                return f'{k}: {sorted(map(str, ks))[:4]}'
            if isinstance(x, (str, int, list)) and len(str(x)) < 400:
                return f'{k}: {x} -> {y}'
            if isinstance(x, list):
                return f'{k}: {[e for e in x if e not in y][:2]} -> ' \
                       f'{[e for e in y if e not in x][:2]}'
            return k
    return None
