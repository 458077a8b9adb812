"""Process set-up: single-threaded numerics, package imported from /repo.

Importing this module pre-imports the third-party libraries, installs the lock
seam (see sched.SimLock) and then imports the code under test.
"""
import os
import sys

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ['MPLBACKEND'] = 'Agg'
sys.dont_write_bytecode = True

REPO = os.environ.get('DST_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKGDIR = os.path.join(REPO, 'pymultifracs') + os.sep

if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings  # noqa: E402
import numpy as np  # noqa: E402,F401
import scipy.signal  # noqa: E402,F401
import scipy.linalg  # noqa: E402,F401
import scipy.special  # noqa: E402,F401
import pywt  # noqa: E402,F401
import sklearn.linear_model  # noqa: E402,F401
import pandas  # noqa: E402,F401
import matplotlib  # noqa: E402
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402,F401
import seaborn  # noqa: E402,F401

from . import sched  # noqa: E402
sched.install_lock_seam(PKGDIR)

MODULES = ['pymultifracs', 'pymultifracs.utils',
           'pymultifracs.multiresquantity', 'pymultifracs.structurefunction',
           'pymultifracs.cumulants', 'pymultifracs.mfspectrum',
           'pymultifracs.wavelet', 'pymultifracs.estimation',
           'pymultifracs.mfa', 'pymultifracs.psd',
           'pymultifracs.fractal_analysis', 'pymultifracs.signal',
           'pymultifracs.simul', 'pymultifracs.simul.fbm',
           'pymultifracs.simul.mrw', 'pymultifracs.simul.pzutils',
           'pymultifracs.bivariate', 'pymultifracs.viz']
import importlib  # noqa: E402

# A check of what depends on the modules imported so far leaves that to the
# calls.
LAZY = os.environ.get('DST_LAZY') == '1'
for _m in MODULES[:1] if LAZY else MODULES:
    importlib.import_module(_m)

_here = os.path.dirname(os.path.abspath(sys.modules['pymultifracs'].__file__))
assert _here + os.sep == PKGDIR, (_here, PKGDIR)

_WHERE = {'wavelet': ['wavelet_analysis', 'decomposition_level'],
          'mfa': ['mf_analysis', 'minimal_mf_analysis', 'mf_analysis_full'],
          'estimation': ['estimate_hmin', 'compute_hurst', 'plot_hmin'],
          'psd': ['wavelet_estimation', 'welch_estimation', 'plot_psd',
                  'log_plot', 'PSD'],
          'fractal_analysis': ['fractal_analysis', 'estimate_beta',
                               'plot_fractal'],
          'signal': ['Signal'],
          'bivariate': ['bivariate_analysis', 'bivariate_analysis_full'],
          'simul': ['fgn', 'fbm', 'mrw', 'mrw_cumul'],
          'simul.mrw': ['skewed_mrw', 'mrw2D'], 'viz': ['viz']}


class Api:
    """The public entry points the simulated clients use."""

    def __getattr__(self, name):
        for where, names in _WHERE.items():
            if name in names:
                m = importlib.import_module('pymultifracs.' + where)
                v = m if name == 'viz' else getattr(m, name)
                self.__dict__[name] = v
                return v
        raise AttributeError(name)


api = Api()
if not LAZY:
    for _n in sum(_WHERE.values(), []):
        getattr(api, _n)
# Results are compared under a quiet, fixed policy unless a check says
# otherwise; the warnings themselves are the subject of C15.
warnings.simplefilter('ignore')
