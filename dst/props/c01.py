from .. import sigsim, points, env
points.install(env.PKGDIR)

ID = 'C01'
HISTORY = True
COUNT = {'quick': 1600, 'thorough': 20000}
RULE = ('one run = one seeded history of 3-9 method calls (wavelet PSD, '
        'Welch PSD, fractal, wavelet transform, multifractal with q as list/'
        'array/None and save on or off, full analysis, hurst, hmin, PSD '
        'difference, plots, in-place changes of q arrays) on one or two '
        'Signal objects, every answer compared with the stand-alone function '
        'evaluated in a pristine process; non-trivial: the history repeats a '
        'method on the same object, so that reuse is possible')
STATE_MEASURE = 'distinct (position, method, parameters in force) triples'
REACH = ['q_changed_in_place', 'failed_calls']


def plan(rng, tier):
    return sigsim.plan(rng, faulty=False)


def execute(P, ctx):
    sigsim.Session(P, ctx).run()


shrink = sigsim.shrink
