from .. import sigsim, points, env
points.install(env.PKGDIR)

ID = 'C03'
HISTORY = True
COUNT = {'quick': 800, 'thorough': 16000}
RULE = ('one run = one seeded history of method calls (half of them with '
        'failures injected inside calls) on one or two Signal objects; after '
        'every call each stored result is compared with the stand-alone '
        'function for the stored parameters, save=False is checked to leave '
        'the saved result, and repeated requests are checked to hand back '
        'the stored object; non-trivial: a fault fired or reuse was checked')
STATE_MEASURE = 'distinct (position, method, parameters in force) triples'
REACH = ['reuse_checked', 'save_false_checked', 'stored_results_checked']


def plan(rng, tier):
    return sigsim.plan(rng, faulty=rng.random() < .5)


def execute(P, ctx):
    sigsim.Session(P, ctx, fields=True, returns=False).run()


shrink = sigsim.shrink
