from .. import sigsim, points, env
points.install(env.PKGDIR)

ID = 'C02'
HISTORY = True
COUNT = {'quick': 800, 'thorough': 20000}
RULE = ('one run = one seeded history of method calls on one or two Signal '
        'objects in which one to three calls fail part-way: a library call '
        'made inside them raises MemoryError, KeyboardInterrupt, LinAlgError '
        'or FloatingPointError at a seeded point, or the parameters are '
        'rejected; every later answer is compared with the stand-alone '
        'function; non-trivial: a fault fired inside a call, or a method is '
        'repeated on the same object')
STATE_MEASURE = 'distinct (position, method, parameters in force) triples'
REACH = ['fault.memory', 'fault.interrupt', 'fault.linalg', 'fault.float',
         'fault.rejected_parameters']


def plan(rng, tier):
    return sigsim.plan(rng, faulty=True, mutate=rng.random() < .3)


def execute(P, ctx):
    sigsim.Session(P, ctx).run()


shrink = sigsim.shrink
