from .. import env, gen, kernel, compare, threadsim, points, sched
from ..kernel import Violation

ID = 'C05'
COUNT = {'quick': 420, 'thorough': 5000}
RULE = ('one run = 2-4 caller threads, each making 1-2 analysis or synthesis '
        'calls on shared recordings or transforms, under one seeded schedule (explicit '
        'preemption points at source lines and calls of the package, or '
        'dense random switching), some calls failing part-way; each result '
        'is compared with the same call alone in a pristine process; '
        'non-trivial: at least two switches happened inside calls')
STATE_MEASURE = 'distinct interleavings (sequence of switch sites)'
REACH = ['switches', 'fault.memory']
COMPONENTS = {'real': 'pymultifracs and all numerical libraries, real '
                      'threads released one at a time',
              'stub': 'the choice of who runs (seeded scheduler); locks '
                      'created by the package'}


def plan(rng, tier):
    n = rng.randint(180, 330)
    rep = rng.choice([0, 0, 1, 2])
    sigs = [gen.rand_sig(rng, n, n, rep=rep, faults=rng.choice([0, 0, 1]))
            for _ in range(2)]
    share = rng.random() < .25
    P = {'sigs': sigs, 'share': share,
         'threads': threadsim.rand_threads(rng, sigs, share=share),
         'sched': threadsim.rand_schedule(rng)}
    if rng.random() < .25:      # p-leaders of a higher order everywhere
        p = rng.choice([1, 2, 3, 3, 4])
        for lst in P['threads']:
            for op in lst:
                if 'p_exp' in op.get('o', ()):
                    op['o'] = {**op['o'], 'p_exp': p}
    return P


def shrink(P, res=None):
    yield from threadsim.shrink(P, res)
    for i, s in enumerate(P['sigs']):
        for k, v in (('layout', 'C'), ('dtype', 'f8'), ('faults', [])):
            if s[k] != v:
                yield gen.subst(P, ['sigs', i, k], v)


def execute(P, ctx):
    W = threadsim.World(P)
    total = W.total_steps()
    s = W.scheduler(threadsim.materialise(P['sched'], total),
                    20 * total + 10000)
    with points.steps():
        res = s.run()
    ctx.info['taken'] = s.taken
    ctx.count('steps', s.steps)
    ctx.count('switches', len(s.taken))
    ctx.log('trace', s.trace[:200], len(s.trace))
    ctx.state([t[1:] for t in s.trace])
    if len(s.taken) >= 2:
        ctx.nontrivial = True
    for t, (val, err) in enumerate(res):
        if isinstance(err, (sched.Deadlock, sched.StepLimit)):
            raise Violation('no-progress', f'thread {t} does not finish: '
                            f'{type(err).__name__}: {err}')
        if err is not None:
            raise kernel.HarnessError(repr(err))
    for t, (val, err) in enumerate(res):
        for i, (o, fired) in enumerate(val):
            op = P['threads'][t][i]
            where = f'thread {t} call {i} ({op["op"]})'
            n, exp = W.oracle[t, i]
            if fired:
                ctx.count('fault.' + op['fault'][0])
                if o[0] == 'exc':
                    continue
            if o[0] != exp[0]:
                raise Violation('outcome-differs',
                                f'{where} under concurrency: '
                                f'{o[1:] if o[0] == "exc" else "returned"}; '
                                f'alone: '
                                f'{exp[1:] if exp[0] == "exc" else "returned"}')
            if o[0] == 'exc':
                continue
            flat = compare.flatten(o[1])
            ctx.log_result(where, flat)
            d = compare.diff(flat, exp[1])
            if d:
                raise Violation('result-differs', f'{where} differs from '
                                f'the same call alone: {d}')
            ctx.count('results_compared')
