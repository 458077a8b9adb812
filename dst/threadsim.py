"""Several simulated client threads under one deterministic scheduler."""
from . import env, gen, kernel, ops, points, sched

points.install(env.PKGDIR)


def rand_threads(rng, sigs, p_exps=None, faults=.25, kinds=None,
                 share=False):
    nt = rng.choice([2, 2, 2, 3, 3, 4])
    threads = []
    if kinds is None and share:
        mode = 'shared'
        kinds = ops.ON_TRANSFORM
    else:
        mode = None
    kinds = kinds or (ops.ANALYSIS + ops.SYNTH)
    mode = mode or rng.choice(['same', 'same-op', 'mixed', 'mixed'])
    proto = ops.rand_op(rng, sigs, kinds)
    for t in range(nt):
        lst = []
        for _ in range(rng.choice([1, 1, 2])):
            if mode == 'mixed':
                op = ops.rand_op(rng, sigs, kinds)
            elif mode == 'shared':
                # different questions about one transform
                op = dict(proto)
                if 's2' not in op:
                    op['op'] = rng.choice(['mfa', 'mfa', 'minimal', 'hurst',
                                           'hmin'])
                    op.update(q=gen.rand_q(rng), lead=rng.random() < .5)
                else:
                    op.update(q1=rng.choice(ops.Q12), q2=rng.choice(ops.Q12))
                    if rng.random() < .3:
                        op['s'], op['s2'] = op['s2'], op['s']
                op['nc'] = rng.choice([2, 3, 4])
                if rng.random() < .6:
                    op['weighted'] = rng.random() < .5
                if rng.random() < .4:
                    op['j1'] = op['o']['j1'] + rng.choice([0, 1])
            else:
                op = dict(proto)
                if mode == 'same-op':
                    if 's' in op and 's2' not in op and sigs[op['s']][
                            'rep'] != 0:
                        op['s'] = rng.choice(
                            [i for i, s in enumerate(sigs)
                             if s['rep'] == sigs[op['s']]['rep']
                             and s['n'] == sigs[op['s']]['n']])
                    if 'seed' in op:
                        op['seed'] = rng.randrange(10**6)
                    if 'o' in op:
                        o = gen.rand_wt_opts(rng, sigs[op['s']]['n'])
                        k = rng.choice(['p_exp', 'gamint', 'normalization',
                                        'weighted', 'wt_name', 'j2'])
                        if k in ('wt_name', 'j2'):
                            op['o'] = {**op['o'], 'wt_name': o['wt_name'],
                                       'j1': o['j1'], 'j2': o['j2']}
                        else:
                            op['o'] = {**op['o'], k: o[k]}
                    if 'q' in op:
                        op['q'] = gen.rand_q(rng)
            op = dict(op)
            if rng.random() < faults / nt:
                op['fault'] = points.spec(rng)
            lst.append(op)
        threads.append(lst)
    return threads


def rand_schedule(rng):
    if rng.random() < .25:
        return {'mode': 'novel', 'p': rng.choice([.02, .05, .15, .4]),
                'seed': rng.randrange(10**6), 'first': rng.randrange(4)}
    if rng.random() < .35:
        return {'mode': 'dense', 'p': rng.choice([.005, .05, .3, .7]),
                'seed': rng.randrange(10**6), 'first': rng.randrange(4)}
    return {'mode': 'frac', 'first': rng.randrange(4),
            'at': sorted([round(rng.random(), 5), rng.randint(1, 3)]
                         for _ in range(rng.choice([1, 2, 3, 5, 8, 20])))}


def materialise(schedule, total):
    if schedule['mode'] != 'frac':
        return schedule
    return {'mode': 'list', 'first': schedule['first'],
            'switches': [[1 + int(f * total), k]
                         for f, k in schedule['at']]}


class World:
    """Prepared calls of every thread, and their oracles."""

    def __init__(self, P, bystander=None):
        self.P = P
        self.sigs = [gen.recording(s) for s in P['sigs']]
        self.oracle = {}
        for t, lst in enumerate(P['threads']):
            for i, op in enumerate(lst):
                self.oracle[t, i] = kernel.fork_eval(
                    lambda: self._solo(op))
        shared = {} if P.get('share') else None
        self.calls = {(t, i): ops.prepare(op, self.sigs, shared)
                      for t, lst in enumerate(P['threads'])
                      for i, op in enumerate(lst)}
        self.bystander = bystander

    def _solo(self, op):
        n, o = points.survey(
            lambda: kernel.outcome(lambda: ops.prepare(
                op, [gen.recording(s) for s in self.P['sigs']])()))
        if o[0] == 'ok':
            from . import compare
            o = ('ok', compare.flatten(o[1]))
        return n, o

    def body(self, t):
        out = []
        for i, op in enumerate(self.P['threads'][t]):
            call = self.calls[t, i]
            n = self.oracle[t, i][0]
            if 'fault' in op and n:
                with points.fault(op['fault'][0],
                              n.at(*op['fault'])) as f:
                    o = kernel.outcome(call)
                out.append((o, f.fired))
            else:
                out.append((kernel.outcome(call), None))
        return out

    def scheduler(self, schedule, max_steps):
        s = sched.Scheduler(schedule, max_steps)
        for t in range(len(self.P['threads'])):
            s.spawn(f't{t}', lambda t=t: self.body(t))
        if self.bystander:
            s.spawn('bystander', self.bystander)
        return s

    def total_steps(self):
        """Steps of a serial execution (measured in a copy)."""
        def fn():
            s = self.scheduler({'mode': 'list', 'first': 0, 'switches': []},
                               10**9)
            with points.steps():
                s.run()
            return s.steps
        return kernel.fork_eval(fn)


def shrink(P, res):
    taken = (res or {}).get('info', {}).get('taken')
    if P['sched']['mode'] != 'list' and taken is not None \
            and len(taken) < 3000:
        yield {**P, 'sched': {'mode': 'list', 'switches': taken,
                              'first': P['sched']['first']}}
    for i in range(len(P['threads']) - 1, -1, -1):
        if len(P['threads']) > 1:
            t = P['threads'][:i] + P['threads'][i + 1:]
            yield {**P, 'threads': t}
    for i, lst in enumerate(P['threads']):
        for c in gen.shrink_list(lst, 1):
            yield gen.subst(P, ['threads', i], c)
        for k, op in enumerate(lst):
            if 'fault' in op:
                d = dict(op)
                del d['fault']
                yield gen.subst(P, ['threads', i, k], d)
    if P['sched']['mode'] == 'list':
        sw = P['sched']['switches']
        n = len(sw)
        size = n // 2
        while size >= 1:
            for at in range(0, n, size):
                yield gen.subst(P, ['sched', 'switches'],
                                sw[:at] + sw[at + size:])
            size //= 2
    if P['sched']['mode'] == 'frac':
        for c in gen.shrink_list(P['sched']['at'], 0):
            yield gen.subst(P, ['sched', 'at'], c)
    for i, lst in enumerate(P['threads']):
        for k, op in enumerate(lst):
            for t in ops.simpler_ops(op):
                yield gen.subst(P, ['threads', i, k], t)
