import atexit
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

from .. import env, gen, kernel, compare, envops, ops
from ..kernel import Violation

ID = 'C17'
COUNT = {'quick': 130, 'thorough': 3000}
RULE = ('one run = a fresh interpreter started in a seeded simulated '
        'environment (hash seed, optimisation level and other flags, '
        'variables, clock with jumps at every read by the package, working '
        'directory, locale, thread limits, processor count, process id, host '
        'name, entropy source, state of the global generators, collector '
        'and print settings, order of imports) makes 8-16 calls one after '
        'another; every outcome is compared with the outcome of the same '
        'call made alone in the baseline process; variables the package '
        'asks for get seeded answers; in a fifth of the runs an earlier '
        'process on the same simulated disk put similar questions; non-trivial: at least one call was '
        'answered in an environment that differs from the baseline')
STATE_MEASURE = 'distinct (flags, locale, cwd, threads, imports first, op)'
REACH = ['ops', 'env.optimised', 'env.clock', 'env.cwd_gone', 'env.threads',
         'op.stream', 'op.p_multiscale', 'repeats', 'env.used_machine']
COMPONENTS = {'real': 'all of pymultifracs, numpy, scipy, pywt, sklearn in '
                      'a real fresh interpreter',
              'stub': 'clocks, os.environ reads by the package, cpu count, '
                      'process id, host name, os.urandom reads by the '
                      'package'}
ASSUMPTIONS = ['numerical libraries agree to a relative 1e-7 under '
               'different thread limits']
THIRD = ['scipy.signal', 'scipy.linalg', 'pywt', 'pandas',
         'sklearn.linear_model', 'matplotlib.pyplot', 'seaborn']


# compiled third-party modules for optimised interpreters, shared by the runs
# of one invocation
CACHE = tempfile.mkdtemp(prefix='dst-pyc-')
atexit.register(shutil.rmtree, CACHE, True)


def plan(rng, tier):
    n = rng.randint(180, 420)
    sigs = []
    for i in range(rng.choice([2, 3])):
        s = gen.rand_sig(rng, n, n, rep=0 if i == 0 else None,
                         faults=0 if i == 0 else rng.choice([0, 1, 2]))
        sigs.append(s)
    flags = rng.choice([[], ['-O'], ['-O'], ['-OO'], ['-X', 'utf8'], ['-B'],
                        ['-X', 'dev'], ['-s'], ['-O', '-u']])
    items = []
    for _ in range(rng.randint(7, 12)):
        it = {'op': envops.rand(rng, sigs)}
        if rng.random() < .4:
            it['reseed'] = rng.randrange(10**6)
        if rng.random() < .05:
            it['chdir'] = True
        items.append(it)
    for _ in range(rng.randint(2, 6)):      # repetition, same or near
        it = {'op': dict(rng.choice(items)['op'])}
        o = it['op']
        if 's' in o and 's2' not in o and rng.random() < .6:
            alike = [i for i, s in enumerate(sigs)
                     if s['rep'] == sigs[o['s']]['rep'] and not
                     any(f[0] == 'drop' for f in s['faults'])]
            if alike:       # the same request about another recording
                o['s'] = rng.choice(alike)
        items.append(it)
    if rng.random() < .5:
        # one request about recording after recording, each dropped
        base = [it['op'] for it in items if 's' in it['op'] and 's2' not in
                it['op'] and not any(f[0] == 'drop' for f in
                                     sigs[it['op']['s']]['faults'])]
        for o in rng.sample(base, min(len(base), 2)):
            at = rng.randrange(len(items) + 1)
            for k in range(6):
                sigs.append({**sigs[o['s']], 'seed': rng.randrange(10**6)})
                items.insert(at + k, {'op': {**o, 's': len(sigs) - 1}})
    if any(f.startswith('-O') for f in flags):
        # what is refused has to be refused without assertions, too
        for f in envops.STREAM:
            o = envops.rand_stream(rng, rng.choice(['H', 'L', 'method']))
            items.insert(rng.randrange(len(items) + 1),
                         {'op': {**o, 'f': f}})
    mods = list(env.MODULES)
    if rng.random() < .7:
        rng.shuffle(mods)
    else:
        mods = mods[:1]
    if rng.random() < .3:
        mods = [rng.choice(mods)]
    third = list(THIRD)
    rng.shuffle(third)
    th = rng.choice(['1', '1', '2', '4'])
    E = {'flags': flags,
         'vars': {'PYTHONHASHSEED': str(rng.choice(
             [0, 1, rng.randrange(2**32)])),
             'OMP_NUM_THREADS': th, 'OPENBLAS_NUM_THREADS': th,
             'MKL_NUM_THREADS': rng.choice(['1', '3']),
             'TZ': rng.choice(['UTC', 'Pacific/Auckland', 'EST5EDT']),
             'LANG': rng.choice(['C', 'C.UTF-8', 'tr_TR.UTF-8']),
             'HOME': rng.choice(['home', 'home', '/nonexistent']),
             'USER': rng.choice(['root', 'x']),
             'DISPLAY': rng.choice(['', ':0'])},
         'third_party': third,
         'seed': rng.randrange(10**6), 'clock': rng.random() < .8,
         'epoch': rng.choice([0., 1., -5e8, 1.7e9, 4.2e9]),
         'environ': rng.random() < .8, 'pid': rng.randrange(2, 30000),
         'cpus': rng.choice(['real', 1, 3, 128, None]),
         'entropy': rng.randrange(10**6), 'gc': rng.choice(
             ['on', 'off', 'eager']),
         'recursion': rng.choice([0, 0, 400, 20000]),
         'printoptions': rng.choice([{}, {'precision': 2},
                                     {'threshold': 3, 'suppress': True}]),
         'locale': rng.choice(['', 'C', 'POSIX', 'C.UTF-8']),
         'cwd': rng.choice(['empty', 'decoys', 'gone', 'root']),
         'np_seed': rng.randrange(2**31), 'errstate': rng.choice(
             [None, None, 'warn', 'ignore']), 'imports': mods,
         'lazy': rng.random() < .5}
    if E['lazy']:
        E['imports'] = mods[:rng.choice([0, 1, 1, 3])] or mods[:1]
    P = {'sigs': sigs, 'ops': items, 'env': E}
    if rng.random() < .2:
        # an earlier process of the same user put similar questions
        P['used'] = rng.randrange(10**6)
    return P


def shrink(P, res=None):
    for c in gen.shrink_list(P['ops'], 1):
        yield {**P, 'ops': c}
    if 'used' in P:
        yield {k: v for k, v in P.items() if k != 'used'}
    E = P['env']
    for k, v in (('flags', []), ('clock', False),
                 ('environ', False), ('cpus', 'real'), ('gc', 'on'),
                 ('recursion', 0), ('printoptions', {}), ('locale', ''),
                 ('cwd', 'empty'), ('errstate', None), ('entropy', None),
                 ('lazy', False),
                 ('imports', [env.MODULES[0]])):
        if E.get(k) != v:
            yield gen.subst(P, ['env', k], v)
    base = {'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1',
            'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1'}
    for k in list(E['vars']):
        v = dict(E['vars'])
        if k in base:
            if v[k] == base[k]:
                continue
            v[k] = base[k]
        else:
            del v[k]
        yield gen.subst(P, ['env', 'vars'], v)
    for i, s in enumerate(P['sigs']):
        if s['faults']:
            yield gen.subst(P, ['sigs', i, 'faults'], [])


def earlier(P):
    """Similar calls about other data: other recordings, other parameters
    and seeds of the synthesis."""
    k = P['used']
    H = [.3, .5, .8]
    items = []
    for it in P['ops']:
        o = dict(it['op'])
        if o['op'] == 'stream':
            o['H'] = H[(H.index(o['H']) + 1 + k % 2) % 3]
            o['seed'] += k
        items.append({**it, 'op': o})
    return {**P, 'ops': items,
            'sigs': [{**s, 'seed': s['seed'] + 1 + k} for s in P['sigs']]}


def child(P, what='simulated'):
    """Outcomes of the calls in a fresh interpreter."""
    E = P['env']
    d = tempfile.mkdtemp(prefix='dst-env-')
    try:
        plan_, out = os.path.join(d, 'plan.json'), os.path.join(d, 'out')
        with open(plan_, 'w') as f:
            json.dump(P, f)
        cwd = os.path.join(d, 'cwd')
        os.mkdir(cwd)
        if E['cwd'] == 'decoys':
            for n, t in (('pymultifracs.cfg', '[wavelet]\nwt_name=db1\n'),
                         ('setup.cfg', '[x]\ny=1\n'), ('.env', 'DEBUG=1\n'),
                         ('config.json', '{"j2": 3}'), ('seed', '3'),
                         ('matplotlibrc', 'lines.linewidth: 9\n')):
                with open(os.path.join(cwd, n), 'w') as f:
                    f.write(t)
        elif E['cwd'] == 'root':
            cwd = '/'
        os.mkdir(os.path.join(d, 'home'))
        os.mkdir(os.path.join(d, 'tmp'))
        v = {'PATH': os.environ.get('PATH', '/usr/bin'), 'MPLBACKEND': 'Agg',
             'MPLCONFIGDIR': os.environ.get('MPLCONFIGDIR', d),
             **E['vars'], 'TMPDIR': os.path.join(d, 'tmp'),
             'DST_REPO': env.REPO, 'DST_LAZY': '1' if E.get('lazy') else '0'}
        if v.get('HOME') == 'home':
            v['HOME'] = os.path.join(d, 'home')
        if any(f.startswith('-O') for f in E['flags']):
            v['PYTHONPYCACHEPREFIX'] = CACHE
        else:
            v['PYTHONDONTWRITEBYTECODE'] = '1'
        here = os.path.join(env.VERIF, 'dst', 'envchild.py')

        def start(plan_, out):
            return subprocess.run(
                [sys.executable, *E['flags'], here, env.REPO, env.VERIF,
                 plan_, out], cwd=cwd, env=v, capture_output=True,
                timeout=240, stdin=subprocess.DEVNULL)
        if 'used' in P and not P.get('control'):
            with open(plan_ + '0', 'w') as f:
                json.dump(earlier(P), f)
            start(plan_ + '0', out + '0')
        p = start(plan_, out)
        if p.returncode or not os.path.exists(out):
            return None, p.stderr.decode(errors='replace')[-1500:]
        with open(out, 'rb') as f:
            return pickle.load(f), None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def execute(P, ctx):
    E = P['env']
    got, err = child(P)
    if got is None:
        # does the environment itself work, without the package?
        if child({**P, 'control': True})[1] is None:
            raise Violation('dies', 'the interpreter fails in this '
                            f'environment: {err[-600:]}')
        raise kernel.HarnessError(err)
    want = {}
    for f in E['flags']:
        if f.startswith('-O'):
            ctx.count('env.optimised')
    if 'used' in P:
        ctx.count('env.used_machine')
    if E['clock']:
        ctx.count('env.clock')
    if E['cwd'] == 'gone':
        ctx.count('env.cwd_gone')
    if E['vars'].get('OMP_NUM_THREADS') != '1':
        ctx.count('env.threads')
    for k, v in got['counts'].items():
        ctx.count('read.' + k, v)
    for i, (it, o) in enumerate(zip(P['ops'], got['out'])):
        op = it['op']
        key = json.dumps(op, sort_keys=True)
        if key in want:
            ctx.count('repeats')
        else:
            want[key] = kernel.solo(envops.run, op, P['sigs'])
        w = want[key]
        name = op['op'] + (':' + op['f'] if 'f' in op else '')
        ctx.count('ops')
        ctx.count('op.' + op['op'])
        ctx.state((E['flags'], E['locale'], E['cwd'], E['imports'][0], name))
        ctx.log(i, name, o[0], w[0])
        if o[0] != w[0] or (o[0] == 'exc' and o[1] != w[1]):
            raise Violation('outcome', f'call {i} ({name}): '
                            f'{o[:3] if o[0] == "exc" else "answered"} in '
                            'the simulated environment, '
                            f'{w[:3] if w[0] == "exc" else "answered"} '
                            'in the baseline')
        if o[0] == 'ok':
            ctx.nontrivial = True
            d = compare.diff(o[1], w[1], 1e-7, 1e-9)
            if d:
                raise Violation('value', f'call {i} ({name}): {d} (second: '
                                'baseline)')
