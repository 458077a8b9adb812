"""Acquisition fault sequences: dropout processes of a simulated recorder."""


def dropouts(rng, n, rep, keep=60):
    """List of ['drop', at, len, r] faults (r=-1: all channels)."""
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.randrange(rep) if rng.random() < .7 else -1
        kind = rng.choice(['single', 'burst', 'periodic', 'flaky', 'start',
                           'end', 'pair'])
        if kind == 'single':
            out.append(['drop', rng.randrange(n), 1, r])
        elif kind == 'pair':
            a = rng.randrange(n)
            out += [['drop', a, 1, r],
                    ['drop', min(n - 1, a + rng.randint(1, 20)), 1, r]]
        elif kind == 'burst':
            ln = rng.randint(2, max(3, n // 8))
            out.append(['drop', rng.randrange(n - ln), ln, r])
        elif kind == 'periodic':
            per = rng.choice([37, 50, 64, 101])
            ph = rng.randrange(per)
            out += [['drop', a, rng.choice([1, 2]), r]
                    for a in range(ph, n - 2, per)]
        elif kind == 'flaky':
            out += [['drop', rng.randrange(n - 3), rng.choice([1, 1, 3]), r]
                    for _ in range(rng.randint(3, 8))]
        elif kind == 'start':
            out.append(['drop', 0, rng.randint(1, n // 6), r])
        else:
            ln = rng.randint(1, n // 6)
            out.append(['drop', n - ln, ln, r])
    return out
