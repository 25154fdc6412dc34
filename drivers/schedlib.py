"""Schedules shared by C08 and C18."""
S = 1 << 20


def make(s):
    """The real schedule object of a specification record."""
    from brainstorm.training import schedules as sch
    f = 1.0 / S
    if s['k'] == 'lin':
        return sch.Linear(s['a'] * f, s['b'] * f, s['n'])
    if s['k'] == 'exp':
        kw = {}
        if s['min'] > -400 * S:
            kw['minimum'] = s['min'] * f
        if s['max'] < 400 * S:
            kw['maximum'] = s['max'] * f
        return sch.Exponential(s['a'] * f, s['f'] * f, **kw)
    if s['k'] == 'multi':
        return sch.MultiStep(s['a'] * f, list(s['steps']),
                             [v * f for v in s['values']])
    if s['k'] == 'dae':
        return sch.DecreaseAfterEpoch(s['a'] * f, s['T'])
    raise ValueError(s)


def rand(rnd, lo=1, hi=16, den=16):
    def v():
        return rnd.randint(lo, hi) * S // den
    k = rnd.choice(['lin', 'exp', 'multi', 'dae'])
    if k == 'lin':
        return {'k': k, 'a': v(), 'b': v(), 'n': rnd.randint(1, 7)}
    if k == 'exp':
        mn = rnd.choice([-400 * S, 0, v()])
        return {'k': k, 'a': v(), 'f': rnd.choice(
            [S // 2, 3 * S // 4, 7 * S // 8, S, 9 * S // 8]),
            'min': mn, 'max': rnd.choice([400 * S, max(mn, v())])}
    if k == 'multi':
        st = sorted(rnd.sample(range(1, 12), rnd.randint(0, 4)))
        return {'k': k, 'a': v(), 'steps': st, 'values': [v() for _ in st]}
    return {'k': k, 'a': v(), 'T': rnd.randint(1, 6)}
