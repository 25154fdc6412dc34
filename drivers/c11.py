"""C11: batching presents every sequence exactly once per epoch."""
TRACE_SPEC = 'BatchingTrace'
CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
       'CONSTANTS MaxN = %d MaxT = %d MaxBS = %d\n'
       'INVARIANTS ExactlyOnce NothingLost Sizes EmitState\n')


def scenarios(ctx):
    rnd = ctx.rnd
    r = ctx.models([('BatchingMC', CFG % ctx.pick((4, 2, 5), (5, 2, 6)), {})])
    ms = sorted(r[0].lines, key=str)
    rnd.shuffle(ms)
    out = [one(rnd, m['N'], m['T'], m['bs'], m['lens'], 'model')
           for m in ms[:ctx.pick(500, 4000)]]
    for i in range(ctx.pick(300, 3000)):
        N, T = rnd.randint(1, 14), rnd.randint(1, 5)
        out.append(one(rnd, N, T, rnd.randint(1, 16),
                       [rnd.randint(0, T) for _ in range(N)], 'random'))
    for i in range(ctx.pick(60, 300)):
        out.append(bad(rnd, i))
    for i in range(ctx.pick(8, 40)):        # every order occurs
        nb, bs = 2 + i % 2, rnd.randint(1, 3)
        s = one(rnd, nb * bs - rnd.randint(0, bs - 1), 1, bs, [1] * 9,
                'orders')
        s.update(by='none', whole=False, shuffle=True, shapes=[[1]],
                 epochs=[60, 200][i % 2])
        out.append(s)
    return out


def one(rnd, N, T, bs, lens, kind):
    by = rnd.choice(['mask', 'mask', 'list', 'none'])
    return {'kind': kind, 'N': N, 'T': T, 'bs': bs, 'lens': lens, 'by': by,
            'holes': rnd.random() < .5,
            'cutname': rnd.choice(['mask', 'mask', 'other']),
            'listtype': rnd.choice(['list', 'array', 'tuple']),
            'shuffle': rnd.random() < .5, 'seed': rnd.randrange(10 ** 6),
            'epochs': 4 if rnd.random() < .3 else rnd.randint(1, 2),
            'shapes': [rnd.choice([[1], [2], [2, 2], [1, 2, 3]])
                       for _ in range(rnd.randint(1, 2))],
            'whole': rnd.random() < .1, 'bad': False}


def bad(rnd, i):
    s = one(rnd, rnd.randint(2, 4), rnd.randint(2, 3), rnd.randint(1, 3),
            [1, 1, 1, 1], 'malformed')
    s['lens'] = [1] * s['N']
    s['bad'] = True
    s['how'] = ['N', 'T', 'dim', 'type', 'lens'][i % 5]
    if s['how'] == 'lens':
        s['by'], s['whole'] = 'list', False
    s['shapes'] = [[1], [2]]
    return s


def build(sc):
    import random
    import numpy as np
    N, T = sc['N'], sc['T']
    rnd = random.Random(sc['seed'])
    data = {}
    v = 1
    for i, sh in enumerate(sc['shapes']):
        n = int(np.prod(sh)) * N * T
        data['d%d' % i] = np.arange(v, v + n, dtype=float).reshape(
            [T, N] + sh)
        v += n
    if sc['by'] == 'mask':
        m = np.zeros((T, N, 1))
        for k, ln in enumerate(sc['lens']):
            for t in range(ln):
                m[t, k, 0] = rnd.choice([1, 1, 2]) if not sc['holes'] or \
                    t == ln - 1 or rnd.random() < .6 else 0
        data[sc['cutname']] = m
    return data


def execute(sc):
    import numpy as np
    from brainstorm.data_iterators import Minibatches, Undivided
    data = build(sc)
    keep = {k: v.copy() for k, v in data.items()}
    if sc['bad']:
        h = sc['how']
        if h == 'N':
            data['d1'] = data['d1'][:, :-1]
        elif h == 'T':
            data['d1'] = data['d1'][:-1]
        elif h == 'dim':
            data['d1'] = data['d1'][..., 0]
        elif h == 'type':
            data['d1'] = data['d1'].tolist()
    kw = {}
    if sc['by'] == 'mask':
        if sc['cutname'] != 'mask':
            kw['cut_according_to'] = sc['cutname']
    elif sc['by'] == 'list':
        lens = list(sc['lens'])
        if sc['bad'] and sc['how'] == 'lens':
            lens.append(1)
        kw['cut_according_to'] = {'list': list, 'tuple': tuple,
                                  'array': np.array}[sc['listtype']](lens)

    def make():
        if sc['whole']:
            return Undivided(**data)
        return Minibatches(batch_size=sc['bs'], shuffle=sc['shuffle'], **dict(
            kw, **data))
    out = {k: sc[k] for k in ('N', 'T', 'bs', 'by', 'lens', 'shuffle',
                              'whole', 'bad', 'cutname')}
    out['refused'] = False
    out['ev'] = ev = []
    try:
        it = make()
    except Exception:
        out['refused'] = True
        return out
    if sc['bad']:
        return out

    def lists(a):
        a = np.asarray(a)
        a = a.reshape(a.shape[0], a.shape[1], int(np.prod(a.shape[2:])))
        return a.astype(int).tolist()
    out['data'] = {k: lists(v) for k, v in keep.items()}
    it.rnd.set_seed(sc['seed'])
    seen = []
    for e in range(sc['epochs']):
        ev.append({'o': 'epoch', 'len': it.length})
        for d in it():
            d = {k: lists(v) for k, v in d.items()}
            seen.append(d)
            ev.append({'o': 'batch', 'd': d})
    it2 = make()
    np.random.rand(3)
    it2.rnd.set_seed(sc['seed'])
    seen2 = []
    for e in range(sc['epochs']):
        for d in it2():
            seen2.append({k: lists(v) for k, v in d.items()})
    # the iterator itself, started anew with the same seed
    it.rnd.set_seed(sc['seed'])
    seen3 = []
    for e in range(sc['epochs']):
        for d in it():
            seen3.append({k: lists(v) for k, v in d.items()})
    ev.append({'o': 'again', 'same': seen == seen2 and seen == seen3})
    return out
