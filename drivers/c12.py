"""C12: wrapping iterators change only what they document."""
TRACE_SPEC = 'TransformsTrace'
CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
       'CONSTANTS MaxLen = %d H0 = %d W0 = %d\n'
       'INVARIANTS OnlyKnownPixels Rectangular AtMostOnce Neighbours Upright '
       'FlipTwice CropUndoesPad Emit\n')


def scenarios(ctx):
    rnd = ctx.rnd
    r = ctx.models([('TransformsMC', CFG % ctx.pick((3, 2, 3), (4, 2, 3)),
                     {}), ('TransformsMC', CFG % (2, 3, 3), {})])
    pipes = {}
    for q, hw in zip(r, ((2, 3), (3, 3))):
        for h in q.lines:
            pipes[str((hw, h))] = (hw, h)
    keys = sorted(pipes)
    rnd.shuffle(keys)
    out = []
    for k in keys[:ctx.pick(160, 3000)]:
        hw, h = pipes[k]
        s = base(rnd, 'model')
        s['names'] = {'default': [hw[0], hw[1], rnd.randint(1, 2)],
                      'other': [2]}
        s['stages'] = [from_model(rnd, m) for m in h]
        out.append(s)
    for i in range(ctx.pick(260, 3000)):
        out.append(mixed(rnd))
    for i in range(ctx.pick(32, 160)):
        out.append(stat(rnd, i))
    for i in range(ctx.pick(60, 240)):
        out.append(bad(rnd, i))
    return out


def base(rnd, kind):
    return {'kind': kind, 'T': rnd.randint(1, 3), 'N': rnd.randint(1, 4),
            'bs': rnd.choice([0, 0, 1, 2, 3]), 'epochs': rnd.randint(1, 3),
            'seed': rnd.randrange(10 ** 6), 'bad': False, 'stat': False,
            'dtype': rnd.choice(['f8', 'f8', 'f4', 'i8']),
            'handler': rnd.random() < .3,
            'order': rnd.choice(['C', 'C', 'F'])}


def from_model(rnd, m):
    if m['k'] == 'flip':
        return {'k': 'flip', 'p': {'default': {'prob': m['prob']}}}
    if m['k'] == 'pad':
        return {'k': 'pad', 'p': {'default': {
            'size': m['size'], 'val': rnd.choice([0, 2000, -1500])}}}
    return {'k': 'crop', 'p': {'default': {'h': m['h'], 'w': m['w']}}}


IMG = ('flip', 'pad', 'crop')


def mixed(rnd):
    s = base(rnd, 'mixed')
    s['names'] = {'default': [rnd.randint(1, 3), rnd.randint(1, 4),
                              rnd.randint(1, 2)],
                  'img': [rnd.randint(1, 3), rnd.randint(1, 3), 1],
                  'idx': [1], 'idx2': [1], 'multi': [rnd.randint(1, 3)],
                  'vec': [rnd.randint(1, 3)]}
    for n in list(s['names']):
        if n != 'default' and rnd.random() < .35:
            del s['names'][n]
    shapes = {n: list(v) for n, v in s['names'].items()}
    done = set()
    st = s['stages'] = []
    for i in range(rnd.randint(1, 4)):
        k = rnd.choice(['flip', 'pad', 'crop', 'gauss', 'snp', 'onehot',
                        'multihot', 'onehot', 'multihot'])
        if k in IMG:
            c = [n for n in shapes if len(shapes[n]) == 3]
        elif k == 'onehot':
            c = [n for n in ('idx', 'idx2') if n in shapes and n not in done]
        elif k == 'multihot':
            c = [n for n in ('multi', 'idx', 'idx2') if n in shapes and
                 n not in done]
        else:
            c = sorted(shapes)
        if not c:
            continue
        c = rnd.sample(sorted(c), rnd.randint(1, len(c)))
        p = {}
        for n in c:
            sh = shapes[n]
            done.add(n)
            if k == 'flip':
                p[n] = {'prob': rnd.choice([0, 300, 500, 1000])}
            elif k == 'pad':
                z = rnd.choice([0, 1, 1, 2])
                p[n] = {'size': z, 'val': rnd.choice([0, 3000, -500])}
                sh[0] += 2 * z
                sh[1] += 2 * z
            elif k == 'crop':
                p[n] = {'h': rnd.randint(1, sh[0]), 'w': rnd.randint(1, sh[1])}
                sh[0], sh[1] = p[n]['h'], p[n]['w']
            elif k in ('onehot', 'multihot'):
                p[n] = {'v': rnd.choice([5, 6, 7, 8])}
                shapes[n] = [p[n]['v']]
            elif k == 'gauss':
                p[n] = {'std': rnd.choice([0, 0, 500, 2000]),
                        'mean': rnd.choice([0, 1000, -250])}
            else:
                p[n] = {'prob': rnd.choice([0, 300, 1000]),
                        'ratio': rnd.choice([0, 250, 500, 1000])}
        d = {'k': k, 'p': p}
        defaults(rnd, d)
        st.append(d)
    if not st:
        return mixed(rnd)
    return s


def defaults(rnd, d):
    """sometimes leave the optional argument out"""
    if rnd.random() < .3:
        if d['k'] == 'pad':
            d['short'] = True
            for q in d['p'].values():
                q['val'] = 0
        elif d['k'] == 'gauss':
            d['short'] = True
            for q in d['p'].values():
                q['mean'] = 0
        elif d['k'] == 'snp':
            d['short'] = True
            for q in d['p'].values():
                q['ratio'] = 500
        elif d['k'] == 'flip' and sorted(d['p']) == ['default']:
            d['short'] = True
            d['p']['default']['prob'] = 500


def stat(rnd, i):
    s = base(rnd, 'statistics')
    s.update(stat=True, bs=0, epochs=2, dtype='f8')
    k = ['gauss', 'snp', 'flip', 'crop'][i % 4]
    if k == 'gauss':
        s.update(T=10, N=12)
        s['names'] = {'a': [12], 'b': [12], 'c': [1]}
        p = {n: {'std': rnd.choice([500, 2000]),
                 'mean': rnd.choice([0, 3000, -1000])} for n in 'ab'}
    elif k == 'snp':
        s.update(T=10, N=12)
        s['names'] = {'a': [12], 'c': [1]}
        p = {'a': {'prob': rnd.choice([200, 600, 1000]),
                   'ratio': rnd.choice([200, 800])}}
    elif k == 'flip':
        s.update(T=1, N=200)
        s['names'] = {'default': [1, 2, 1]}
        p = {'default': {'prob': rnd.choice([250, 750])}}
    else:
        h, w = rnd.randint(1, 4), rnd.randint(1, 4)
        dh, dw = rnd.randint(0, h - 1), rnd.randint(0, w - 1)
        if i % 8 > 3:           # more room in one direction than the other
            (h, dh), (w, dw) = rnd.choice([((2, 1), (4, 3)), ((4, 3), (2, 1)),
                                           ((3, 1), (4, 2)), ((4, 2), (3, 1)),
                                           ((3, 1), (3, 2)), ((4, 2), (4, 1))])
        k2 = (dh + 1) * (dw + 1)
        s.update(T=1, N=120 if k2 <= 6 else 380)
        s['names'] = {'default': [h, w, 1]}
        p = {'default': {'h': h - dh, 'w': w - dw}}
    s['stages'] = [{'k': k, 'p': p}]
    return s


BAD = ['key', 'rank', 'keys', 'prob', 'vocab', 'shape', 'large', 'negative',
       'nested']


def bad(rnd, i):
    s = base(rnd, 'improper')
    s['bad'] = True
    s['names'] = {'default': [2, 3, 1], 'idx': [1], 'vec': [2]}
    how = s['how'] = BAD[i % len(BAD)]
    P = {'flip': {'prob': 500}, 'pad': {'size': 1, 'val': 0},
         'crop': {'h': 1, 'w': 1}, 'onehot': {'v': 4}, 'multihot': {'v': 4},
         'gauss': {'std': 1000, 'mean': 0}, 'snp': {'prob': 500,
                                                    'ratio': 500}}
    if how == 'key':
        k = rnd.choice(sorted(P))
        good = 'idx' if k in ('onehot', 'multihot') else 'default'
        st = {'k': k, 'p': {good: P[k], 'nope': P[k]}}
    elif how == 'rank':
        k, n = rnd.choice([('flip', 'vec'), ('pad', 'vec'), ('crop', 'idx'),
                           ('onehot', 'default'), ('onehot', 'vec'),
                           ('multihot', 'default')])
        st = {'k': k, 'p': {n: P[k]}}
    elif how == 'keys':
        k = rnd.choice(['gauss', 'snp', 'pad'])
        st = {'k': k, 'p': {'default': P[k]},
              'second': rnd.choice([{}, {'vec': 0}, {'default': 0,
                                                     'vec': 0}])}
    elif how == 'prob':
        st = {'k': 'flip', 'p': {'default': {
            'prob': rnd.choice([-100, 1001, 2000])}}}
    elif how == 'vocab':
        k = rnd.choice(['onehot', 'multihot'])
        st = {'k': k, 'p': {'idx': {'v': rnd.choice([4.0, '4', None])}}}
    elif how == 'shape':
        st = {'k': 'crop', 'p': {'default': {'raw': rnd.choice(
            [[1, 1], 2, 'ab'])}}}
    elif how == 'large':
        st = {'k': 'crop', 'p': {'default': rnd.choice(
            [{'h': 3, 'w': 1}, {'h': 1, 'w': 4}, {'h': 9, 'w': 9}])}}
    elif how == 'negative':
        st = {'k': 'crop', 'p': {'default': rnd.choice(
            [{'h': -1, 'w': 1}, {'h': 1, 'w': -1}])}}
    else:
        st = {'k': 'crop', 'p': {'default': {'h': 2, 'w': 1}}}
        s['stages'] = [{'k': 'crop', 'p': {'default': {'h': 1, 'w': 3}}}, st]
        return s
    s['stages'] = [st]
    return s


def data(sc):
    import numpy as np
    T, N = sc['T'], sc['N']
    out = {}
    v = 2
    rs = np.random.RandomState(sc['seed'])
    for n, sh in sorted(sc['names'].items()):
        size = T * N * int(np.prod(sh))
        if n in ('idx', 'idx2', 'multi'):
            a = rs.randint(0, 5, size).reshape([T, N] + sh)
        else:
            a = (np.arange(size) % 900 + v).reshape([T, N] + sh)
            a = a.astype(sc['dtype'])
            v += 3
        out[n] = np.array(a, order=sc['order'])
    return out


def stage(st, it):
    from brainstorm import data_iterators as D
    k, p = st['k'], st['p']

    def m(f):
        return {n: q[f] / 1000. for n, q in p.items()}
    second = st.get('second')
    if k == 'flip':
        return D.Flip(it) if st.get('short') else D.Flip(it, m('prob'))
    if k == 'pad':
        size = {n: q['size'] for n, q in p.items()}
        if st.get('short'):
            return D.Pad(it, size)
        return D.Pad(it, size, m('val') if second is None else second)
    if k == 'crop':
        return D.RandomCrop(it, {n: q['raw'] if 'raw' in q else
                                 (q['h'], q['w']) for n, q in p.items()})
    if k == 'onehot':
        return D.OneHot(it, {n: q['v'] for n, q in p.items()})
    if k == 'multihot':
        return D.MultiHot(it, {n: q['v'] for n, q in p.items()})
    if k == 'gauss':
        if st.get('short'):
            return D.AddGaussianNoise(it, m('std'))
        return D.AddGaussianNoise(it, m('std'),
                                  m('mean') if second is None else second)
    if st.get('short'):
        return D.AddSaltNPepper(it, m('prob'))
    return D.AddSaltNPepper(it, m('prob'),
                            m('ratio') if second is None else second)


def execute(sc):
    import numpy as np
    from brainstorm.data_iterators import (Undivided, Minibatches,
                                           DataIterator)
    from brainstorm.handlers import NumpyHandler

    def enc(a):
        return np.round(np.asarray(a).astype(float) * 1000).astype(
            int).tolist()

    class Probe(DataIterator):
        def __init__(self, it, log):
            DataIterator.__init__(self, it.data_shapes, it.length)
            self.it, self.log = it, log

        def __call__(self, handler=None):
            for d in (self.it() if handler is None else self.it(handler)):
                self.log.append((dict(d), {n: enc(a) for n, a in d.items()}))
                yield d

    d = data(sc)
    src = {n: a.copy() for n, a in d.items()}
    out = {k: sc[k] for k in ('bad', 'stat', 'epochs')}
    out['refused'] = False
    out['stages'] = stages = []
    sizes = {n: list(sh) for n, sh in sc['names'].items()}
    for st in sc['stages']:
        q = {n: dict(v) for n, v in st['p'].items()}
        if not sc['bad']:
            for n, v in q.items():
                v['rank'] = len(sizes[n]) + 2
                if st['k'] == 'pad':
                    v['C'] = sizes[n][2]
        if not sc['bad']:
            stages.append({'k': st['k'], 'p': q})

    def build(logs):
        if sc['bs']:
            it = Minibatches(sc['bs'], shuffle=False, **d)
        else:
            it = Undivided(**d)
        its = [it]
        logs.append([])
        it = Probe(it, logs[-1])
        for i, st in enumerate(sc['stages']):
            it = stage(st, it)
            it.rnd.set_seed(sc['seed'] + i)
            its.append(it)
            logs.append([])
            it = Probe(it, logs[-1])
        return it, its
    logs = []
    try:
        it, its = build(logs)
    except Exception:
        out['refused'] = True
        return out
    if sc['bad']:
        out['stages'] = []
        return out
    h = NumpyHandler(np.float64) if sc['handler'] else None
    nb = 0
    for e in range(sc['epochs']):
        for b in (it(h) if sc['handler'] else it()):
            nb += 1
    step = sc['bs'] or sc['N']
    out['src'] = [{n: enc(a[:, i:i + step]) for n, a in src.items()}
                  for i in range(0, sc['N'], step)]
    k = len(out['src'])
    out['ev'] = []
    for i in range(nb):
        outs = [lg[i] for lg in logs if len(lg) > i]
        out['ev'].append({'b': i % k + 1, 'outs': [o[1] for o in outs],
                          'after': [{n: enc(a) for n, a in o[0].items()}
                                    for o in outs]})
    out['length'] = it.length
    out['shapes'] = [{n: list(v[2:]) for n, v in x.data_shapes.items()}
                     for x in its]
    out['yielded'] = [{n: list(np.shape(a)[2:]) for n, a in
                       lg[0][0].items()} for lg in logs]
    logs2 = []
    it, its = build(logs2)
    np.random.rand(2)
    for e in range(sc['epochs']):
        for b in it(h):
            pass
    out['again'] = [o[1] for o in logs2[-1]] == [o[1] for o in logs[-1]]
    return out
