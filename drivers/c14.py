"""C14: initialization follows the references; equal seeds, equal values."""
TRACE_SPEC = 'InitialTrace'
S = 1 << 20
CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
       'CONSTANTS MaxTop = %d MaxSub = 2 Deep = %s\n'
       'INVARIANTS ExplicitWins DefaultOnlyIfSilent StarMatchesAll OneRule '
       'OrderIrrelevant Emit\n')


def scenarios(ctx):
    rnd = ctx.rnd
    jobs = [('ReferencesMC', CFG % (2, 'TRUE'), {})]
    if not ctx.quick:
        jobs.append(('ReferencesMC', CFG % (3, 'FALSE'), {}))
    ms = {}
    for r in ctx.models(jobs):
        for q in r.lines:
            ms[str(sorted(map(str, q['refs'])))] = q
    ok = [ms[k] for k in sorted(ms) if ms[k]['ok']]
    no = [ms[k] for k in sorted(ms) if not ms[k]['ok']]
    rnd.shuffle(ok)
    rnd.shuffle(no)
    out = []
    n = ctx.pick(150, 4000)
    for q in ok[:n] + no[:n]:
        s = {'kind': 'model', 'layers': [['FullyConnected', 'A', 2],
                                         ['Only', 'AB', 3],
                                         ['Loss', 'L', 0]]}
        s['leaves'] = [leaf(rnd, ['const', 'gauss', 'uniform', 'normal'])
                       for _ in range(2)]
        s['hist'] = [{'refs': q['refs'], 'seed': rnd.randint(0, 5),
                      'how': rnd.choice(['dict', 'kw', 'mix'])}]
        out.append(s)
    for i in range(ctx.pick(260, 5000)):
        out.append(rand(rnd))
    for i in range(ctx.pick(42, 210)):
        out.append(big(rnd, i))
    for i in range(ctx.pick(26, 260)):
        out.append(again(rnd, i))
    for i in range(ctx.pick(160, 1600)):
        out.append(falling(rnd, i))
    for i in range(ctx.pick(24, 120)):      # real and complex eigenvalues
        s = again(rnd, 4)
        s.update(kind='echo', insize=2)
        s['layers'][0][2] = 2
        s['leaves'][0]['v'] = [S, S // 2, 3 * S // 2][i % 3]
        s['hist'] = s['hist'][:1]
        s['hist'][0]['seed'] = 100 + rnd.randint(0, 10 ** 6)
        out.append(s)
    for k in ('sparsein', 'sparseout'):
        out.append(orientation(k))
        for i in range(ctx.pick(3, 30)):
            s = orientation(k)
            s['leaves'][0].update(n=rnd.randint(3, 7),
                                  lo=rnd.choice([S, S // 4]))
            s['hist'][0]['seed'] = rnd.randint(0, 10 ** 6)
            s.update(kind='sparse connections', tag='', insize=10, swap=False)
            s['layers'][0][2] = 10
            out.append(s)
    return out


VIEWS = {'FullyConnected': ['W', 'bias'], 'Recurrent': ['W', 'R', 'bias'],
         'Lstm': ['Wz', 'Wi', 'Wf', 'Wo', 'pi', 'pf', 'po', 'Rz', 'Ri', 'Rf',
                  'Ro', 'bz', 'bi', 'bf', 'bo'],
         'BatchNorm': ['gamma', 'beta', 'mu', 'sigma'], 'Dropout': [],
         'Highway': [], 'Clockwork': ['W', 'R', 'bias', 'timing']}
NAMES = ['A', 'AB', 'A1', 'Ab_2', 'B', 'hid', 'hid1', 'hid2', 'XA', 'default1',
         'fallback_', 'w']


def leaf(rnd, kinds):
    k = rnd.choice(kinds)
    v = rnd.randint(-3, 3) * S + rnd.choice([0, S // 2, S // 4])
    if k == 'const':
        return {'k': 'const', 'v': v, 'int': v % S == 0}
    if k == 'gauss':
        return {'k': 'const', 'v': v, 'obj': 'gauss'}
    if k == 'array':
        sh = rnd.choice([[2], [3], [2, 2], [3, 2], [2, 3], [1], [1, 2],
                         [3, 3]])
        n = 1
        for d in sh:
            n *= d
        return {'k': 'array', 'shape': sh, 'as': rnd.choice(['list', 'np',
                                                              'obj']),
                'vals': [rnd.randint(-4, 4) * S for _ in range(n)]}
    if k == 'ident':
        q = {'k': 'ident', 'v': v, 'square': rnd.random() < .7,
             'std': rnd.choice([0, 0, S // 4])}
        if rnd.random() < .15:
            q.update(v=S, std=S // 100, square=True, default=True)
        return q
    if k == 'uniform':
        return {'k': 'uniform', 'lo': min(v, v + S), 'hi': max(v, v + S)}
    if k == 'uniform1':
        return {'k': 'uniform', 'lo': -abs(v) - S, 'hi': abs(v) + S,
                'one': True}
    if k == 'normal':
        return {'k': 'normal', 'mean': v, 'std': rnd.choice([S // 4, S])}
    if k in ('fanin', 'faninout'):
        m = 1 if k == 'fanin' else 2
        a = rnd.choice(['rel', 'tanh', 'sigmoid', 'linear', 2.0, 0.0])
        sc2 = {'rel': 6 * m, 'tanh': 3 * m, 'sigmoid': 48 * m, 'linear': 1,
               2.0: 4, 0.0: 0}[a]
        return {'k': k, 'scale': a, 'scale2': sc2 * S}
    if k == 'echo':
        return {'k': 'echo', 'v': rnd.choice([S, S // 2, 3 * S // 2, 0])}
    if k == 'orth':
        return {'k': 'orth', 'v': rnd.choice([S, S // 2, 2 * S, 0])}
    if k in ('sparsein', 'sparseout'):
        v = v or S
        if rnd.random() < .5:
            # random values in the connected places
            return {'k': k, 'n': rnd.randint(1, 3), 'lo': S // 4,
                    'hi': rnd.choice([S, 2 * S])}
        return {'k': k, 'n': rnd.randint(1, 3), 'lo': v, 'hi': v}
    if k == 'lstmopt':
        lo = [rnd.randint(-3, 3) * S for _ in range(4)]
        hi = [a + rnd.choice([0, 0, S, S // 2]) for a in lo]
        if rnd.random() < .3:
            lo, hi = [lo[0]] * 4, [lo[0] + S] * 4
        return {'k': 'lstmopt', 'vals': lo, 'his': hi}
    return {'k': 'walk', 'act': rnd.choice(['linear', 'rel']),
            'scale': rnd.choice([-1, 0, S // 2, S, 2 * S])}


ALL = ['const', 'const', 'gauss', 'array', 'ident', 'uniform', 'uniform1',
       'normal', 'fanin', 'faninout', 'echo', 'orth', 'sparsein', 'sparseout',
       'lstmopt', 'walk']


def pattern(rnd, names):
    n = rnd.choice(names)
    r = rnd.random()
    if r < .45:
        return n
    if r < .55:
        return '*'
    if r < .65:
        return n[:rnd.randint(0, len(n))] + '*'
    if r < .75:
        return '*' + n[rnd.randint(0, len(n)):]
    if r < .85:
        i = rnd.randint(0, len(n))
        return n[:i] + '*' + n[rnd.randint(i, len(n)):]
    if r < .93:
        return '*' + n[:1] + '*'
    return rnd.choice(['nope', n + '_', 'x*', n[:-1] or 'q'])


def rand(rnd):
    types = [rnd.choice(['FullyConnected', 'Recurrent', 'Lstm', 'BatchNorm',
                         'FullyConnected', 'Clockwork', 'Dropout'])
             for _ in range(rnd.randint(1, 3))]
    names = rnd.sample(NAMES, len(types))
    s = {'kind': 'random', 'layers': [[t, n, rnd.randint(1, 4)] for t, n in
                                      zip(types, names)]}
    s['leaves'] = [leaf(rnd, ALL) for _ in range(rnd.randint(2, 5))]
    cs = set()
    for q in s['leaves']:        # plain numbers are told apart by value
        while q['k'] == 'const' and 'obj' not in q and q['v'] in cs:
            q['v'] += S // 8
            q['int'] = False
        if q['k'] == 'const' and 'obj' not in q:
            cs.add(q['v'])
    nl = len(s['leaves'])
    s['hist'] = []
    for _ in range(rnd.randint(1, 2)):
        refs = dic(rnd, names + ['Input', 'Output'], s, nl, True)
        s['hist'].append({'refs': refs, 'seed': rnd.choice(
            [-1, 0, 1, 2, 12345]), 'how': rnd.choice(['dict', 'kw', 'mix'])})
        if rnd.random() < .5:
            h = dict(s['hist'][-1])
            if rnd.random() < .4:
                h['seed'] = rnd.choice([-1, 3])
            s['hist'].append(h)
    return s


def dic(rnd, names, s, nl, top):
    out = []
    seen = set()
    for _ in range(rnd.randint(0, 3) if top else rnd.randint(0, 2)):
        p = pattern(rnd, names)
        if p in seen or p in ('default', 'fallback') or not p:
            continue
        seen.add(p)
        e = {'p': list(p)}
        if top and rnd.random() < .4:
            vs = []
            for t, n, _ in s['layers']:
                if glob(p, n):
                    vs += VIEWS[t]
            e['sub'] = dic(rnd, vs or ['W'], s, nl, False)
        else:
            e['leaf'] = rnd.randint(1, nl)
        out.append(e)
    if rnd.random() < (.8 if top else .3):
        out.append({'p': list('default'), 'leaf': rnd.randint(1, nl)})
    if rnd.random() < (.4 if top else .15):
        out.append({'p': list('fallback'), 'leaf': rnd.randint(1, nl)})
    rnd.shuffle(out)
    return out


def glob(p, n):
    import fnmatch
    return fnmatch.fnmatchcase(n, p)


def falling(rnd, i):
    """A rule that may fail for the shape, on any level, and fallbacks."""
    n, m = rnd.randint(1, 3), rnd.randint(1, 3)
    k = ['array', 'ident', 'array', 'echo', 'array', 'lstmopt', 'fanin',
         'walk'][i % 8]
    q = leaf(rnd, [k])
    if k == 'array':
        sh = [[n, m], [m], [1, m], [m, n], [1], [n * m], [n, 1], [n],
              [1, n, m]][i // 8 % 9]
        size = 1
        for d in sh:
            size *= d
        q.update(shape=sh, vals=[rnd.randint(-4, 4) * S for _ in range(size)])
    c = [{'k': 'const', 'v': v * S, 'int': True} for v in (7, 11, 13)]
    fall = rnd.choice([[], ['top'], ['top'], ['layer'], ['top', 'layer']])

    def ref(p, j):
        return {'p': list(p), 'leaf': j}
    sub = rnd.choice([[ref('W', 1), ref('bias', 4)], [ref('default', 1)],
                      [ref('bias', 1), ref('default', 4)],
                      [ref('W', 1)]])
    if 'layer' in fall:
        sub = sub + [ref('fallback', 2)]
    refs = [{'p': list('A'), 'sub': sub}]
    if 'layer' not in fall and rnd.random() < .3:
        refs = [ref('A', 1)]
    refs.append(ref('default', rnd.choice([1, 4, 4])))
    if 'top' in fall:
        refs.append(ref('fallback', 3))
    rnd.shuffle(refs)
    return {'kind': 'falling', 'insize': m,
            'layers': [['FullyConnected', 'A', n],
                       ['FullyConnected', 'B', rnd.randint(1, 3)]],
            'leaves': [q] + c,
            'hist': [{'refs': refs, 'seed': rnd.choice([-1, 0, 3]),
                      'how': rnd.choice(['dict', 'kw', 'mix'])}]}


def big(rnd, i):
    k = ['uniform', 'uniform1', 'normal', 'fanin', 'faninout', 'walk',
         'ident'][i % 7]
    conv = i // 7 % 2 == 1 and k not in ('walk', 'ident')
    q = leaf(rnd, [k])
    if k == 'walk':
        q.update(act=['linear', 'rel'][i // 7 % 2],
                 scale=[-1, -1, 0, S, 2 * S][i // 7 % 5])
    return {'kind': 'distribution', 'layers': [
        ['Convolution2D', 'A', 20] if conv else ['FullyConnected', 'A', 20]],
            'insize': [3, 4, 4] if conv else
            20 if k in ('walk', 'ident') else 25,
            'leaves': [q, {'k': 'const', 'v': S, 'int': True}],
            'hist': [{'refs': [{'p': ['A'], 'sub': [
                {'p': ['W'], 'leaf': 1}]}, {'p': list('default'), 'leaf': 2}],
                'seed': rnd.randint(0, 10 ** 6), 'how': 'dict'}]}


def again(rnd, i):
    """one random rule, with the same seed twice, then another"""
    k = ['uniform', 'normal', 'fanin', 'faninout', 'echo', 'orth', 'walk',
         'sparsein', 'sparsein', 'sparseout', 'sparseout', 'uniform1',
         'sparsein'][i % 13]
    n = rnd.randint(3, 4)
    q = leaf(rnd, [k])
    if 'sparse' in k:
        q.update(lo=S // 4, hi=S)
    h = [{'refs': [{'p': ['A'], 'sub': [{'p': ['W'], 'leaf': 1}]},
                   {'p': list('default'), 'leaf': 2}], 'seed': x,
          'how': 'dict'} for x in (5, 5, 6)]
    if rnd.random() < .5:
        h = [h[0], h[2], h[1]]
    return {'kind': 'again', 'layers': [['FullyConnected', 'A', n]],
            'insize': n, 'leaves': [q, {'k': 'const', 'v': S, 'int': True}],
            'hist': h}


def orientation(k):
    """sparse initializers as documented: per unit (or per input)"""
    return {'kind': 'sparse orientation', 'tag': 'sparse-orientation',
            'layers': [['FullyConnected', 'A', 4]], 'insize': 3,
            'swap': True,
            'leaves': [{'k': k, 'n': 2, 'lo': S, 'hi': S}, {'k': 'const', 'v': S,
                                                  'int': True}],
            'hist': [{'refs': [{'p': ['A'], 'sub': [
                {'p': ['W'], 'leaf': 1}]}, {'p': list('default'), 'leaf': 2}],
                'seed': 1, 'how': 'dict'}]}


def make_leaf(q):
    import numpy as np
    from brainstorm import initializers as I
    k = q['k']
    if k == 'const':
        if q.get('obj'):
            return I.Gaussian(std=0, mean=q['v'] / S)
        return q['v'] // S if q.get('int') else q['v'] / S
    if k == 'array':
        a = np.array(q['vals'], dtype=float).reshape(q['shape']) / S
        return {'list': a.tolist(), 'np': a,
                'obj': None if q['as'] != 'obj' else I.ArrayInitializer(a)}[
                    q['as']]
    if k == 'ident':
        if q.get('default'):
            return I.Identity()
        return I.Identity(scale=q['v'] / S, std=q['std'] / S,
                          enforce_square=q['square'])
    if k == 'uniform':
        if q.get('one'):
            return I.Uniform(q['hi'] / S)
        return I.Uniform(q['lo'] / S, q['hi'] / S)
    if k == 'normal':
        return I.Gaussian(std=q['std'] / S, mean=q['mean'] / S)
    if k == 'fanin':
        return I.DenseSqrtFanIn() if q['scale'] == 'rel' else \
            I.DenseSqrtFanIn(q['scale'])
    if k == 'faninout':
        return I.DenseSqrtFanInOut() if q['scale'] == 'rel' else \
            I.DenseSqrtFanInOut(q['scale'])
    if k == 'echo':
        return I.EchoState(q['v'] / S)
    if k == 'orth':
        return I.Orthogonal(q['v'] / S)
    if k in ('sparsein', 'sparseout'):
        lo, hi = q['lo'] / S, q['hi'] / S
        if lo < hi:
            sub = I.Uniform(lo, hi)
        else:
            sub = lo if k == 'sparsein' else I.Gaussian(std=0, mean=lo)
        return (I.SparseInputs if k == 'sparsein' else I.SparseOutputs)(
            sub, connections=q['n'])
    if k == 'lstmopt':
        return I.LstmOptInit(*[
            a / S if a == b else I.Uniform(a / S, b / S)
            for a, b in zip(q['vals'], q['his'])])
    if q['scale'] < 0:
        return I.RandomWalk(q['act'])
    return I.RandomWalk(q['act'], q['scale'] / S)


def build(sc):
    import brainstorm as bs
    from brainstorm import layers as L
    n = sc.get('insize', 2)
    sh = ('T', 'B') + (tuple(n) if isinstance(n, list) else (n,))
    last = inp = L.Input({'default': sh, 'targets': sh})
    for t, name, size in sc['layers']:
        if t == 'Loss':
            continue
        if t == 'Only':     # a layer with a single parameter is not built in
            continue
        if t in ('BatchNorm', 'Dropout'):
            l = getattr(L, t)(name=name)
        elif t == 'Convolution2D':
            l = L.Convolution2D(size, (2, 3), name=name)
        else:
            l = getattr(L, t)(size, name=name)
        last = last >> l
        if size and t not in ('BatchNorm', 'Dropout'):
            n = size
    last >> L.Loss(name='Loss')
    inp - 'targets' >> L.Loss(name='Loss2')
    return bs.Network.from_layer(inp)


def execute(sc):
    import copy
    import numpy as np
    from vlib import enc
    if sc['kind'] == 'model':
        net = model_net()
    else:
        net = build(sc)
    leaves = [make_leaf(q) for q in sc['leaves']]
    tree = []
    for ln, view in sorted(net.buffer.items()):
        if not hasattr(view, 'keys'):
            continue
        p = view.parameters
        vs = sorted(p.keys()) if p is not None else []
        tree.append({'c': list(ln), 'views': [
            {'c': list(vn), 'shape': list(p[vn].shape)} for vn in vs]})
        if sc.get('swap') and ln == 'A':
            W = [v for v in tree[-1]['views'] if v['c'] == ['W']][0]
            W['shape'] = W['shape'][::-1]
    def params():
        out = []
        for t in tree:
            row = []
            for v in t['views']:
                a = np.asarray(net.get('%s.parameters.%s' % (
                    ''.join(t['c']), ''.join(v['c']))))
                if sc.get('swap') and v['c'] == ['W']:
                    a = a.T
                row.append(enc.fxflat(a))
            out.append(row)
        return out

    def real(refs):
        d = {}
        for e in refs:
            d[''.join(e['p'])] = real(e['sub']) if 'sub' in e else \
                leaves[e['leaf'] - 1]
        return d

    def show(d):
        return sorted((k, show(v) if isinstance(v, dict) else
                       (type(v).__name__, id(v))) for k, v in d.items())
    lv = []
    for q in sc['leaves']:
        q = {k: v for k, v in q.items() if k not in (
            'int', 'obj', 'as', 'one', 'default')
            and (k != 'scale' or q['k'] == 'walk')}
        lv.append(q)
    out = {'tree': tree, 'leaves': lv, 'before': params(), 'ev': []}
    for h in sc['hist']:
        d = real(h['refs'])
        before = show(d)
        e = {'refs': h['refs'], 'seed': h['seed'], 'rejected': False,
             'rid': str(h['refs'])}
        kw = {} if h['seed'] < 0 else {'seed': h['seed']}
        try:
            if h['how'] == 'kw' and 'seed' not in d:
                net.initialize(**dict(d, **kw))
            elif h['how'] == 'mix' and len(d) > 1:
                ks = sorted(d)
                d1 = {k: d[k] for k in ks[::2]}
                net.initialize(d1, **dict({k: d[k] for k in ks[1::2]}, **kw))
                if sorted(d1) != ks[::2]:
                    before = None
            elif list(d) == ['default'] and h['how'] == 'mix':
                net.initialize(d['default'], **kw)
            else:
                net.initialize(d, **kw)
        except Exception as ex:
            e['rejected'] = True
            e['cls'] = type(ex).__name__
        e['refsame'] = before == show(d)
        e['after'] = params()
        out['ev'].append(e)
    return out


def model_net():
    """layers A (W, b), AB (W) and L (nothing), as in the design model"""
    import brainstorm as bs
    from brainstorm.layers.base_layer import Layer
    from collections import OrderedDict
    from brainstorm.structure.construction import ConstructionWrapper
    from brainstorm.structure.buffer_structure import (BufferStructure,
                                                       StructureTemplate)

    global Toy14LayerImpl
    if 'Toy14LayerImpl' not in globals():
        class Toy14LayerImpl(Layer):
            expected_inputs = {'default': StructureTemplate('T', 'B', '...')}
            expected_kwargs = {'views'}

            def setup(self, kwargs, in_shapes):
                outs = OrderedDict()
                outs['default'] = BufferStructure(
                    'T', 'B', *in_shapes['default'].feature_shape)
                ps = OrderedDict()
                for v in kwargs['views']:
                    ps[v] = BufferStructure(3, 2) if v == 'W' else \
                        BufferStructure(3)
                return outs, ps, OrderedDict()
        globals()['Toy14LayerImpl'] = Toy14LayerImpl
    arch = {
        'Input': {'@type': 'Input',
                  '@outgoing_connections': {'default': ['A']},
                  'out_shapes': {'default': ('T', 'B', 2)}},
        'A': {'@type': 'Toy14', 'views': ['W', 'b'],
              '@outgoing_connections': {'default': ['AB']}},
        'AB': {'@type': 'Toy14', 'views': ['W'],
               '@outgoing_connections': {'default': ['L']}},
        'L': {'@type': 'Toy14', 'views': [],
              '@outgoing_connections': {}}}
    return bs.Network.from_architecture(arch)
