"""C15: modifiers act on exactly the referenced parameters, in order."""
from drivers.c14 import pattern, glob
TRACE_SPEC = 'ModifiersTrace'
S = 1 << 20
CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
       'CONSTANTS MaxOps = %d MaxList = %d\n'
       'INVARIANTS UnmodifiedStay ClippedLast MaskedLast FrozenLast Emit\n'
       'PROPERTIES FrozenForever\n')
VIEWS = {'FullyConnected': ['W', 'bias'], 'Recurrent': ['W', 'R', 'bias'],
         'Dropout': []}


def scenarios(ctx):
    rnd = ctx.rnd
    r = ctx.models([('ModifiersMC', CFG % ctx.pick((4, 2), (5, 2)), {})])
    ms = sorted(r[0].lines, key=str)
    rnd.shuffle(ms)
    out = [model(rnd, m) for m in ms[:ctx.pick(180, 3000)]]
    out += [rand(rnd) for _ in range(ctx.pick(320, 5000))]
    return out


def model(rnd, m):
    """a FullyConnected layer with W of shape (1, 2) and one with bias (2)"""
    s = {'kind': 'model', 'layers': [['FullyConnected', 'A', 2],
                                     ['FullyConnected', 'B', 1]],
         'dtype': rnd.choice(['f8', 'f4', 'debug'])}
    side = rnd.choice(['w', 'g'])
    refs = []
    s['leaves'] = []
    for (ln, vn), lst in zip((('B', 'W'), ('A', 'bias')), m['ms']):
        if lst or rnd.random() < .3:
            s['leaves'].append(lst)
            refs.append({'p': [ln], 'sub': [{
                'p': list(vn), 'leaf': len(s['leaves'])}]})
    s['hist'] = [{'o': 'set_' + side, 'refs': refs, 'how': 'dict'}]
    for o in m['ops']:
        if o == 'bump':
            s['hist'].append({'o': 'write', 'side': side,
                              'seed': rnd.randrange(10 ** 6)})
        else:
            s['hist'].append({'o': 'apply_' + side})
        if side == 'w' and rnd.random() < .1:
            s['hist'].append({'o': 'move', 'dtype': rnd.choice(
                ['f8', 'f4', 'debug', 'debug'])})
    return s


def mod(rnd, side, n):
    k = rnd.choice(['clip', 'mask', 'freeze', 'norm', 'add', 'dbl', 'clip',
                    'freeze'] + (['l1', 'l2', 'l1', 'l2'] if side == 'g'
                                 else []))
    if n is None and k == 'mask':
        k = 'clip'
    if k == 'clip':
        lo = rnd.choice([-S, -S // 2, 0, -2 * S])
        return {'k': k, 'lo': lo, 'hi': rnd.choice([S, S // 2, S // 4]),
                } if rnd.random() < .7 else {'k': k, 'lo': -S, 'hi': S,
                                             'short': True}
    if k == 'mask':
        return {'k': k, 'vals': [rnd.choice([0, S, S, S // 2])
                                 for _ in range(n)]}
    if k == 'freeze':
        if n is not None and rnd.random() < .4:
            return {'k': k, 'vals': [rnd.randint(-8, 8) * S // 4
                                     for _ in range(n)]}
        return {'k': k, 'vals': []}
    if k == 'norm':
        return {'k': k, 'limit': rnd.choice([S, 2 * S, S // 2, 20 * S])}
    if k in ('l1', 'l2'):
        return {'k': k, 'f': rnd.choice([S // 4, S // 2, S, S // 8])}
    if k == 'add':
        return {'k': k, 'c': rnd.choice([S // 2, -S, S // 4])}
    return {'k': k}


def rand(rnd):
    types = [rnd.choice(['FullyConnected', 'FullyConnected', 'Recurrent',
                         'Dropout']) for _ in range(rnd.randint(1, 3))]
    names = rnd.sample(['A', 'AB', 'A1', 'B', 'hid', 'hid1', 'XA'],
                       len(types))
    s = {'kind': 'random', 'layers': [[t, n, rnd.randint(1, 3)] for t, n in
                                      zip(types, names)],
         'dtype': rnd.choice(['f8', 'f8', 'f4', 'debug'])}
    s['leaves'] = []
    shapes = {}
    n = 2
    for t, name, size in s['layers']:
        if t == 'FullyConnected':
            shapes[name] = {'W': size * n, 'bias': size}
        elif t == 'Recurrent':
            shapes[name] = {'W': size * n, 'R': size * size, 'bias': size}
        else:
            shapes[name] = {}
            continue
        n = size
    s['hist'] = h = []
    for side in rnd.choice([['w'], ['g'], ['w', 'g'], ['g', 'w']]):
        h.append({'o': 'set_' + side, 'refs': dic(rnd, s, shapes, side),
                  'how': rnd.choice(['dict', 'kw', 'mix', 'mix', 'default'])})
    for _ in range(rnd.randint(3, 8)):
        o = rnd.choice(['apply_w', 'apply_g', 'apply_w', 'apply_g', 'write',
                        'write', 'backward', 'update', 'forward', 'set',
                        'move'])
        e = {'o': o}
        if o == 'write':
            e.update(side=rnd.choice('wg'), seed=rnd.randrange(10 ** 6))
        elif o == 'update':
            e['lr'] = rnd.choice([S, S // 2, S // 4])
            e['n'] = rnd.randint(1, 2)
        elif o == 'move':
            e['dtype'] = rnd.choice(['f8', 'f4', 'debug', 'debug'])
        elif o == 'set':
            side = rnd.choice('wg')
            e = {'o': 'set_' + side, 'refs': dic(rnd, s, shapes, side),
                 'how': 'dict'}
        h.append(e)
    return s


def dic(rnd, s, shapes, side):
    out = []
    seen = set()
    names = [n for _, n, _ in s['layers']] + ['Input']
    for _ in range(rnd.randint(0, 3)):
        p = pattern(rnd, names)
        if p in seen or p in ('default', 'fallback') or not p:
            continue
        seen.add(p)
        ls = [n for n in shapes if glob(p, n)]
        e = {'p': list(p)}
        if rnd.random() < .6 and ls:
            e['sub'] = []
            sub = set()
            for _ in range(rnd.randint(1, 2)):
                vs = sorted(set(v for n in ls for v in shapes[n])) or ['W']
                vp = pattern(rnd, vs)
                if vp in sub or not vp:
                    continue
                sub.add(vp)
                sizes = [shapes[n][v] for n in ls for v in shapes[n]
                         if glob(vp, v)]
                e['sub'].append({'p': list(vp), 'leaf': leaf(
                    rnd, s, side, sizes[0] if len(sizes) == 1 else None)})
            if rnd.random() < .3:
                e['sub'].append({'p': list('default'),
                                 'leaf': leaf(rnd, s, side, None)})
        else:
            e['leaf'] = leaf(rnd, s, side, None)
        out.append(e)
    if rnd.random() < .4:
        out.append({'p': list('default'), 'leaf': leaf(rnd, s, side, None)})
    if rnd.random() < .05:
        out.append({'p': list('fallback'), 'leaf': leaf(rnd, s, side, None)})
    return out


def leaf(rnd, s, side, n):
    if s['leaves'] and rnd.random() < .1 and n is None:
        for i, l in enumerate(s['leaves']):    # the same object once more
            if all(m['k'] in ('clip', 'add', 'dbl') for m in l):
                return i + 1
    s['leaves'].append([mod(rnd, side, n) for _ in range(
        1 if rnd.random() < .5 else rnd.randint(1, 3))])
    return len(s['leaves'])


def build(sc):
    import brainstorm as bs
    from brainstorm import layers as L
    last = inp = L.Input({'default': ('T', 'B', 2), 'targets': ('T', 'B', 1)})
    for t, name, size in sc['layers']:
        last = last >> (L.Dropout(name=name) if t == 'Dropout' else
                        getattr(L, t)(size, name=name))
    inp - 'targets' >> L.Loss(name='Loss')
    net = bs.Network.from_layer(inp)
    net.set_handler(handler(sc['dtype']))
    return net


def handler(dtype):
    import numpy as np
    from brainstorm.handlers import NumpyHandler
    h = NumpyHandler(np.float32 if dtype == 'f4' else np.float64)
    if dtype == 'debug':
        from brainstorm.handlers.debug_handler import DebugHandler
        h = DebugHandler(h)
    return h


def execute(sc):
    import numpy as np
    from brainstorm import value_modifiers as V
    from brainstorm.data_iterators import Undivided
    from brainstorm.hooks import StopAfterEpoch
    from brainstorm.training.trainer import Trainer
    from brainstorm.training.steppers import SgdStepper
    from vlib import enc

    class Add(V.ValueModifier):
        def __init__(self, c):
            super(Add, self).__init__()
            self.c = c

        def __call__(self, handler, view):
            handler.add_st(self.c, view, view)

    class Double(V.ValueModifier):
        def __call__(self, handler, view):
            handler.mult_st(2, view, view)

    net = build(sc)
    tree = []
    for ln, view in sorted(net.buffer.items()):
        if not hasattr(view, 'keys'):
            continue
        p = view.parameters
        vs = sorted(p.keys()) if p is not None else []
        tree.append({'c': list(ln), 'n': ln, 'views': [
            {'c': list(vn), 'n': vn, 'shape': list(p[vn].shape)}
            for vn in vs]})

    def make(m, shape):
        k = m['k']
        if k == 'clip':
            return V.ClipValues() if m.get('short') else \
                V.ClipValues(m['lo'] / S, m['hi'] / S)
        if k == 'mask':
            return V.MaskValues(np.array(m['vals'], dtype=float).reshape(
                shape) / S)
        if k == 'freeze':
            if m['vals']:
                return V.FreezeValues(np.array(m['vals'], dtype=float)
                                      .reshape(shape) / S)
            return V.FreezeValues()
        if k == 'norm':
            return V.ConstrainL2Norm(m['limit'] / S)
        if k == 'l1':
            return V.L1Decay(m['f'] / S)
        if k == 'l2':
            return V.L2Decay(m['f'] / S)
        return Add(m['c'] / S) if k == 'add' else Double()

    def views_of(p, vp):
        return [v['shape'] for t in tree for v in t['views']
                if glob(p, t['n']) and glob(vp, v['n'])]
    objs = {}

    def real_leaf(i, shapes):
        if i not in objs:
            sh = shapes[0] if shapes else [1]
            out = []
            for m in sc['leaves'][i - 1]:
                n = len(m.get('vals', []))
                good = [s for s in shapes if int(np.prod(s)) == n]
                out.append(make(m, (good or [sh])[0]
                                if not n or good else [n]))
            objs[i] = out[0] if len(out) == 1 else out
        return objs[i]

    def real(refs, p=None):
        d = {}
        for e in refs:
            k = ''.join(e['p'])
            if 'sub' in e:
                d[k] = real(e['sub'], k)
            else:
                d[k] = real_leaf(e['leaf'],
                                 views_of(p, k) if p is not None else [])
        return d

    def show(d):
        return sorted((k, show(v) if isinstance(v, dict) else
                       (type(v).__name__, id(v), [id(x) for x in v] if
                        isinstance(v, list) else 0)) for k, v in d.items())

    def values(kind):
        return [[enc.fxflat(net.get('%s.%s.%s' % (t['n'], kind, v['n'])))
                 for v in t['views']] for t in tree]

    def write(kind, seed):
        rs = np.random.RandomState(seed)
        for t in tree:
            for v in t['views']:
                net.handler.set_from_numpy(
                    net.buffer[t['n']][kind][v['n']],
                    rs.randint(-16, 17, v['shape']) / 8.)
    write('parameters', 1)
    write('gradients', 2)
    data = {'default': np.random.RandomState(0).randn(2, 3, 2),
            'targets': np.ones((2, 3, 1))}
    net.provide_external_data(data)
    out = {'tree': tree, 'leaves': sc['leaves'], 'P': values('parameters'),
           'G': values('gradients'), 'ev': []}

    def record(o, **kw):
        out['ev'].append(dict(kw, o=o, P=values('parameters'),
                              G=values('gradients')))
    for h in sc['hist']:
        o = h['o']
        if o in ('set_w', 'set_g'):
            d = real(h['refs'])
            f = net.set_weight_modifiers if o == 'set_w' else \
                net.set_gradient_modifiers
            rej = False
            before = show(d)
            try:
                if h['how'] == 'default' and list(d) == ['default']:
                    f(d['default'])
                elif h['how'] == 'kw':
                    f(**d)
                elif h['how'] == 'mix' and len(d) > 1:
                    ks = sorted(d)
                    d1 = {k: d[k] for k in ks[::2]}
                    f(d1, **{k: d[k] for k in ks[1::2]})
                    if sorted(d1) != ks[::2]:
                        before = None
                else:
                    f(d)
            except Exception:
                rej = True
            record(o, refs=h['refs'], rejected=rej,
                   altered=show(d) != before)
        elif o == 'write':
            write('parameters' if h['side'] == 'w' else 'gradients',
                  h['seed'])
            record(o)
        elif o == 'apply_w':
            net.apply_weight_modifiers()
            record(o)
        elif o == 'apply_g':
            net.apply_gradient_modifiers()
            record(o)
        elif o == 'move':
            net.set_handler(handler(h['dtype']))
            net.provide_external_data(data)
            write('gradients', 2)
            record(o)
        elif o == 'forward':
            net.forward_pass(training_pass=True)
            record(o)
        elif o == 'backward':
            net.forward_pass(training_pass=True)
            net.backward_pass()
            record(o)
        else:
            tr = Trainer(SgdStepper(h['lr'] / S), verbose=False)

            from brainstorm.hooks import Hook

            class Rec(Hook):
                def __init__(self):
                    super(Rec, self).__init__('rec', 'update', 1)

                def __call__(self, epoch_nr, update_nr, net, stepper, logs):
                    if update_nr:
                        record('update', lr=h['lr'])
            tr.add_hook(Rec())
            tr.add_hook(StopAfterEpoch(h['n']))
            tr.train(net, Undivided(**data))
            net.provide_external_data(data)
    return out
