"""Random networks and execution of histories on them (specs/NetTrace.tla).

A scenario: {'net': {'inputs': {name: shape}, 'nodes': [...]}, 'ops': [...],
'seed': n}.  All numbers are integers over 2**20.
"""
import random

S = 1 << 20
ACTS = ['linear', 'rel', 'sigmoid', 'tanh', 'el']


def grid(rnd, lo=-1.0, hi=1.0):
    v = 0
    while v == 0:
        v = int(round(rnd.uniform(lo, hi) * S))
    return v


def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


class Gen(object):
    """Builds a random network description."""

    def __init__(self, rnd, max_f=3):
        self.rnd = rnd
        self.inputs = {}
        self.kinds = {}          # how an input's data is drawn
        self.nodes = []
        self.pool = []           # (layer, port, feature shape)
        self.pairs = 0
        self.static = {}         # inputs without time ('B') or batch ('')
        self.max_f = max_f

    def add_input(self, name, shape, kind='real'):
        self.inputs[name] = list(shape)
        self.kinds[name] = kind
        if kind == 'real':
            self.pool.append(('Input', name, tuple(shape)))
        return ('Input', name, tuple(shape))

    def add_static(self):
        """A loss on an input that has no time (and maybe no batch)."""
        r = self.rnd
        dims = r.choice(['B', 'B', ''])
        shape = r.choice([(1,), (2,), (3,), (2, 2), (4,), (5,)])
        n = 's%d' % len(self.inputs)
        src = self.add_input(n, shape, 'static')
        self.static[n] = dims
        if r.random() < .4:
            s2 = shape[:-1] + (r.randint(1, 3),)
            n2 = 's%d' % len(self.inputs)
            b = self.add_input(n2, s2, 'static')
            self.static[n2] = dims
            out = shape[:-1] + (shape[-1] + s2[-1],)
            m = self.node('Merge', {'inputs_1': [src], 'inputs_2': [b]}, {},
                          {'la': shape[-1], 'lb': s2[-1]}, {})
            m['static'] = dims
            src = (m['n'], 'default', out)
        self.loss_layer([src], perbatch=dims == 'B')

    def name(self):
        # names whose order differs from the wiring order
        while True:
            n = self.rnd.choice('ABCDEFGHKLMNPQRSTUVWXYZabcxyz') + \
                str(self.rnd.randint(0, 9))
            if n not in [m['n'] for m in self.nodes]:
                return n

    def node(self, type, ins, kw=None, spec=None, outs=None, params=None):
        n = {'n': self.name(), 'type': type, 'ins': ins, 'kw': kw or {},
             'spec': spec or {}, 'params': params or {}}
        self.nodes.append(n)
        for port, shape in (outs or {}).items():
            self.pool.append((n['n'], port, tuple(shape)))
        return n

    def flat(self, multi=True, last=True):
        """One or two flat sources for one input."""
        c = [p for p in self.pool if len(p[2]) == 1]
        if not c or self.rnd.random() < .5:
            c = self.pool
        if last and self.rnd.random() < .75:
            c0 = c[-1]
        else:
            c0 = self.rnd.choice(c)
        if multi and self.pairs < 2 and len(c) > 1 \
                and prod(c0[2][:-1]) == 1 and self.rnd.random() < .35:
            c = [p for p in c if p != c0 and p[2][:-1] == c0[2][:-1]]
            if not c:
                return [c0], c0[2]
            c1 = self.rnd.choice(c)
            self.pairs += 1
            return [c0, c1], c0[2][:-1] + (c0[2][-1] + c1[2][-1],)
        return [c0], c0[2]

    def hidden(self, types=None):
        r = self.rnd
        t = r.choice(types or TYPES)
        if t in ('FullyConnected', 'Recurrent', 'Lstm', 'Clockwork',
                 'ClockworkLstm'):
            src, shape = self.flat()
            n_in, size = prod(shape), r.randint(1, self.max_f)
            if t == 'FullyConnected':
                act = r.choice(ACTS)
                kw = {'size': size, 'activation': act}
                oshape = (size,)
                if r.random() < .15:
                    oshape = r.choice([(2, 1), (1, 2, 1), (2, 1, 2)])
                    size = prod(oshape)
                    kw['size'] = list(oshape)
                elif r.random() < .15:
                    del kw['size']          # as many as inputs
                    oshape, size = shape, n_in
                self.node(t, {'default': src}, kw, {'act': act},
                          {'default': oshape},
                          {'W': [size, n_in], 'bias': [size]})
                return
            act = r.choice(['tanh', 'tanh', 'sigmoid', 'rel', 'linear', 'el'])
            kw = {'size': size, 'activation': act}
            spec = {'act': act, 'size': size,
                    'clock': t.startswith('Clockwork')}
            if t in ('Recurrent', 'Clockwork'):
                par = {'W': [size, n_in], 'R': [size, size], 'bias': [size]}
            else:
                par = {}
                for g in 'zifo':
                    par['W' + g] = [size, n_in]
                    par['R' + g] = [size, size]
                    par['b' + g] = [size]
                    if g != 'z':
                        par['p' + g] = [1, size]
            if spec['clock']:
                par['timing'] = [size]
            spec['st'] = 'Lstm' if 'L' in t or 'Lstm' in t else 'Recurrent'
            self.node(t, {'default': src}, kw, spec, {'default': (size,)},
                      par)
        elif t in ('NoOp', 'Elementwise', 'Dropout', 'DeltasScaling',
                   'BatchNorm'):
            src, shape = self.flat()
            kw, spec, par = {}, {'fs': list(shape)}, {}
            if t == 'Elementwise':
                kw = {'activation': r.choice(ACTS)}
                spec['act'] = kw['activation']
            elif t == 'Dropout':
                p = r.choice([0, 1, 2, 4, 6, 7])
                kw = {'drop_prob': p / 8.0}
                spec['prob'] = p * S // 8
            elif t == 'DeltasScaling':
                f = r.choice([-2, -1, 0, 3])
                kw = {'factor': f / 2.0}
                spec['factor'] = f * S // 2
            elif t == 'BatchNorm':
                d, e = r.choice([0, 8, 12, 15, 16]), r.choice([1, 2, 4])
                kw = {'decay': d / 16.0, 'epsilon': e / 16.0}
                spec.update(decay=d * S // 16, eps=e * S // 16)
                c = shape[-1]
                par = {'gamma': [c], 'beta': [c], 'mu': [c], 'sigma': [c]}
            self.node(t, {'default': src}, kw, spec, {'default': shape}, par)
        elif t == 'Highway':
            src, shape = self.flat(multi=False)
            same = [p for p in self.pool if p[2] == shape]
            self.node(t, {'H': [r.choice(same)], 'T': [r.choice(same)],
                          'x': src}, {}, {}, {'default': shape})
        elif t == 'Merge':
            a, sa = self.flat()
            b = [p for p in self.pool if p[2][:-1] == sa[:-1]]
            b = [r.choice(b)] if b else a
            sb = b[0][2] if len(b) == 1 else sa
            self.node(t, {'inputs_1': a, 'inputs_2': b}, {},
                      {'la': sa[-1], 'lb': sb[-1]},
                      {'default': sa[:-1] + (sa[-1] + sb[-1],)})
        elif t == 'SquaredDifference':
            src, shape = self.flat(multi=False)
            same = [p for p in self.pool if p[2] == shape]
            self.node(t, {'inputs_1': src, 'inputs_2': [r.choice(same)]}, {},
                      {}, {'default': shape})
        elif t == 'Mask':
            src, shape = self.flat()
            ms = r.choice([(1,), shape[:-1] + (1,), shape])
            if 'mask' in self.inputs and tuple(self.inputs['mask']) == ms:
                m = ('Input', 'mask', ms)
            elif 'mask' in self.inputs:
                return self.hidden()
            else:
                m = self.add_input('mask', ms, 'bin')
            self.node(t, {'default': src, 'mask': [m]}, {},
                      {'fs': list(shape)}, {'default': shape})
        elif t == 'Convolution2D' or t == 'Pooling2D':
            c = [p for p in self.pool if len(p[2]) == 3]
            if not c:
                return self.hidden()
            src = c[-1] if r.random() < .8 else r.choice(c)
            self.geometry(t, src)
        else:
            raise ValueError(t)

    def geometry(self, t, src, k=None, s=None, pad=None, act=None, f=None,
                 pool=None):
        r = self.rnd
        h, w, c = src[2]
        pad = r.choice([0, 0, 1, 2]) if pad is None else pad
        k = k or [r.randint(1, min(3, h + 2 * pad)),
                  r.randint(1, min(3, w + 2 * pad))]
        s = s or [r.randint(1, 3), r.randint(1, 3)]
        oh = (h + 2 * pad - k[0]) // s[0] + 1
        ow = (w + 2 * pad - k[1]) // s[1] + 1
        kw = {'kernel_size': k, 'stride': s, 'padding': pad}
        spec = {'k': k, 's': s, 'pad': pad, 'fs': [h, w, c]}
        if t == 'Convolution2D':
            f = f or r.randint(1, 2)
            act = act or r.choice(ACTS)
            kw.update(num_filters=f, activation=act)
            spec.update(act=act, os=[oh, ow, f])
            par = {'W': [f, k[0], k[1], c], 'bias': [f]}
            shape = (oh, ow, f)
        else:
            kw['type'] = pool or r.choice(['max', 'avg'])
            spec.update(pool=kw['type'], os=[oh, ow, c])
            par = {}
            shape = (oh, ow, c)
        return self.node(t, {'default': [src]}, kw, spec,
                         {'default': shape}, par)

    def loss(self, types=None, par_loss=True):
        r = self.rnd
        t = r.choice(types or LOSSES)
        if t == 'Param':
            c = [(m, p) for m in self.nodes for p in m['params']
                 if p not in ('timing', 'mu', 'sigma')]
            if not c:
                return self.loss()
            m, p = r.choice(c)
            self.loss_layer([(m['n'], p, None)], perbatch=False)
            return
        src, shape = self.flat()
        if t in ('SquaredError', 'SigmoidCE', 'BinomialCrossEntropy'):
            if t == 'BinomialCrossEntropy':
                o = r.choice([(1,), (2,), (3,), (2, 2)])
                n = prod(o)
                m = self.node('FullyConnected', {'default': src},
                              {'size': list(o) if len(o) > 1 else n,
                               'activation': 'sigmoid'},
                              {'act': 'sigmoid'}, {'default': o},
                              {'W': [n, prod(shape)], 'bias': [n]})
                src, shape = [(m['n'], 'default', o)], o
            tn = 'targets%d' % len(self.inputs)
            tg = self.add_input(tn, shape, 'real2' if t == 'SquaredError'
                                else 'bin')
            out = 'default' if t == 'BinomialCrossEntropy' else 'loss'
            outs = {'default': (1,)} if out == 'default' else {
                'predictions': shape, 'loss': shape}
        elif t == 'SoftmaxCE':
            tn = 'targets%d' % len(self.inputs)
            tg = self.add_input(tn, shape[:-1] + (1,), 'class%d' % shape[-1])
            out = 'loss'
            outs = {'predictions': shape, 'loss': shape[:-1] + (1,)}
        elif t in ('L1Decay', 'L2Decay'):
            tg, out, outs = None, 'loss', {'loss': (1,)}
        elif t == 'plain':
            self.loss_layer(src)
            return
        ins = {'default': src}
        if tg:
            ins['targets'] = [tg]
        if t == 'SquaredError' and r.random() < .3:
            t, ins = 'SquaredDifference', {'inputs_1': src, 'inputs_2': [tg]}
            out, outs = 'default', {'default': shape}
        m = self.node(t, ins, {}, {'fs': list(shape)}, {})
        # predictions may be read by further layers, the loss by Loss
        if 'predictions' in outs and r.random() < .3:
            self.pool.append((m['n'], 'predictions', outs['predictions']))
        self.loss_layer([(m['n'], out, outs[out])])

    def loss_layer(self, src, perbatch=True):
        imp = self.rnd.choice([4, 4, 2, 6, -3, 1, 0])
        self.node('Loss', {'default': src}, {'importance': imp / 4.0},
                  {'importance': imp * S // 4, 'perbatch': perbatch,
                   'parsrc': src[0][2] is None}, {})

    def net(self):
        return {'inputs': self.inputs, 'kinds': self.kinds,
                'nodes': self.nodes, 'static': self.static}


TYPES = ['FullyConnected', 'FullyConnected', 'Recurrent', 'Lstm', 'Clockwork',
         'ClockworkLstm', 'NoOp', 'Elementwise', 'Dropout', 'DeltasScaling',
         'BatchNorm', 'Highway', 'Merge', 'SquaredDifference', 'Mask']
LOSSES = ['SquaredError', 'SquaredError', 'SoftmaxCE', 'SigmoidCE',
          'BinomialCrossEntropy', 'L1Decay', 'L2Decay', 'plain', 'Param']


def random_data(rnd, net, T, B):
    out = {}
    for name, shape in net['inputs'].items():
        kind = net['kinds'][name]
        n = prod(shape)

        def draw():
            if kind == 'bin':
                return rnd.choice([0, S])
            if kind.startswith('class'):
                return rnd.randrange(int(kind[5:])) * S
            if kind == 'wide':          # saturates most functions
                return rnd.choice([0, 1, -1, 9, 30, 100, -100, 380, -380,
                                   399]) * S + grid(rnd)
            if kind == 'mid':           # sure of itself, right or wrong
                return rnd.choice([0, 4, -4, 9, -9, 11, -11]) * S \
                    + grid(rnd, -.4, .4)
            return grid(rnd)

        def row():
            if kind == 'wide' and rnd.random() < .5:    # rows far apart
                base = rnd.choice([390, -390]) * S
                return [base + grid(rnd) for _ in range(n)]
            return [draw() for _ in range(n)]
        dims = net.get('static', {}).get(name, 'TB')
        out[name] = [[row()
                      for _ in range(B if 'B' in dims else 1)]
                     for _ in range(T if 'T' in dims else 1)]
    return out


def random_params(rnd, net):
    out = {}
    for m in net['nodes']:
        if not m['params']:
            continue
        d = {}
        for p, shape in m['params'].items():
            n = prod(shape)
            if p == 'timing':
                d[p] = [rnd.randint(1, 3) * S for _ in range(n)]
            elif p == 'sigma':
                d[p] = [grid(rnd, .5, 2) for _ in range(n)]
            else:
                d[p] = [grid(rnd) for _ in range(n)]
        out[m['n']] = d
    return out


def shuffled(rnd, net):
    """The same network with its entries in another order."""
    n = dict(net)
    n['nodes'] = list(net['nodes'])
    rnd.shuffle(n['nodes'])
    return n


# ------------------------------------------------------------- execution

SPEC_TYPE = {'Clockwork': 'Recurrent', 'ClockworkLstm': 'Lstm'}


def architecture(net):
    ents = {'Input': {'@type': 'Input', 'out_shapes': {
        k: tuple(net.get('static', {}).get(k, 'TB')) + tuple(v)
        for k, v in net['inputs'].items()},
        '@outgoing_connections': {}}}
    for m in net['nodes']:
        e = {'@type': m['type'], '@outgoing_connections': {}}
        for k, v in m['kw'].items():
            e[k] = tuple(v) if isinstance(v, list) else v
        ents[m['n']] = e
    for m in net['nodes']:
        for port, srcs in m['ins'].items():
            for l, p, _ in srcs:
                if m['spec'].get('parsrc'):
                    p = '..parameters.' + p
                oc = ents[l]['@outgoing_connections'].setdefault(p, [])
                oc.append('%s.%s' % (m['n'], port))
    return ents


class Runner(object):
    def __init__(self, net_desc, handler='f64', seed=0):
        import numpy as np
        import brainstorm as bs
        self.np = np
        self.desc = net_desc
        self.by = {m['n']: m for m in net_desc['nodes']}
        self.net = bs.Network.from_architecture(architecture(net_desc))
        self.rnd = random.Random(seed)
        self.net.set_handler(self.handler(handler))
        self.ctx = []
        self.mine = {}
        self.last_fwd = None
        self.ops = []
        self.nfwd = 0

    def handler(self, kind):
        from brainstorm.handlers import NumpyHandler
        from brainstorm.handlers.debug_handler import DebugHandler
        np = self.np
        h = NumpyHandler(np.float32 if kind == 'f32' else np.float64,
                         seed=self.rnd.randrange(10 ** 6))
        if kind == 'debug':
            h = DebugHandler(h)
        return h

    def layers(self):
        out = []
        order = self.orders()
        for name in self.net.layers:
            if name == 'Input':
                continue
            m = self.by[name]
            e = {'n': name, 'type': SPEC_TYPE.get(m['type'], m['type'])}
            for k, v in m['spec'].items():
                if k not in ('st', 'parsrc'):
                    e[k] = v
            e['ins'] = {}
            for port, srcs in m['ins'].items():
                ss = srcs
                if len(srcs) > 1:
                    ss = order[(name, port)]
                if len(srcs) > 1 and prod(srcs[0][2][:-1]) > 1:
                    # joining is merging along the last dimension
                    out.append({'n': '%s.%s' % (name, port), 'type': 'Join',
                                'la': ss[0][2][-1], 'lb': ss[1][2][-1],
                                'ins': {'inputs_%d' % (j + 1): [
                                    {'l': s[0], 'p': s[1], 'par': False}]
                                    for j, s in enumerate(ss)}})
                    ss = [('%s.%s' % (name, port), 'default')]
                e['ins'][port] = [{'l': s[0], 'p': s[1],
                                   'par': bool(m['spec'].get('parsrc'))}
                                  for s in ss]
            out.append(e)
        return out

    def dims(self, name):
        return self.desc.get('static', {}).get(name, 'TB')

    def in_order(self):
        return sorted(self.desc['inputs'].items(),
                      key=lambda x: len(self.dims(x[0])) < 2)

    def orders(self):
        """In which order the sources of each input are concatenated (C03
        checks that they are)."""
        np = self.np
        multi = [(m['n'], p, s) for m in self.desc['nodes']
                 for p, s in m['ins'].items() if len(s) > 1]
        if not multi:
            return {}
        zeros = {k: np.zeros((1,) * len(self.dims(k)) + tuple(v))
                 for k, v in self.in_order()}
        self.net.provide_external_data(zeros)
        b, h = self.net.buffer, self.net.handler
        out = {}
        for n, p, srcs in multi:
            for i, (l, q, _) in enumerate(srcs):
                v = b[l].outputs[q]
                h.set_from_numpy(v, np.full(v.shape, float(i)))
            got = [int(x) for x in np.asarray(h.get_numpy_copy(
                b[n].inputs[p]))[0].ravel()]
            seq = []
            for x in got:
                if x not in seq:
                    seq.append(x)
            out[(n, p)] = [srcs[i] for i in seq]
        self.net.provide_external_data(zeros)
        return out

    def get_params(self):
        from vlib import enc
        out = {}
        for m in self.desc['nodes']:
            if m['params']:
                out[m['n']] = {}
                for p in m['params']:
                    a = self.net.get(m['n'] + '.parameters.' + p)
                    out[m['n']][p] = enc.fxflat(a)
                    a[...] = 79.0       # a copy
        return out

    def do(self, op):
        from vlib import enc
        np, net = self.np, self.net
        o = {'o': op['o']}
        if op['o'] == 'par':
            o['par'] = op['par']
            if op.get('how') == 'vector':
                cur = self.get_params()
                for n, ps in op['par'].items():
                    for p, v in ps.items():
                        view = net.buffer[n].parameters[p]
                        net.handler.set_from_numpy(
                            view, np.array(v, float).reshape(view.shape) / S)
            else:
                refs = {}
                for n, ps in op['par'].items():
                    refs[n] = {p: (np.array(v, float) / S).reshape(
                        self.by[n]['params'][p]).tolist()
                        for p, v in ps.items()}
                if refs:
                    net.initialize(refs)
        elif op['o'] == 'data':
            o['data'] = op['data']
            d = {}
            # sizes are those of the first one given
            for n, v in sorted(op['data'].items(), key=lambda x: len(
                    self.dims(x[0])) < 2):
                a = np.array(v, float) / S
                a = a.reshape(a.shape[2 - len(self.dims(n)):2] +
                              tuple(self.desc['inputs'][n]))
                # the same array may come again with other contents, and
                # whole numbers may come as integers
                if (a == np.round(a)).all() and self.rnd.random() < .25:
                    a = a.astype(np.int64)
                old = self.mine.get(n)
                if (old is not None and old.shape == a.shape and
                        old.dtype == a.dtype and self.rnd.random() < .7):
                    old[...] = a
                    a = old
                d[n] = self.mine[n] = a
            if len(d) < len(self.desc['inputs']):
                net.provide_external_data(d, all_inputs=False)
            else:
                net.provide_external_data(d)
            for a in d.values():        # the network holds a copy
                a[...] = 77
            o['dobs'] = {}
            for n in self.desc['inputs']:
                a = net.get_input(n)
                k = len(self.dims(n))
                o['dobs'][n] = enc.fxs(a.reshape(
                    (1,) * (2 - k) + a.shape[:k] + (-1,)))
                a[...] = 78.0
        elif op['o'] == 'handler':
            net.set_handler(self.handler(op['h']))
        elif op['o'] == 'fwd':
            o['train'], o['ctx'] = op['train'], op['ctx']
            if op.get('t0'):
                o['t0'] = op['t0']
            if op['ctx']:
                k = op.get('cx', len(self.ctx))
                o['cx'] = k
                net.forward_pass(training_pass=op['train'],
                                 context=self.ctx[k - 1])
            else:
                net.forward_pass(training_pass=op['train'])
            self.ctx.append(net.get_context())
            o['out'] = {}
            if op.get('look', True):
                for m in self.desc['nodes']:
                    ports = list(net.layers[m['n']].out_shapes)
                    if m['type'] == 'Loss':
                        o['out'][m['n']] = {'loss': [[enc.fxflat(net.get(
                            m['n'] + '.outputs.loss'))]]}
                        continue
                    d = {}
                    for p in ports:
                        a = net.get(m['n'] + '.outputs.' + p)
                        if 'static' in m:
                            k = len(m['static'])
                            a = a.reshape((1,) * (2 - k) + a.shape)
                        T, B = a.shape[:2]
                        if m['type'] in CONTEXT:
                            T -= 1
                        d[p] = [[enc.fxflat(a[t, b]) for b in range(B)]
                                for t in range(T)]
                    o['out'][m['n']] = d
                    for p, srcs in m['ins'].items():
                        if len(srcs) > 1 and prod(srcs[0][2][:-1]) > 1:
                            a = net.get(m['n'] + '.inputs.' + p)
                            o['out']['%s.%s' % (m['n'], p)] = {'default': [
                                [enc.fxflat(a[t, b])
                                 for b in range(a.shape[1])]
                                for t in range(a.shape[0])]}
            elif any(m['type'] == 'Dropout' for m in self.desc['nodes']):
                raise ValueError('dropout needs look')
            if any(m['type'] == 'Loss' for m in self.desc['nodes']):
                o['loss'] = {k: enc.fx(v)
                             for k, v in net.get_loss_values().items()}
            self.nfwd = len(self.ops) + 1
        elif op['o'] == 'bwd':
            net.backward_pass()
            o['back'] = len(self.ops) + 1 - self.nfwd
            o['vars'] = self.variables(op.get('nv', 8))
        if op.get('look', True) or op['o'] != 'fwd':
            o['pobs'] = self.get_params()
        self.ops.append(o)

    def variables(self, nv):
        from vlib import enc
        net, rnd = self.net, self.rnd
        allv = []
        for m in self.desc['nodes']:
            for p, shape in m['params'].items():
                if p == 'timing':
                    continue
                g = enc.fxflat(net.get(m['n'] + '.gradients.' + p))
                c = [{'k': 'p', 'n': m['n'], 't': m['type'], 'p': p,
                      'i': i + 1, 'g': x} for i, x in enumerate(g)]
                if len(c) != prod(shape):
                    raise ValueError('gradient of wrong size')
                allv.append(c)
        ins = []
        for n in self.desc['inputs']:
            g = enc.fxflat(net.get('Input.output_deltas.' + n))
            if self.desc['kinds'][n] not in ('real', 'static'):
                continue
            ins.append([{'k': 'i', 'n': 'Input', 't': 'Input', 'p': n,
                         'i': i + 1, 'g': x} for i, x in enumerate(g)])
        # one of each array first, then more at random
        pick = []
        for c in allv + ins:
            pick.append(c.pop(rnd.randrange(len(c))))
        rnd.shuffle(pick)
        if nv < 0:
            for c in allv + ins:
                pick += c
            return pick
        pick = pick[:nv]
        rest = [v for c in allv + ins for v in c]
        rnd.shuffle(rest)
        return pick + rest[:max(0, nv - len(pick))]


CONTEXT = ('Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm')


def run(sc):
    r = Runner(sc['net'], sc.get('handler', 'f64'), sc.get('seed', 0))
    lay = r.layers()
    for op in sc['ops']:
        r.do(op)
    return {'layers': lay, 'ops': r.ops,
            'inputs': {n: prod(v) for n, v in sc['net']['inputs'].items()}}
