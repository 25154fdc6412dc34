"""C06: forward passes compute the composition of the wired layers."""
from drivers import netlib as nl
TRACE_SPEC = 'NetTrace'


def scenarios(ctx):
    rnd = ctx.rnd
    out = []
    for i in range(ctx.pick(1400, 8000)):
        out.append(one(rnd, i))
    for i in range(ctx.pick(160, 900)):
        out.append(wide(rnd, i))
    for i in range(ctx.pick(120, 800)):
        out.append(static(rnd, i))
    for i in range(ctx.pick(40, 300)):
        g = nl.Gen(rnd)
        g.add_input('x', [(3,), (1,), (2, 2)][i % 3])
        g.kinds['x'] = 'mid'
        g.loss([['SigmoidCE', 'SoftmaxCE'][i % 4 // 3]])
        out.append(finish(rnd, g, 'mid', i))
    for i in range(ctx.pick(12, 60)):
        out.append(dropped(rnd, i))
    for i in range(10):
        out.append(joined(rnd, i))
    return out


def wide(rnd, i):
    """Inputs far outside the range of exp."""
    g = nl.Gen(rnd)
    g.add_input('x', [(3,), (2,), (2, 2), (4,)][i % 4])
    g.kinds['x'] = 'wide'
    if i % 3 == 0:
        g.hidden(['Elementwise', 'Merge', 'Mask', 'NoOp'])
    else:
        g.hidden(['NoOp'])
        g.loss(['SoftmaxCE'])
    return finish(rnd, g, 'wide', i)


def static(rnd, i):
    """Inputs that have no time or batch dimension."""
    g = nl.Gen(rnd)
    g.add_input('x', (rnd.randint(1, 3),))
    if rnd.random() < .5:
        g.hidden(['FullyConnected', 'NoOp', 'Recurrent', 'Merge'])
    g.loss()
    for _ in range(rnd.randint(1, 2)):
        g.add_static()
    return finish(rnd, g, 'static', i)


def dropped(rnd, i):
    """How many are dropped, and which."""
    g = nl.Gen(rnd)
    a = g.add_input('x', [(60,), (4, 15)][i % 2])
    p = [0, 2, 4, 6][i // 2 % 4]
    for _ in range(2):
        g.node('Dropout', {'default': [a]}, {'drop_prob': p / 8.0},
               {'fs': list(a[2]), 'prob': p * nl.S // 8}, {'default': a[2]})
    net = nl.shuffled(rnd, g.net())
    d = nl.random_data(rnd, net, 3, 3)
    return {'kind': 'dropped', 'net': net, 'seed': i,
            'handler': ['f64', 'debug', 'f32'][i % 3], 'ops': [
                {'o': 'data', 'data': d},
                {'o': 'fwd', 'train': True, 'ctx': False},
                {'o': 'fwd', 'train': True, 'ctx': False}]}


def joined(rnd, i):
    """Several outputs with more than one feature dimension at one input."""
    g = nl.Gen(rnd)
    s = [(2, 2), (2, 1, 2)][i // 5]
    a = g.add_input('a', s)
    b = g.add_input('b', s)
    t = ['Join', 'BatchNorm', 'Mask', 'Merge', 'SoftmaxCE'][i % 5]
    if t == 'BatchNorm':
        g.node(t, {'default': [a]}, {'decay': .5, 'epsilon': .25},
               {'fs': list(s), 'decay': nl.S // 2, 'eps': nl.S // 4},
               {'default': s}, {p: [s[-1]] for p in
                                ('gamma', 'beta', 'mu', 'sigma')})
    elif t == 'Mask':
        m = g.add_input('mask', s, 'bin')
        g.node(t, {'default': [a], 'mask': [m]}, {}, {'fs': list(s)},
               {'default': s})
    elif t == 'Merge':
        g.node(t, {'inputs_1': [a], 'inputs_2': [b]}, {},
               {'la': s[-1], 'lb': s[-1]},
               {'default': s[:-1] + (2 * s[-1],)})
    elif t == 'SoftmaxCE':
        m = g.add_input('targets', s[:-1] + (1,), 'class%d' % s[-1])
        g.node(t, {'default': [a], 'targets': [m]}, {}, {'fs': list(s)},
               {'predictions': s})
    if t != 'Join':
        a = g.pool[-1]
    last = (a[2][-1] + b[2][-1],)
    g.node('NoOp', {'default': [a, b]}, {}, {'fs': list(s[:-1] + last)},
           {'default': s[:-1] + last})
    sc = finish(rnd, g, 'joined', i, True)
    sc['tag'] = 'multi-join'
    return sc


def finish(rnd, g, kind, i, train=False):
    net = nl.shuffled(rnd, g.net())
    ops = [{'o': 'par', 'par': nl.random_params(rnd, net)},
           {'o': 'data', 'data': nl.random_data(
               rnd, net, rnd.randint(1, 3), rnd.randint(2, 3))},
           {'o': 'fwd', 'train': train or rnd.random() < .5, 'ctx': False}]
    return {'kind': kind, 'net': net, 'ops': ops, 'seed': i,
            'handler': rnd.choice(['f64', 'f64', 'debug'])}


def one(rnd, i):
    g = nl.Gen(rnd)
    g.add_input('x', (rnd.randint(1, 3),))
    if rnd.random() < .4:
        g.add_input('u', (rnd.randint(1, 2),))
    if i % 5 == 4:
        g.add_input('img', (rnd.randint(1, 3), rnd.randint(1, 3),
                            rnd.randint(1, 2)))
        g.hidden(['Convolution2D', 'Pooling2D'])
    g.hidden([nl.TYPES[i % len(nl.TYPES)]] + ['FullyConnected'])
    for _ in range(rnd.randint(0, 3)):
        g.hidden()
    g.loss([nl.LOSSES[i % len(nl.LOSSES)]])
    if rnd.random() < .3:
        g.loss()
    net = nl.shuffled(rnd, g.net())
    ops = [{'o': 'par', 'par': nl.random_params(rnd, net)},
           {'o': 'data', 'data': nl.random_data(
               rnd, net, rnd.randint(1, 4), rnd.randint(2, 3))},
           {'o': 'fwd', 'train': rnd.random() < .5, 'ctx': False}]
    return {'kind': 'net', 'net': net, 'ops': ops, 'seed': i,
            'handler': rnd.choice(['f64', 'f64', 'debug'])}


def execute(sc):
    return nl.run(sc)
