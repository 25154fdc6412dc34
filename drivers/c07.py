"""C07: backward passes compute the exact derivative of the loss."""
from drivers import netlib as nl
TRACE_SPEC = 'NetTrace'


def scenarios(ctx):
    rnd = ctx.rnd
    return [one(rnd, i) for i in range(ctx.pick(700, 6000))] + \
        [static(rnd, i) for i in range(ctx.pick(40, 300))]


def static(rnd, i):
    """Inputs that have no time or batch dimension."""
    g = nl.Gen(rnd)
    g.add_input('x', (rnd.randint(1, 3),))
    if rnd.random() < .5:
        g.hidden(['FullyConnected', 'NoOp', 'Recurrent', 'Merge'])
    g.loss()
    for _ in range(rnd.randint(1, 2)):
        g.add_static()
    net = nl.shuffled(rnd, g.net())
    return {'kind': 'static', 'net': net, 'seed': i,
            'handler': rnd.choice(['f64', 'f64', 'debug']), 'ops': [
                {'o': 'par', 'par': nl.random_params(rnd, net)},
                {'o': 'data', 'data': nl.random_data(
                    rnd, net, rnd.randint(1, 3), rnd.randint(2, 3))},
                {'o': 'fwd', 'train': rnd.random() < .7, 'ctx': False},
                {'o': 'bwd', 'nv': 12}]}


def one(rnd, i):
    g = nl.Gen(rnd)
    g.add_input('x', (rnd.randint(1, 3),))
    if rnd.random() < .4:
        g.add_input('u', (rnd.randint(1, 2),))
    if i % 5 == 4:
        g.add_input('img', (rnd.randint(1, 3), rnd.randint(1, 3),
                            rnd.randint(1, 2)))
        g.hidden(['Convolution2D', 'Pooling2D'])
    g.hidden([nl.TYPES[i % len(nl.TYPES)]] + ['FullyConnected'])
    for _ in range(rnd.randint(0, 2)):
        g.hidden()
    g.loss([nl.LOSSES[i % len(nl.LOSSES)]])
    if rnd.random() < .35:
        g.loss()
    net = nl.shuffled(rnd, g.net())
    types = [m['type'] for m in net['nodes']]
    B = rnd.randint(2, 3)
    ops = [{'o': 'par', 'par': nl.random_params(rnd, net)}]
    rec = any(t in nl.CONTEXT for t in types)
    if rec and rnd.random() < .5:       # derivative with a carried context
        ops += [{'o': 'data', 'data': nl.random_data(rnd, net,
                                                     rnd.randint(1, 2), B)},
                {'o': 'fwd', 'train': True, 'ctx': False}]
        ctx = True
    else:
        ctx = False
    train = 'BatchNorm' in types or rnd.random() < .7
    ops += [{'o': 'data', 'data': nl.random_data(rnd, net,
                                                 rnd.randint(1, 3), B)},
            {'o': 'fwd', 'train': train, 'ctx': ctx},
            {'o': 'bwd', 'nv': 10}]
    return {'kind': 'context' if ctx else 'net', 'net': net, 'ops': ops,
            'seed': i, 'handler': rnd.choice(['f64', 'f64', 'debug'])}


def execute(sc):
    return nl.run(sc)
