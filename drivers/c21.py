"""C21: convolution and pooling are exact for every geometry."""
from drivers import netlib as nl
TRACE_SPEC = 'NetTrace'
ASSUMPTIONS = ['Values are drawn so that a pooling window has no ties.']
CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
       'CONSTANTS MaxN = %d MaxK = %d MaxS = %d MaxP = %d\n'
       'INVARIANTS Counts Rejects EmitState\n')


def scenarios(ctx):
    rnd = ctx.rnd
    r = ctx.models([('GeometryMC', CFG % ctx.pick((3, 4, 3, 2), (4, 4, 3, 3)),
                     {})])[0]
    gs = sorted(r.lines, key=str)
    rnd.shuffle(gs)
    out = []
    n = 60
    for i in range(0, len(gs), n):
        out.append({'kind': 'accept', '_spec': 'GeometryTrace',
                    'geo': gs[i:i + n]})
    ok = [g for g in gs if accepted(g) and g['h'] * g['w'] <= 12]
    for i, g in enumerate(ok[:ctx.pick(550, 5000)]):
        out.append(single(rnd, g, i))
    for i in range(ctx.pick(150, 1500)):
        out.append(stack(rnd, i))
    for i in range(ctx.pick(40, 400)):
        out.append(shared(rnd, i))
    return out


def accepted(g):
    return min(g['s']) > 0 and all(
        (g[n] + 2 * g['pad'] - g['k'][j]) // g['s'][j] + 1 > 0
        for j, n in enumerate('hw'))


def single(rnd, g, i):
    t = ['Convolution2D', 'Pooling2D', 'Pooling2D'][i % 3]
    c = rnd.randint(1, 3)
    gen = nl.Gen(rnd)
    src = gen.add_input('x', (g['h'], g['w'], c))
    m = gen.geometry(t, src, list(g['k']), list(g['s']), g['pad'],
                     pool=['max', 'avg'][i // 3 % 2])
    return finish(rnd, gen, i, 'single')


def stack(rnd, i):
    gen = nl.Gen(rnd)
    gen.add_input('x', (rnd.randint(2, 5), rnd.randint(2, 5),
                        rnd.randint(1, 2)))
    for _ in range(rnd.randint(2, 3)):
        src = gen.pool[-1]
        gen.geometry(rnd.choice(['Convolution2D', 'Pooling2D']), src)
    if rnd.random() < .3:
        gen.hidden(['BatchNorm', 'Elementwise', 'FullyConnected'])
    return finish(rnd, gen, i, 'stack')


def shared(rnd, i):
    """One-pixel images whose arrays are parts of a larger one."""
    gen = nl.Gen(rnd)
    x = gen.add_input('x', (1, 1, rnd.randint(1, 3)))
    y = gen.add_input('y', (1, 1, rnd.randint(1, 2)))

    def noop(a, b):
        s = (1, 1, a[2][2] + b[2][2])
        gen.pairs += 1              # more joins may be impossible to lay out
        gen.node('NoOp', {'default': rnd.choice([[a, b], [b, a]])}, {},
                 {'fs': list(s)}, {'default': s})
    if i % 2:
        noop(x, y)
    one = {'k': [1, 1], 's': [1, 1], 'pad': 0}
    if i % 4 > 1:
        one = {'k': [3, 3], 's': [1, 1], 'pad': 1}
    t = ['Pooling2D', 'Pooling2D', 'Convolution2D'][i % 3]
    gen.geometry(t, rnd.choice([x, y, gen.pool[-1]]), **one)
    if i % 3 != 1:
        noop(gen.pool[-1], rnd.choice([x, y]))
    gen.geometry('Pooling2D', gen.pool[-1], **one)
    return finish(rnd, gen, i, 'shared')


def finish(rnd, gen, i, kind):
    gen.loss(['SquaredError', 'plain'])
    net = nl.shuffled(rnd, gen.net())
    ops = [{'o': 'par', 'par': nl.random_params(rnd, net)}]
    for _ in range(rnd.choice([1, 1, 2])):
        ops += [{'o': 'data', 'data': nl.random_data(
            rnd, net, rnd.choice([1, 1, 2]), rnd.choice([1, 2, 3]))},
            {'o': 'fwd', 'train': True, 'ctx': False},
            {'o': 'bwd', 'nv': rnd.choice([6, 6, 12])}]
    return {'kind': kind, 'net': net, 'ops': ops, 'seed': i,
            'handler': rnd.choice(['f64', 'f64', 'debug', 'f32'])}


def execute(sc):
    if sc['kind'] != 'accept':
        return nl.run(sc)
    import brainstorm as bs
    import brainstorm.layers as L
    obs = []
    for i, g in enumerate(sc['geo']):
        for t in 'cp':
            ch = 2 if t == 'c' else 3
            o = {'g': g, 'ok': False, 'shape': [], 'ch': ch}
            inp = L.Input(out_shapes={
                'default': ('T', 'B', g['h'], g['w'], 3)})
            kw = dict(kernel_size=tuple(g['k']), stride=tuple(g['s']),
                      padding=g['pad'], name='z')
            lay = L.Convolution2D(ch, **kw) if t == 'c' else \
                L.Pooling2D(type=['max', 'avg'][i % 2], **kw)
            try:
                inp >> lay
                net = bs.Network.from_layer(lay)
            except Exception:
                obs.append(o)
                continue
            o['ok'] = True
            o['shape'] = list(
                net.layers['z'].out_shapes['default'].feature_shape)
            obs.append(o)
    return {'obs': obs}
