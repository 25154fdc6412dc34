"""C05: carrying the context over splits a sequence without a trace."""
from drivers import netlib as nl
TRACE_SPEC = 'NetTrace'
CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
       'CONSTANTS MaxT = %d N = %d\n'
       'INVARIANTS Seamless NotTrivial EmitState\n')


def scenarios(ctx):
    rnd = ctx.rnd
    res = ctx.models([('ChunkMC', CFG % (ctx.pick(5, 8), 2), {}),
                      ('ChunkMC', CFG % (ctx.pick(4, 6), 3), {})])
    cuts = sorted(res[0].lines)
    out = []
    for i in range(ctx.pick(8, 12)):
        for c in cuts:
            out.append(one(rnd, len(out), c))
    for i in range(ctx.pick(60, 1500)):
        out.append(one(rnd, len(out),
                       [rnd.randint(1, 3) for _ in range(rnd.randint(2, 5))]))
    for i in range(ctx.pick(60, 600)):
        out.append(clockwork(rnd, len(out), i % 3))
    return out


def one(rnd, i, cuts):
    g = nl.Gen(rnd, max_f=2)
    g.add_input('x', (rnd.randint(1, 2),))
    pre = ['FullyConnected', 'Elementwise', 'NoOp', 'Merge', 'Highway']
    if rnd.random() < .5:
        g.hidden(pre)
    g.hidden([['Recurrent', 'Lstm'][i % 2]])
    for _ in range(rnd.randint(0, 2)):
        g.hidden(['Recurrent', 'Lstm'] + pre)
    g.loss(['SquaredError', 'plain', 'SoftmaxCE', 'L2Decay'])
    return pieces(rnd, g, cuts, i, 'pieces', '')


def clockwork(rnd, i, how):
    g = nl.Gen(rnd, max_f=3)
    g.add_input('x', (2,))
    g.hidden(['Clockwork', 'ClockworkLstm'])
    g.loss(['SquaredError'])
    if how == 0:
        cuts, timing, tag = [rnd.randint(1, 3) for _ in range(3)], [1], ''
    elif how == 1:      # cut where all clocks tick
        cuts, timing, tag = [rnd.choice([4, 8]), rnd.randint(1, 4)], \
            [1, 2, 4], ''
    else:
        cuts, timing, tag = [1 + 2 * rnd.randint(0, 2), 3], [2], \
            'clockwork-restarts-clock'
    return pieces(rnd, g, cuts, i, 'clockwork', tag, timing)


def pieces(rnd, g, cuts, i, kind, tag, timing=None):
    net = nl.shuffled(rnd, g.net())
    T, B = sum(cuts), rnd.randint(1, 3)
    data = nl.random_data(rnd, net, T, B)
    par = nl.random_params(rnd, net)
    for ps in par.values():
        if 'timing' in ps:
            ps['timing'] = [rnd.choice(timing) * nl.S for _ in ps['timing']]
    train = rnd.random() < .5
    fwd = {'o': 'fwd', 'train': train, 'ctx': False}
    ops = [{'o': 'par', 'par': par}, {'o': 'data', 'data': data}, fwd]
    nf, pos, last = 1, 0, 0
    for c in cuts:
        if rnd.random() < .3:       # something else in between
            ops += [{'o': 'data', 'data': nl.random_data(
                rnd, net, rnd.randint(1, 4), rnd.randint(1, 3))}, fwd]
            nf += 1
            if rnd.random() < .5:
                ops.append({'o': 'bwd', 'nv': 0})
        ops.append({'o': 'data', 'data': {
            k: v[pos:pos + c] for k, v in data.items()}})
        if pos:
            ops.append({'o': 'fwd', 'train': train, 'ctx': True, 'cx': last,
                        't0': pos})
        else:
            ops.append(fwd)
        nf += 1
        last = nf
        pos += c
        if rnd.random() < .3:
            ops.append({'o': 'bwd', 'nv': 0})
    if rnd.random() < .5:
        ops.append(fwd)
    return {'kind': kind, 'tag': tag, 'net': net, 'ops': ops, 'seed': i,
            'handler': rnd.choice(['f64', 'f64', 'debug'])}


def execute(sc):
    return nl.run(sc)
