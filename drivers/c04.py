"""C04: results depend on parameters, data and flags, not on history."""
from drivers import netlib as nl
TRACE_SPEC = 'NetTrace'
ASSUMPTIONS = ['Contexts are passed on only between batches of equal size '
               'under the same handler.',
               'A backward pass follows its forward pass without a change of '
               'data or parameters in between.']
CFG = ('INIT Init\nNEXT MCNext\nCHECK_DEADLOCK FALSE\n'
       'CONSTANTS MaxT = %d MaxB = %d Len0 = %d Emit = %s\n'
       'INVARIANTS NoStaleReads ParametersSurvive MemoryFits EmitState\n')


def scenarios(ctx):
    rnd = ctx.rnd
    jobs = [('NetLifeMC', CFG % (2, 2, 6, 'TRUE'), {})]
    if ctx.quick:
        jobs.append(('NetLifeMC', CFG % (3, 2, 5, 'FALSE'), {}))
    else:
        jobs.append(('NetLifeMC', CFG % (3, 3, 6, 'FALSE'), {}))
    res = ctx.models(jobs)
    hs = sorted(res[0].lines, key=str)
    rnd.shuffle(hs)
    out = []
    for i, h in enumerate(hs[:ctx.pick(250, 1500)]):
        out.append(one(rnd, i, h, 'model'))
    for i in range(ctx.pick(200, 2500)):
        out.append(one(rnd, i, walk(rnd, rnd.randint(7, 12)), 'walk'))
    return out


def walk(rnd, n):
    """A longer legal history (same moves as NetLife)."""
    h, ctxs, B, fresh = [['par']], [], 0, False
    while len(h) < n or h[-1][0] not in ('fwd', 'bwd'):
        m = rnd.choice(['par', 'handler', 'data', 'data', 'data', 'part',
                        'fwd', 'fwd', 'fwd', 'bwd', 'bwd'])
        if m == 'par':
            fresh = False
            h.append(['par'])
        elif m == 'handler':
            B, ctxs, fresh = 0, [None] * len(ctxs), False
            h.append(['handler'])
        elif m == 'data':
            T, B = rnd.randint(1, 4), rnd.randint(1, 3)
            fresh = False
            h.append(['data', T, B])
        elif m == 'part' and (B or len(h) > 1):
            fresh = False
            if not B or rnd.random() < .5:
                T, B = rnd.randint(1, 4), rnd.randint(1, 3)
            h.append(['part', T, B])
        elif m == 'fwd' and B:
            c = [i + 1 for i, b in enumerate(ctxs) if b == B]
            k = rnd.choice(c) if c and rnd.random() < .5 else 0
            ctxs.append(B)
            fresh = True
            h.append(['fwd', rnd.random() < .5, k])
        elif m == 'bwd' and fresh:
            h.append(['bwd'])
    return h


def one(rnd, i, h, kind):
    g = nl.Gen(rnd, max_f=2)
    g.add_input('x', (rnd.randint(1, 2),))
    if rnd.random() < .5:
        g.add_input('u', (rnd.randint(1, 2),))
    if i % 9 == 8:
        g.add_input('img', (2, rnd.randint(1, 3), 1))
        g.hidden(['Convolution2D', 'Pooling2D'])
    if i % 2:
        g.hidden(['Recurrent', 'Lstm'])
    g.hidden([nl.TYPES[i % len(nl.TYPES)]])
    g.hidden()
    g.loss()
    if rnd.random() < .25:
        g.loss()
    net = nl.shuffled(rnd, g.net())
    types = [m['type'] for m in net['nodes']]
    # ClockworkRNNs count their steps from the beginning of each pass
    noctx = any('Clockwork' in t for t in types)
    bn = 'BatchNorm' in types
    ops, par, last = [], None, None
    for m in h:
        if m[0] == 'par':
            par = nl.random_params(rnd, net)
            ops.append({'o': 'par', 'par': par,
                        'how': rnd.choice(['init', 'vector'])})
        elif m[0] in ('data', 'part'):
            B = m[2] + (1 if bn else 0)
            d = nl.random_data(rnd, net, m[1], B)
            if m[0] == 'part' and len(d) > 1:
                d.pop(rnd.choice(sorted(d)))
            ops.append({'o': 'data', 'data': d})
        elif m[0] == 'handler':
            ops.append({'o': 'handler', 'h': rnd.choice(['f64', 'f32', 'debug'])})
        elif m[0] == 'fwd':
            last = m[1]
            o = {'o': 'fwd', 'train': m[1], 'ctx': m[2] > 0 and not noctx}
            if o['ctx']:
                o['cx'] = m[2]
            ops.append(o)
        else:
            if bn and not last:
                continue
            ops.append({'o': 'bwd', 'nv': 3})
    return {'kind': kind, 'net': net, 'ops': ops, 'seed': i,
            'handler': rnd.choice(['f64', 'f64', 'debug'])}


def execute(sc):
    return nl.run(sc)
