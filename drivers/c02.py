"""C02: architectures are validated and ordered canonically."""
from drivers import shapelib

TRACE_SPEC = 'ArchitectureTrace'
BAD = ["default", "fallback", "1a", "a-b", "a.b", "", "a b", "a*"]


def scenarios(ctx):
    def cfg(names, m, emit):
        return ('INIT MCInit\nNEXT MCNext\nCONSTANTS LayerNames <- LN%d '
                'MaxEdges = %d Emit = %s\nINVARIANTS RoundsComplete '
                'RoundsCanonical EmitState\nCHECK_DEADLOCK FALSE\n'
                % (names, m, 'TRUE' if emit else 'FALSE'))
    jobs = [('ArchitectureMC2', cfg(2, 9, True), {}),
            ('ArchitectureMC2', cfg(3, 4, True), {})]
    if not ctx.quick:
        jobs.append(('ArchitectureMC2', cfg(3, 7, False), {'timeout': 1500}))
    res = ctx.models(jobs)
    rnd = ctx.rnd
    out = []
    for r in res[:2]:
        ss = sorted(r.lines, key=str)
        rnd.shuffle(ss)
        for s in ss[:ctx.pick(400, 3000)]:
            names = sorted({x for e in s['e'] for x in e} | {'Input', 'A', 'B'})
            out.append(_mk(rnd, names, [(a, 'default', b) for a, b in s['e']],
                           'model'))
    # acyclic graphs from the Input, random names, wider fan-in/out
    pool = ['A', 'B', 'Z', 'a', 'b10', 'b9', '_x', 'layer_1', 'layer_10',
            'layer_2', 'M', 'INput', 'Inpu', 'Input_1']
    for _ in range(ctx.pick(500, 5000)):
        n = rnd.randint(1, 6)
        names = ['Input'] + rnd.sample(pool, n)
        edges = set()
        shape = rnd.random()
        for i in range(1, n + 1):
            k = 1 if shape < .4 else rnd.randint(1, 2)
            for p in rnd.sample(range(i), min(i, k)):
                edges.add((names[p], 'default', names[i]))
            if rnd.random() < .2 and i > 1:
                edges.add((names[rnd.randint(1, i - 1)], 'aux', names[i]))
        out.append(_mk(rnd, names, sorted(edges), 'dag'))
        # one defect injected
        if rnd.random() < .5:
            out.append(_mk(rnd, list(names), sorted(edges), 'defect', True))
    # layers of the library: are exactly the fitting shapes accepted?
    for s in sorted(ctx.model('ShapesMC', (
            'INIT MCInit\nNEXT MCNext\nCONSTANTS MaxJoin = 2 Emit = TRUE\n'
            'INVARIANTS Proper Keeps EmitState\nCHECK_DEADLOCK FALSE\n'
            )).lines, key=str):
        out.append(_shapes(rnd, shapelib.from_model(rnd, s)))
        if s['t'] == 'Loss' or rnd.random() < .02:
            # a name that is taken for losses, but not for other layers
            out.append(_shapes(rnd, shapelib.from_model(rnd, s,
                                                        'total_loss')))
    for _ in range(ctx.pick(600, 8000)):
        out.append(_shapes(rnd, shapelib.network(
            rnd, rnd.choice([0, .1, .3]), rnd.choice([0, 0, .2]))))
    for k in range(ctx.pick(3, 20) * len(shapelib.WRONG['out_shapes'])):
        out.append(_shapes(rnd, shapelib.network(
            rnd, wrong=k % len(shapelib.WRONG['out_shapes']))))
    return out


def _shapes(rnd, arch):
    order = list(range(len(arch)))
    rnd.shuffle(order)
    return {'kind': 'shapes', '_spec': 'ShapesTrace', 'arch': arch,
            'order': order}


def _mk(rnd, names, edges, kind, defect=False):
    arch = []
    for n in names:
        arch.append({'n': n, 'r': 0, 't': 'Input' if n == 'Input' else 'VProbe',
                     'outs': [[o, e, 'default'] for (s, o, e) in edges
                              if s == n]})
    if defect:
        k = rnd.randrange(11)
        last = arch[-1]
        mid = arch[rnd.randrange(len(arch))]
        if k == 0:
            arch.append({'n': rnd.choice(BAD), 'r': 0, 't': 'VProbe',
                         'outs': []})
            arch[0]['outs'].append(['default', arch[-1]['n'], 'default'])
        elif k == 1:
            mid['outs'].append(['default', 'Nowhere', 'default'])
        elif k == 2:
            last['outs'].append(['default', 'Input', 'default'])
        elif k == 3:
            last['t'] = 'Input'
        elif k == 4:
            last['outs'].append([rnd.choice(['default', 'aux']),
                                 rnd.choice(names[1:]), 'default'])
        elif k == 5:
            mid['t'] = rnd.choice(['', 'NoSuchType'])
        elif k == 6:
            mid['outs'].append(['nosuch', last['n'], 'default'])
        elif k == 7:
            arch[0]['outs'].append(['default', last['n'], 'nosuch'])
        elif k == 9:                     # an Input of another name
            new = rnd.choice(['Inp', 'input', 'Input_1', 'X'])
            if new not in names:
                for a in arch:
                    a['n'] = new if a['n'] == 'Input' else a['n']
                    for o in a['outs']:
                        o[1] = new if o[1] == 'Input' else o[1]
        elif k == 10:                    # the name belongs to another layer
            if not any(a['n'] == 'Inp' for a in arch):
                arch[0]['t'] = 'VProbe'
                arch.append({'n': 'Inp', 'r': 0, 't': 'Input', 'outs': [
                    ['default', 'Input', 'default']]})
        elif k == 8:
            arch.append({'n': 'Input2', 'r': 0, 't': 'Input',
                         'outs': [['default', last['n'], 'default']]})
    for r, n in enumerate(sorted(a['n'] for a in arch)):
        for a in arch:
            if a['n'] == n:
                a['r'] = r
    orders = [list(range(len(arch))) for _ in range(3)]
    rnd.shuffle(orders[1])
    orders[2].reverse()
    return {'kind': kind, 'arch': arch, 'orders': orders,
            'fmt': [rnd.randrange(4) for _ in orders]}


def build(arch, order, fmt):
    d = {}
    for i in order:
        a = arch[i]
        ent = {}
        if a['t']:
            ent['@type'] = a['t']
        if a['t'] == 'Input':
            ent['out_shapes'] = {'default': ('T', 'B', 2)}
        if a['t'] == 'VProbe':
            ent['size'] = 1 + i % 3
        outs = a['outs']
        if fmt in (0, 1) and all(o[0] == 'default' for o in outs):
            lst = [o[1] if (o[2] == 'default' and fmt == 0) else
                   o[1] + '.' + o[2] for o in outs]
            ent['@outgoing_connections'] = lst if fmt == 0 else tuple(lst)
        else:
            oc = {}
            for o in (outs if fmt == 2 else reversed(outs)):
                oc.setdefault(o[0], []).append(
                    o[1] if o[2] == 'default' and fmt == 3 else
                    o[1] + '.' + o[2])
            ent['@outgoing_connections'] = oc
        d[a['n']] = ent
    return d


def execute(sc):
    import numpy as np
    import brainstorm as bs
    from drivers import probes
    if sc['kind'] == 'shapes':
        tr = {'arch': sc['arch'], 'err': '', 'obs': []}
        try:
            bs.Network.from_architecture(
                shapelib.describe(sc['arch'], sc['order']))
        except Exception as e:
            tr['err'] = type(e).__name__
        return tr
    obs = []
    for order, fmt in zip(sc['orders'], sc['fmt']):
        o = {'err': '', 'order': [], 'fwd': [], 'bwd': []}
        try:
            net = bs.Network.from_architecture(build(sc['arch'], order, fmt))
        except Exception as e:
            o['err'] = type(e).__name__
            obs.append(o)
            continue
        o['order'] = [str(n) for n in net.layers]
        net.provide_external_data({'default': np.zeros((2, 2, 2))})
        del probes.LOG[:]
        net.forward_pass()
        net.backward_pass()
        o['fwd'] = [n for k, n in probes.LOG if k == 'f']
        o['bwd'] = [n for k, n in probes.LOG if k == 'b']
        obs.append(o)
    return {'arch': sc['arch'], 'obs': obs}
