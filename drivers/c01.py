"""C01: wiring layers with >> yields exactly the wired architecture."""
TRACE_SPEC = 'WiringTrace'
TYPES = ['FullyConnected', 'Recurrent', 'Lstm']


def cfg(bases, ports, nl, nc, emit):
    return ('INIT MCInit\nNEXT MCNext\nCONSTANTS Bases = {%s} Ports = {%s} '
            'MaxLayers = %d MaxConns = %d Emit = %s\n'
            'INVARIANTS ScopeIsComponent NamesUnique SoleKeepsName '
            'EmitState\nCHECK_DEADLOCK FALSE\n' % (
                ', '.join('"%s"' % b for b in bases),
                ', '.join('"%s"' % b for b in ports), nl, nc,
                'TRUE' if emit else 'FALSE'))


def scenarios(ctx):
    jobs = [
        ('WiringMC', cfg(['A', 'A_1'], ['default'], 3, 3, True), {}),
        ('WiringMC', cfg(['A', 'A_1', 'A_2'], ['default'], 4, 2, True), {}),
        ('WiringMC', cfg(['A', 'B'], ['default', 'p'], 3, 2, True), {}),
    ]
    def xcfg(names, nl, nh, emit):
        return ('INIT MCInit\nNEXT MCNext\nCONSTANTS Names = {%s} '
                'MaxLayers = %d MaxHandles = %d Emit = %s\nINVARIANTS '
                'ScopeIsComponent NamesUnique HandlesProper ConnsFromExprs '
                'EmitState\nCHECK_DEADLOCK FALSE\n' % (
                    ', '.join('"%s"' % n for n in names), nl, nh,
                    'TRUE' if emit else 'FALSE'))
    exprs = [('WiringExprMC', xcfg(['p', 'q'], 2, 5, True), {}),
             ('WiringExprMC', xcfg(['p'], 3, 6, True), {})]
    if not ctx.quick:
        exprs.append(('WiringExprMC', xcfg(['p', 'q'], 3, 6, True),
                      {'timeout': 1500}))
    nj = len(jobs)
    jobs += exprs
    if not ctx.quick:
        jobs.append(('WiringMC', cfg(['A', 'A_1'], ['default'], 4, 4, False),
                     {'timeout': 1500}))
        jobs.append(('WiringMC', cfg(['A', 'A_1', 'A_1_1'], ['default'], 4, 3,
                                     True), {'timeout': 1500}))
    out = []
    rnd = ctx.rnd
    res = ctx.models(jobs)
    for r in res[nj:nj + len(exprs)]:
        states = sorted((x['ops'] for x in r.lines), key=str)
        rnd.shuffle(states)
        for ops in states[:ctx.pick(500, 6000)]:
            out.append({'kind': 'expressions', 'ops': ops, 'style': 0})
    for _ in range(ctx.pick(400, 5000)):
        out.append({'kind': 'expressions', 'ops': _exprs(rnd), 'style': 0})
    for r in res[:nj] + res[nj + len(exprs):]:
        states = sorted(r.lines, key=str)
        rnd.shuffle(states)
        for s in states[:ctx.pick(450, 4000)]:
            n = len(s['b'])
            ops = [['c', b, rnd.choice(TYPES), k + 1]
                   for k, b in enumerate(s['b'])]
            wires = [['w'] + c for c in s['c']]
            out.append({'kind': 'model', 'ops': _interleave(ops, wires, rnd),
                        'style': rnd.randrange(3)})
    # larger random graphs, more base names, default (type) names
    pool = ['A', 'A_1', 'A_2', 'A_10', 'A_1_1', 'B', '', 'FullyConnected_1',
            'Lstm_2', 'Recurrent']
    for _ in range(ctx.pick(350, 4000)):
        n = rnd.randint(2, 12)
        sub = rnd.sample(pool, rnd.randint(1, 4))
        ops = []
        for k in range(n):
            t = rnd.choice(TYPES)
            b = rnd.choice(sub) or t
            ops.append(['c', b, t, k + 1])
        wires = []
        ports = rnd.choice([['default'], ['default', 'p', 'q']])
        for _ in range(rnd.randint(0, min(14, 2 * n))):
            s, e = rnd.sample(range(1, n + 1), 2)
            wires.append(['w', s, rnd.choice(ports), e, rnd.choice(ports)])
        out.append({'kind': 'random', 'ops': _interleave(ops, wires, rnd),
                    'style': rnd.randrange(3)})
    # derived names that are taken by several others
    for _ in range(ctx.pick(300, 4000)):
        b = rnd.choice(['A', 'A_1', 'FullyConnected'])
        names = [b] * rnd.randint(2, 4)
        names += ['%s_%d' % (b, k) for k in rnd.sample(
            range(1, 6), rnd.randint(1, 4))] * rnd.choice([1, 1, 1, 2])
        rnd.shuffle(names)
        ops = [['c', n, 'FullyConnected', k + 1]
               for k, n in enumerate(names)]
        wires = [['w', k + 1, 'default', rnd.randint(1, k), 'default']
                 for k in range(1, len(names)) if rnd.random() < .95]
        wires = [[w[0]] + ([w[3], 'default', w[1], 'default']
                           if rnd.random() < .5 else w[1:]) for w in wires]
        rnd.shuffle(wires)
        out.append({'kind': 'names', 'ops': _interleave(ops, wires, rnd),
                    'style': rnd.randrange(3)})
    return out


def _exprs(rnd):
    """Random expressions: labels, chains, expressions used repeatedly."""
    ops, hs = [], []       # hs[h] = layer
    n = 0
    for _ in range(rnd.randint(4, 30)):
        k = rnd.random()
        if n < 2 or k < .15:
            n += 1
            ops.append(['c', rnd.choice(['A', 'B', 'A_1']),
                        rnd.choice(TYPES), n])
            hs.append(n)
        elif k < .6:
            h = rnd.choice([rnd.randrange(len(hs)), len(hs) - 1])
            ops.append([rnd.choice('oi'), h + 1,
                        rnd.choice(['p', 'q', 'default', 'r'])])
            hs.append(hs[h])
        else:
            h = rnd.choice([rnd.randrange(len(hs)), len(hs) - 1])
            gs = [g for g in range(len(hs)) if hs[g] != hs[h]]
            g = rnd.choice(gs[-3:] + gs)
            ops.append(['s', h + 1, g + 1])
            hs.append(hs[g])
    return ops


def _interleave(ops, wires, rnd):
    """Creation order fixed, each wire somewhere after both its ends."""
    seq = list(ops)
    for w in wires:
        lo = max(i for i, o in enumerate(seq)
                 if o[0] == 'c' and o[3] in (w[1], w[3])) + 1
        seq.insert(rnd.randint(lo, len(seq)), w)
    return seq


def execute(sc):
    import brainstorm as bs
    from brainstorm import layers as L
    made = {}
    ops = sc['ops']
    handles = []
    prev = None          # (layer the last expression ended in, its wrapper)
    for n, op in enumerate(ops):
        if op[0] == 'c':
            prev = None
            _, base, typ, uid = op
            f = getattr(L, typ)
            made[uid] = f(size=uid, name=None if base == typ else base)
            handles.append(made[uid])
        elif op[0] == 'o':
            handles.append(handles[op[1] - 1] - op[2])
        elif op[0] == 'i':
            handles.append(op[2] - handles[op[1] - 1])
        elif op[0] == 's':
            handles.append(handles[op[1] - 1] >> handles[op[2] - 1])
        else:
            _, s, o, e, i = op
            a, b = made[s], made[e]
            if sc['style'] == 0 or (o, i) != ('default', 'default'):
                a - o >> i - b
            elif sc['style'] == 1:
                # chained expression a >> b >> c where statements allow it
                if prev is not None and prev[0] == s:
                    prev = (e, prev[1] >> b)
                else:
                    prev = (e, a >> b)
                continue
            else:
                a >> "default" - b
            prev = None
    obs = []
    for uid in sorted(made):
        try:
            arch = bs.generate_architecture(made[uid])
            rows = []
            for n in sorted(arch):
                d = arch[n]
                oc = d['@outgoing_connections']
                if not isinstance(oc, dict):
                    oc = {'default': list(oc)}
                rows.append({'n': n, 't': d['@type'], 'u': int(d['size']),
                             'out': [{'o': o, 'tg': [x if '.' in x else x + '.default'
                                             for x in t]}
                                     for o, t in sorted(oc.items()) if t]})
            obs.append({'err': '', 'arch': rows})
        except Exception as e:  # judged by the specification
            obs.append({'err': type(e).__name__, 'arch': []})
    return {'ops': sc['ops'], 'obs': obs}
