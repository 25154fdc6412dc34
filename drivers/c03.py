"""C03: buffer layout: sinks alias exactly their sources, nothing else."""
TRACE_SPEC = 'LayoutTrace'


def scenarios(ctx):
    cfg = ('INIT MCInit\nNEXT MCNext\nCONSTANTS N = %d MaxSinks = %d Emit = %s'
           '\nINVARIANTS SearchAgrees PackingSound EmitState\n'
           'CHECK_DEADLOCK FALSE\n')
    jobs = [('LayoutMC', cfg % (3, 4, 'TRUE'), {}),
            ('LayoutMC', cfg % (4, 3, 'TRUE'), {})]
    if not ctx.quick:
        jobs.append(('LayoutMC', cfg % (4, 5, 'FALSE'), {'timeout': 1500}))
        jobs.append(('LayoutMC', cfg % (5, 2, 'FALSE'), {'timeout': 2000}))
    res = ctx.models(jobs)
    rnd = ctx.rnd
    out = []
    for r in res[:2]:
        ss = sorted(r.lines, key=str)
        rnd.shuffle(ss)
        # keep feasible and infeasible families balanced
        good = [s for s in ss if s['f']]
        bad = [s for s in ss if not s['f']]
        for s in good[:ctx.pick(200, 1500)] + bad[:ctx.pick(60, 600)]:
            out.append(_family(rnd, s['s']))
    n = ctx.pick(350, 4000)
    while n:
        sc = _net(rnd)
        if _biggest_hub(sc) <= 6:    # the search is factorial in this
            out.append(sc)
            n -= 1
    return out


def _biggest_hub(sc):
    """Number of source groups that one buffer has to hold."""
    sinks = {}
    for s, o, t, i in sc['edges']:
        g = (s, 'params') if o.startswith('..parameters') else (s, o)
        sinks.setdefault((t, i), set()).add(g)
    comps = [set((m['n'], 'params') for m in sc['nodes'] if m['params'])]
    for req in sinks.values():
        comps.append(set(req))
    merged = True
    while merged:
        merged = False
        for a in range(len(comps)):
            for b in range(a + 1, len(comps)):
                if comps[a] & comps[b]:
                    comps[a] |= comps.pop(b)
                    merged = True
                    break
            if merged:
                break
    return max(len(c) for c in comps)


def _family(rnd, sinks):
    """Sources = outputs of n layers fed by Input, sinks = inputs of others."""
    n = max(max(s) for s in sinks)
    nodes = []
    for i in range(1, n + 1):
        nodes.append({'n': 'S%d' % i, 'ins': ['default'],
                      'outs': [['default', rnd.randint(1, 3)]],
                      'params': [], 'ctx': rnd.choice([0, 0, 1]),
                      'con': []})
    edges = [['Input', 'a', 'S%d' % i, 'default'] for i in range(1, n + 1)]
    for k, s in enumerate(sinks):
        nodes.append({'n': 'K%d' % k, 'ins': ['default'],
                      'outs': [['default', 1]], 'params': [], 'ctx': 0})
        for i in s:
            edges.append(['S%d' % i, 'default', 'K%d' % k, 'default'])
    return _finish(rnd, nodes, edges, 'family')


def _net(rnd):
    n = rnd.randint(2, 6)
    nodes, edges = [], []
    dense = rnd.random()
    for i in range(n):
        ins = rnd.choice([['default'], ['default'], ['default', 'second']])
        outs = [['default', rnd.randint(1, 3)]]
        if rnd.random() < .4:
            outs.append(['aux', rnd.randint(1, 2)])
        params = []
        for p in 'WVb'[:rnd.randint(0, 3)]:
            params.append([p, rnd.choice([[2, 2], [3], [1, 2]])])
        nodes.append({'n': rnd.choice('ABCDE') + str(i), 'ins': list(ins),
                      'outs': outs, 'params': params,
                      'ctx': rnd.choice([0, 0, 1, 2]),
                      'internals': [['h', 2]] if rnd.random() < .2 else []})
        for inp in ins:
            srcs = [('Input', o) for o in 'ab']
            for m in nodes[:-1]:
                srcs += [(m['n'], o[0]) for o in m['outs']]
                srcs += [(m['n'], '..internals.' + o[0])
                         for o in m['internals']]
            k = 1 if dense < .3 else rnd.randint(1, 3)
            for s in rnd.sample(srcs, min(k, len(srcs))):
                edges.append([s[0], s[1], nodes[-1]['n'], inp])
    # a sink wired to parameters
    if rnd.random() < .4:
        ps = [(m['n'], '..parameters.' + p[0]) for m in nodes
              for p in m['params'] if len(p[1]) == 1]
        ps2 = [(m['n'], '..parameters.' + p[0]) for m in nodes
               for p in m['params'] if len(p[1]) == 2 and p[1] == [2, 2]]
        use = ps if rnd.random() < .5 else ps2
        if use:
            k = rnd.randint(1, min(2, len(use)))
            srcs = rnd.sample(use, k)
            nodes.append({'n': 'P', 'ins': ['default', 'p'],
                          'outs': [['default', 1]], 'params': [], 'ctx': 0})
            edges.append(['Input', 'a', 'P', 'default'])
            for s in srcs:
                edges.append([s[0], s[1], 'P', 'p'])
    return _finish(rnd, nodes, edges, 'net')


def _finish(rnd, nodes, edges, kind):
    idx = [list(range(len(nodes) + 1)) for _ in range(2)]
    rnd.shuffle(idx[1])
    return {'kind': kind, 'nodes': nodes, 'edges': edges, 'orders': idx,
            'T': rnd.randint(1, 3), 'B': rnd.randint(1, 3)}


def _arch(sc, order):
    ents = [('Input', {'@type': 'Input', 'out_shapes': {
        'a': ('T', 'B', 2), 'b': ('T', 'B', 1)}})]
    for m in sc['nodes']:
        ents.append((m['n'], {
            '@type': 'VPack', 'outs': m['outs'], 'params': m['params'],
            'ins': m['ins'], 'ctx': m['ctx'],
            'internals': m.get('internals', [])}))
    d = {}
    for i in order:
        n, e = ents[i]
        oc = {}
        for s, o, t, inp in (sc['edges'] if i % 2 else sc['edges'][::-1]):
            if s == n:
                oc.setdefault(o, []).append(t + '.' + inp)
        e['@outgoing_connections'] = oc
        d[n] = e
    return d


def execute(sc):
    import numpy as np
    import brainstorm as bs
    from drivers import probes  # noqa
    from vlib import enc
    T, B = sc['T'], sc['B']
    # sources, by id
    srcs = [('Input', 'outputs', 'a'), ('Input', 'outputs', 'b')]
    groups = []
    for m in sc['nodes']:
        for o, _ in m['outs']:
            srcs.append((m['n'], 'outputs', o))
        for o, _ in m.get('internals', []):
            srcs.append((m['n'], 'internals', o))
    groups = [[k + 1] for k in range(len(srcs))]
    for m in sc['nodes']:
        g = []
        for p, _ in m['params']:
            srcs.append((m['n'], 'parameters', p))
            g.append(len(srcs))
        if g:
            groups.append(g)
    sid = {s: k + 1 for k, s in enumerate(srcs)}

    def src_of(s, o):
        if o.startswith('..'):
            cat, _, nm = o[2:].partition('.')
            return sid[(s, cat, nm)]
        return sid[(s, 'outputs', o)]
    sinks = {}
    for s, o, t, inp in sc['edges']:
        k = src_of(s, o)
        if k not in sinks.setdefault((t, inp), []):
            sinks[(t, inp)].append(k)
    keys = sorted(sinks)
    params = [k for k, s in enumerate(srcs) if s[1] == 'parameters']
    tsinks = [{'req': sinks[k]} for k in keys]
    # the full parameter vector is itself a sink of all parameters
    if params:
        tsinks.append({'req': [k + 1 for k in params]})
    obs = []
    for order in sc['orders']:
        o = {'err': ''}
        try:
            net = bs.Network.from_architecture(_arch(sc, order))
        except Exception as e:
            o['err'] = type(e).__name__
            obs.append(o)
            continue
        net.provide_external_data({'a': np.zeros((T, B, 2)),
                                   'b': np.zeros((T, B, 1))})
        h = net.handler

        def rows(a, cat):
            """array -> list of rows, one per (t, b)"""
            a = np.asarray(a)
            if cat in ('parameters', 'gradients'):
                return [enc.flat(a)]
            a = a[:T]
            return [enc.flat(a[t, b]) for t in range(T) for b in range(B)]

        def phase(names, sink_cat, vec):
            wrote, ctxs = [], []
            n = 0
            views = []
            for (ln, cat, nm) in srcs:
                c2 = names.get(cat, cat)
                if cat == 'internals' and vec == 'gradients':
                    nm = 'd' + nm
                v = net.buffer[ln][c2][nm]
                views.append((v, cat))
                a = np.arange(n + 1, n + 1 + v.size, dtype=float)
                n += v.size
                a = a.reshape(v.shape)
                h.set_from_numpy(v, a)
                wrote.append(rows(a, cat))
                ctxs.append(a)
            back = []
            for (v, cat), a in zip(views, ctxs):
                g = h.get_numpy_copy(v)
                back.append(rows(g, cat))
                if not (g == a).all():       # also the context part
                    back[-1] = [[-1]]
            got = []
            for (t, inp) in keys:
                cat = 'parameters' if inp == 'p' else ''
                got.append(rows(h.get_numpy_copy(
                    net.buffer[t][sink_cat][inp]), cat))
            if params:
                got.append([enc.flat(h.get_numpy_copy(net.buffer[vec]))])
            return {'wrote': wrote, 'back': back, 'got': got}
        o['fwd'] = phase({}, 'inputs', 'parameters')
        pv = enc.flat(net.get('parameters'))
        pw = [x for k in params for x in o['fwd']['wrote'][k][0]]
        o['bwd'] = phase({'outputs': 'output_deltas',
                          'parameters': 'gradients'},
                         'input_deltas', 'gradients')
        gv = enc.flat(net.get('gradients'))
        # the same enumeration is used in both phases, so equal numbers
        # mean equal places
        o.update(pvec=pv, gvec=gv, pwrote=pw, psize=len(pw))
        obs.append(o)
    return {'groups': groups, 'sinks': tsinks, 'obs': obs}
