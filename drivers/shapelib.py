"""Architectures of the library's layers, for the checks of shapes."""

SHAPES = [[1], [2], [3], [6], [4], [2, 3], [3, 2], [2, 1], [3, 1], [1, 1],
          [2, 3, 1], [3, 2, 1], [2, 3, 2], [1, 6], [4, 4, 2], [5, 3, 1],
          [2, 2, 2, 1]]
INPUTS = {'Mask': ['default', 'mask'], 'Highway': ['H', 'T', 'x'],
          'Merge': ['inputs_1', 'inputs_2'],
          'SquaredDifference': ['inputs_1', 'inputs_2'], 'Input': []}
for _t in ('SoftmaxCE', 'SigmoidCE', 'SquaredError', 'BinomialCrossEntropy'):
    INPUTS[_t] = ['default', 'targets']
ONE = ['FullyConnected', 'Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm',
       'Convolution2D', 'Pooling2D', 'BatchNorm', 'Dropout', 'Elementwise',
       'NoOp', 'DeltasScaling', 'L1Decay', 'L2Decay', 'Loss']
for _t in ONE:
    INPUTS[_t] = ['default']
OUTS = {'SoftmaxCE': ['predictions', 'loss'], 'L1Decay': ['loss'],
        'SigmoidCE': ['predictions', 'loss'], 'L2Decay': ['loss'],
        'SquaredError': ['predictions', 'loss'], 'Loss': ['loss']}
ARGS = {'FullyConnected': ['size', 'activation'],
        'Convolution2D': ['num_filters', 'kernel_size', 'stride', 'padding',
                          'activation'],
        'Pooling2D': ['kernel_size', 'type', 'stride', 'padding'],
        'BatchNorm': ['decay', 'epsilon'], 'Dropout': ['drop_prob'],
        'Elementwise': ['activation'], 'DeltasScaling': ['factor'],
        'Loss': ['importance']}
for _t in ('Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm'):
    ARGS[_t] = ARGS['FullyConnected']
REQ = {'Convolution2D': ['num_filters', 'kernel_size'],
       'Pooling2D': ['kernel_size', 'type'], 'DeltasScaling': ['factor'],
       'Input': ['out_shapes']}

# values of the wrong kind: what the specification calls malformed arguments
WRONG = {'size': [2.5, '3', [2, 'a'], [2.5], {'a': 2}, -2],
         'padding': [-1, 1.0, [1, 1], '1'],
         'kernel_size': [3, [2], [1, 1, 1], '22', 2.5],
         'stride': [1, [2], [1, 1, 1], [-1, 1], [1, -1], [0, 1], [1, 0], 1.5],
         'num_filters': [1.5, '2', -1, [2]], 'decay': [-.25, 1.25, 7],
         'type': ['min', 3, 'MAX', ''],
         'out_shapes': [['T', 'B'], ['B'], [], ['B', 'T', 3], ['T', 3], ['T'],
                        [3, 'B'], ['T', 'B', 2, 'B'], ['T', 'B', 2.5],
                        ['T', 'B', 'x'], ['T', 'B', '...'], ['B', 4, 'T'],
                        ['T', 'B', -1], ['T', 'T', 3], ['B', 'B', 3],
                        ['T', 'B', 2, '3'], ['T', 'B', 3, 'T']]}


def layer(rnd, name, typ, defect=0.0):
    """A layer record as the specification wants it."""
    kw = list(REQ.get(typ, []))
    for a in ARGS.get(typ, []):
        if a not in kw and rnd.random() < .5:
            kw.append(a)
    tup = typ == 'FullyConnected' and rnd.random() < .4
    L = {'n': name, 't': typ, 'kw': kw, 'size': [rnd.randint(1, 4)],
         'tup': tup, 'nf': rnd.randint(1, 3),
         'kern': [rnd.randint(1, 3), rnd.randint(1, 3)], 'stride': [1, 1],
         'pad': 0, 'ptype': rnd.choice(['max', 'avg']), 'shapes': [],
         'outs': [], 'mal': [], 'wrong': 0}
    if tup:
        L['size'] = [rnd.randint(1, 3) for _ in range(rnd.randint(1, 3))]
    if 'stride' in kw:
        L['stride'] = [rnd.randint(1, 3), rnd.randint(1, 3)]
    if 'padding' in kw:
        L['pad'] = rnd.randint(0, 2)
    if rnd.random() < defect:
        k = rnd.randrange(7)
        if k == 0:
            L['kw'].append(rnd.choice(['nosuch', 'size', 'factor', 'shape',
                                       'drop_prob', 'importance', 'stride']))
            L['kw'] = sorted(set(L['kw']))
        elif k == 1 and REQ.get(typ):
            L['kw'].remove(rnd.choice(REQ[typ]))
        elif k == 2 and typ in ('Recurrent', 'Lstm', 'Clockwork',
                                'ClockworkLstm'):
            L['kw'] = sorted(set(L['kw']) | {'size'})
            L['tup'], L['size'] = True, [2, 2]
        elif k == 3 and typ in ('Convolution2D', 'Pooling2D'):
            L['kern'] = rnd.choice([[2], [2, 2, 2], [9, 1], [1, 9]])
        elif k == 4 and typ == 'Pooling2D':
            L['ptype'] = 'min'
        elif k >= 5 and set(WRONG) & set(ARGS.get(typ, [])):
            a = rnd.choice(sorted(set(WRONG) & set(ARGS[typ])))
            L['kw'] = sorted(set(L['kw']) | {a})
            L['mal'], L['wrong'] = [a], rnd.randrange(len(WRONG[a]))
    if 'size' not in L['kw']:
        L['tup'] = False
    return L


def network(rnd, defect=0.0, odd=0.0, n=None, wrong=None):
    """Layers in an order that respects their connections."""
    pool = rnd.sample(SHAPES, rnd.randint(1, 4))
    k = rnd.randint(1, 5)
    shapes = [['abcdef'[i], {'k': 2, 'f': rnd.choice(pool)}]
              for i in range(k)]
    for s in shapes:
        if rnd.random() < odd:
            s[1] = {'k': rnd.choice([0, 1]), 'f': s[1]['f']}
    inp = layer(rnd, 'Input', 'Input')
    inp['shapes'] = shapes
    if wrong is not None:
        inp['mal'] = ['out_shapes']
        inp['wrong'] = wrong
    arch = [inp]
    names = rnd.sample(['A', 'B', 'C', 'Z', 'a', 'x1', 'x10', 'x2', 'Loss',
                        'L_1', 'M'], n or rnd.randint(1, 5))
    outs = [(0, o) for o, _ in shapes]
    for name in names:
        typ = rnd.choice([t for t in INPUTS if t != 'Input'])
        L = layer(rnd, name, typ, defect)
        for i in INPUTS[typ]:
            if rnd.random() < defect / 3:
                continue
            src = outs
            if typ == 'SoftmaxCE' and i == 'targets':
                src = [s for s in outs if s[0] == 0]
            c = 2 if rnd.random() < .12 and i != 'targets' else 1
            for s, o in rnd.sample(src, min(c, len(src))):
                arch[s]['outs'].append([o, name, i])
        if rnd.random() < defect / 3:
            s, o = rnd.choice(outs)
            arch[s]['outs'].append([o, name, 'nosuch'])
        outs += [(len(arch), o) for o in OUTS.get(typ, ['default'])]
        arch.append(L)
    return arch


def from_model(rnd, st, name='L'):
    """One layer fed by the Input layer, from a state of ShapesMC."""
    L = layer(rnd, name, st['t'])
    L['kw'] = list(REQ.get(st['t'], []))
    L.update(size=[], tup=False, nf=2, kern=[2, 2], stride=[1, 1], pad=0,
             ptype='max')
    inp = layer(rnd, 'Input', 'Input')
    for n, (i, ss) in enumerate(st['in']):
        for m, s in enumerate(ss):
            o = '%s%d%d' % (rnd.choice('abz'), n, m)
            inp['shapes'].append([o, s])
            inp['outs'].append([o, name, i])
    return [inp, L]


# ------------------------------------------------------------ implementation

VALUES = {'activation': 'tanh', 'decay': .9, 'epsilon': 1e-3,
          'drop_prob': .3, 'factor': 2.0, 'importance': .5, 'nosuch': 1,
          'shape': 3}


def describe(arch, order):
    d = {}
    for k in order:
        L = arch[k]
        e = {'@type': L['t']}
        for a in L['kw']:
            if a in L['mal'] and a == 'out_shapes':
                sh = [[o, tuple({2: ['T', 'B'], 1: ['B'], 0: []}[s['k']] +
                                s['f'])] for o, s in L['shapes']]
                sh[L['wrong'] % len(sh)][1] = tuple(WRONG[a][L['wrong']])
                e[a] = dict(sh)
            elif a in L['mal']:
                w = WRONG[a][L['wrong']]
                e[a] = tuple(w) if isinstance(w, list) else w
            elif a == 'size':
                e[a] = (tuple(L['size']) if L['tup'] else
                        (L['size'] or [2])[0])
            elif a == 'out_shapes':
                e[a] = {o: tuple({2: ['T', 'B'], 1: ['B'], 0: []}[s['k']] +
                                 s['f']) for o, s in L['shapes']}
            elif a == 'num_filters':
                e[a] = L['nf']
            elif a == 'kernel_size':
                e[a] = tuple(L['kern'])
            elif a == 'stride':
                e[a] = tuple(L['stride'])
            elif a == 'padding':
                e[a] = L['pad']
            elif a == 'type':
                e[a] = L['ptype']
            else:
                e[a] = VALUES[a]
        oc = {}
        for o, end, i in L['outs']:
            oc.setdefault(o, []).append(end + '.' + i)
        e['@outgoing_connections'] = oc
        d[L['n']] = e
    return d
