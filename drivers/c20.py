"""C20: network building and data tools do what they document."""
TRACE_SPEC = 'ToolsTrace'
CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLayers = %d\n'
       'Mode = "%s"\nFlat = %s\nINVARIANTS Concatenates OneLayerEach Wired '
       'Reaches RejectsAll Unordered Cuttable Emit\n')


def scenarios(ctx):
    rnd = ctx.rnd
    kw = {'timeout': 2000}
    r = ctx.models([('ToolsMC', CFG % (2, 'lines', 'FALSE'), kw),
                    ('ToolsMC', CFG % (2, 'lines', 'TRUE'), kw),
                    ('ToolsMC', CFG % (1, 'requests', 'FALSE'), kw),
                    ('ToolsMC', CFG % (1, 'cuts', 'FALSE'), kw)])
    img = sorted(r[0].lines, key=str)
    flat = sorted(r[1].lines, key=str)
    out = []
    for lines, inn, n in ((img, [4, 4, 2], ctx.pick(500, 6000)),
                          (flat, [3], ctx.pick(300, 3000))):
        one = [x for x in lines if count(x['toks']) == 1]
        good = [x for x in lines if x['ok'] and count(x['toks']) > 1]
        bad = [x for x in lines if not x['ok'] and count(x['toks']) > 1]
        rnd.shuffle(good)
        rnd.shuffle(bad)
        for x in one + good[:n] + bad[:n // 5]:
            out.append(line(rnd, x['toks'], request(rnd, inn)))
    for i in range(ctx.pick(300, 4000)):
        q = request(rnd, rnd.choice([[5], [6, 5, 2], [8, 8, 3], [2, 3]]))
        toks = []
        for _ in range(rnd.randint(0, 6)):
            toks += group(rnd, q['inn'])
        if len(q['inn']) == 3 and rnd.random() < .3:
            q['out'] = q['inn'][:2] + [rnd.randint(1, 3)]
            toks = []
            for _ in range(rnd.randint(0, 3)):
                k = rnd.choice([1, 3])
                toks += [lt('C')] + rnd.choice([[], [ch('t')], [ch('l')]]) + \
                    [nu(rnd.randint(1, 3)), nu(k)] + \
                    ([ch('p'), nu(1)] if k == 3 else [])
                toks += rnd.choice([[], [lt('B')], [lt('D')]])
            q['conv'] = rnd.choice(['auto', 'yes', 'no'])
        out.append(line(rnd, toks, q))
    reqs = sorted(r[2].lines, key=str)
    for q in reqs:
        if q['conv'] == 'yes' and len(q['out']) == 1:
            continue
        out.append({'kind': 'inout', 'q': q, 'toks': []})
    cuts = sorted(r[3].lines, key=str)
    rnd.shuffle(cuts)
    for i in range(ctx.pick(150, 1500)):
        out.append({'kind': 'data', 'ev': [split(rnd, c) for c in
                                           rnd.sample(cuts, 6)]})
        out.append({'kind': 'data', 'ev': shuffles(rnd)})
    return out


def count(toks):
    return sum(t['k'] == 'L' for t in toks)


def lt(x):
    return {'k': 'L', 'v': x, 'n': 0}


def ch(x):
    return {'k': 'a', 'v': x, 'n': 0}


def nu(n):
    return {'k': 'n', 'v': '', 'n': n}


def fr(n):
    return {'k': 'f', 'v': '', 'n': n}


def group(rnd, inn):
    x = rnd.choice('FFRLBDCP' if len(inn) == 3 else 'FFRLBD')
    if rnd.random() < .02:
        return [lt(rnd.choice('FRLPC'))]
    act = rnd.choice([[], [ch(rnd.choice('strl'))]])
    geo = [[ch('p'), nu(rnd.randint(0, 2))], [ch('s'), nu(rnd.randint(1, 3))]]
    rnd.shuffle(geo)
    geo = sum(geo[:rnd.choice([0, 0, 1, 2])], [])
    if x in 'FRL':
        return [lt(x)] + act + [nu(rnd.choice([1, 2, 7, 10, 21]))]
    if x == 'B':
        return [lt(x)]
    if x == 'D':
        return [lt(x)] + rnd.choice([[], [fr(rnd.choice([50, 200, 250, 500,
                                                         750, 900, 0]))]])
    if x == 'C':
        return [lt(x)] + act + [nu(rnd.choice([1, 2, 4, 11])),
                                nu(rnd.choice([1, 2, 3]))] + geo
    return [lt(x)] + rnd.choice([[], [ch('m')], [ch('a')]]) + \
        [nu(rnd.choice([1, 2, 3]))] + geo


def request(rnd, inn):
    task = rnd.choice(['classification', 'multi-label', 'regression'])
    if rnd.random() < .02:
        task = 'clustering'
    return {'task': task, 'inn': inn, 'out': [rnd.choice([1, 2, 3, 10])],
            'data': rnd.choice(['default', 'default', 'x']),
            'targets': rnd.choice(['targets', 'targets', 'y']),
            'mask': rnd.choice(['', '', 'mask', 'm']), 'conv': 'auto',
            'proj': '', 'outl': ''}


def line(rnd, toks, q):
    """Write the tokens as text."""
    def ws():
        return rnd.choice(['', '', '', ' ', '  ', '\t', '\n'])
    s, tight = ws(), rnd.random() < .5
    sp = (lambda: '') if tight else ws
    prev = None
    for t in toks:
        if t['k'] == 'L':
            if prev is not None:
                s += rnd.choice([' ', '  ', '\n ']) if prev['k'] == 'L' \
                    else sp()
            s += t['v']
        elif t['k'] == 'a':
            s += sp() + t['v']
        else:
            if prev['k'] in 'nf':
                s += sp() + rnd.choice(':::/|')
            s += sp() + (str(t['n']) if t['k'] == 'n' else
                         frac(rnd, t['n']))
        prev = t
    return {'kind': 'spec', 'q': q, 'toks': toks, 'text': s + ws(),
            'gs': rnd.randint(0, 999),
            'int': rnd.random() < .5}


def frac(rnd, n):
    x = '%03d' % n
    x = '.' + (x.rstrip('0') or '0')
    return rnd.choice(['', '0']) + x + rnd.choice(['', '0'])


def arrays(rnd, n):
    shapes = [[rnd.randint(1, 3), n, rnd.randint(1, 2)]]
    for _ in range(rnd.randint(0, 2)):
        shapes.append(rnd.choice([[], [1, n], [2, n, 1], [1, n, 2, 1],
                                  [3, n]]))
    return shapes


def split(rnd, ratios):
    n = rnd.choice([0, 1, 2, 3, 5, 7, 8, 10, 11, 25, 64])
    return {'op': 'split', 'shapes': arrays(rnd, n), 'ratios': ratios,
            'scale': rnd.choice([1, 1, .1, .05]),
            'dflt': ratios == [1] and rnd.random() < .9}


def shuffles(rnd):
    seeds = rnd.sample(range(1000), 2)
    ns = [rnd.choice([1, 2, 3, 5, 12, 20]), 15]
    return [{'op': 'shuffle', 'shapes': arrays(rnd, rnd.choice(ns)),
             'seed': rnd.choice(seeds + seeds + [-1 - i])} for i in range(6)]


# ------------------------------------------------------------------ execution
def observe(net, how, out):
    import numpy as np
    import re
    from brainstorm.tools import get_network_info
    arch = net.architecture
    q = {'ok': True, 'how': how, 'names': [str(x) for x in net.layers],
         'conns': [], 'layers': [], 'total': int(net.buffer.parameters.size),
         'losses': [str(x) for x in sorted(net.get_loss_values())],
         'pred': [], 'loss': '', 'inputs': []}
    m = re.search(r'total number of parameters:\s*(\d+)',
                  get_network_info(net))
    q['info'] = int(m.group(1)) if m else -1
    for n, d in arch.items():
        for o, dest in d['@outgoing_connections'].items():
            for x in dest:
                a, b = x.split('.')
                q['conns'].append([n, o, a, b])
    for n, l in net.layers.items():
        ty = arch[n]['@type']
        if ty == 'Input':
            q['inputs'] = [[str(k), [int(i) for i in s.feature_shape]]
                           for k, s in l.out_shapes.items()]
        elif ty in ('SoftmaxCE', 'SigmoidCE', 'SquaredError'):
            q['loss'] = ty
        elif ty in ('FullyConnected', 'Recurrent', 'Lstm', 'Convolution2D',
                    'Pooling2D', 'Dropout', 'BatchNorm'):
            it = {'ok': True, 'type': ty, 'act': '', 'size': 0, 'drop': 0,
                  'k': 0, 's': 1, 'p': 0, 'pool': ''}
            if hasattr(l, 'activation'):
                it['act'] = str(l.activation)
            osh = [int(i) for i in l.out_shapes['default'].feature_shape]
            if ty in ('FullyConnected', 'Recurrent', 'Lstm'):
                it['size'] = int(np.prod(osh))
            if ty in ('Convolution2D', 'Pooling2D'):
                sq = l.kernel_size[0] == l.kernel_size[1] and \
                    l.stride[0] == l.stride[1]
                it['k'] = int(l.kernel_size[0]) if sq else -1
                it['s'] = int(l.stride[0])
                it['p'] = int(l.padding)
                if ty == 'Pooling2D':
                    it['pool'] = str(l.type)
                else:
                    it['size'] = int(l.num_filters)
            if ty == 'Dropout':
                it['drop'] = int(round(float(l.drop_prob) * 1000))
            q['layers'].append({
                'name': str(n), 'type': ty,
                'in': [int(i) for i in l.in_shapes['default'].feature_shape],
                'out': osh, 'item': it,
                'pars': int(sum(p.size for p in
                                net.buffer[n].parameters.values())),
                'init': [{'shape': [int(i) for i in p.shape],
                          'max': min(100000, int(np.abs(p).max() * 1024)
                                     if np.isfinite(p).all() else 100000)}
                         for p in net.buffer[n].parameters.values()]})
    if how == 'create':
        x = net.get(net.output_name)
        q['pred'] = [int(i) for i in x.shape[2:]]
    return q


def execute(sc):
    import numpy as np
    from brainstorm import tools, Network
    from brainstorm.randomness import global_rnd
    if sc['kind'] == 'data':
        return {'kind': 'data', 'ev': [data_event(e) for e in sc['ev']]}
    q = sc['q']
    kw = {'data_name': q['data'], 'targets_name': q['targets'],
          'mask_name': q['mask'] or None,
          'use_conv': {'auto': None, 'yes': True, 'no': False}[q['conv']]}
    inn, out = tuple(q['inn']), tuple(q['out'])
    if sc.get('int'):
        inn = inn[0] if len(inn) == 1 else inn
        out = out[0] if len(out) == 1 else out
    try:
        if sc['kind'] == 'spec':
            global_rnd.set_seed(sc['gs'])
            net = tools.create_net_from_spec(q['task'], inn, out, sc['text'],
                                             **kw)
            o = observe(net, 'create', q['out'])
        else:
            i, p = tools.get_in_out_layers(
                q['task'], inn, out, projection_name=q['proj'] or None,
                outlayer_name=q['outl'] or None, **kw)
            net = Network.from_layer((i - q['data']) >> p)
            o = observe(net, 'inout', q['out'])
    except Exception as e:
        o = {'ok': False, 'err': repr(e)[:200]}
    return {'kind': sc['kind'], 'q': q, 'toks': sc['toks'], 'o': o}


def enc(a):
    import numpy as np
    if a is None:
        return {'none': True, 'a': [], 'w': 0}
    a = np.asarray(a)
    w = int(a.shape[1]) if a.ndim > 1 else -1
    return {'none': False, 'w': w, 'a': a.reshape(
        a.shape[:2] + (-1 if a.size else 1,)).astype(int).tolist()}


def data_event(e):
    import numpy as np
    from brainstorm import tools
    src, base = [], 0
    for s in e['shapes']:
        if not s:
            src.append(None)
            continue
        k = int(np.prod(s))
        src.append(base + np.arange(k, dtype=float).reshape(s))
        base += k
    r = {'op': e['op'], 'src': [enc(a) for a in src], 'ok': True, 'res': []}
    try:
        if e['op'] == 'split':
            rs = [x * e['scale'] for x in e['ratios']]
            r['ratios'] = e['ratios']
            if e['dflt']:
                r['ratios'] = [9, 1]
                res = tools.split(*src)
            else:
                res = tools.split(*src, ratios=rs)
            r['res'] = [[enc(a) for a in p] for p in res]
        else:
            r['seed'] = e['seed']
            r['perm'] = []
            kw = {'seed': e['seed']} if e['seed'] >= 0 else {}
            res = tools.shuffle_data(*src, **kw)
            r['res'] = [enc(a) for a in res]
            first = [x[0] for x in r['src'][0]['a'][0]]
            r['perm'] = [first.index(x[0]) + 1 if x[0] in first else 0
                         for x in r['res'][0]['a'][0]]
    except Exception as ex:
        r['ok'] = False
        r['err'] = repr(ex)[:200]
    r['after'] = [enc(a) for a in src]
    return r
