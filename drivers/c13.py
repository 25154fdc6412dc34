"""C13: evaluation and extraction do not depend on the batching."""
TRACE_SPEC = 'EvaluationTrace'
CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
       'CONSTANTS MaxN = %d MaxV = 2\n'
       'INVARIANTS LossIsMean ScoreIsMaskedMean Emit\n')


def scenarios(ctx):
    rnd = ctx.rnd
    r = ctx.models([('EvaluationMC', CFG % ctx.pick(4, 5), {})])
    ms = {}
    for q in r[0].lines:
        if any(q['m']):
            ms[str(q)] = q
    ms = [ms[k] for k in sorted(ms)]
    rnd.shuffle(ms)
    out = [one(rnd, 'model', m) for m in ms[:ctx.pick(150, 1500)]]
    out += [one(rnd, 'random') for _ in range(ctx.pick(300, 4000))]
    return out


def one(rnd, kind, m=None):
    task = rnd.choice(['reg', 'reg', 'cls', 'multi'])
    N = m['n'] if m else rnd.randint(1, 6)
    T = rnd.randint(1, 3)
    I = rnd.randint(1, 2)
    C = rnd.randint(2, 3) if task == 'cls' else rnd.randint(1, 3)
    hasmask = bool(m) or rnd.random() < .6
    s = {'kind': kind, 'task': task, 'N': N, 'T': T, 'hasmask': hasmask,
         'masked': hasmask and rnd.random() < .7, 'tname': rnd.choice(
             ['targets', 'targets', 'labels']),
         'outset': rnd.random() < .5, 'alt': rnd.random() < .4, 'dtype': rnd.choice(['f8', 'f4']),
         'depth': rnd.randint(0, 1)}

    def params():
        k = 2 if task == 'reg' else 1   # far from where losses are clipped
        return {'W': [[rnd.randint(-k, k) for _ in range(I)]
                      for _ in range(C)],
                'b': [rnd.randint(-k, k) for _ in range(C)]}
    s['P'] = params()
    s['x'] = [[[rnd.randint(-2, 2) for _ in range(I)] for _ in range(N)]
              for _ in range(T)]
    if task == 'cls':
        s['t'], s['t2'] = [[[[rnd.randrange(C)] for _ in range(N)]
                            for _ in range(T)] for _ in range(2)]
    else:
        lim = (0, 1) if task == 'multi' or rnd.random() < .5 else (-3, 3)
        s['t'], s['t2'] = [[[[rnd.randint(*lim) for _ in range(C)]
                             for _ in range(N)] for _ in range(T)]
                           for _ in range(2)]
    mk = [[[1] for _ in range(N)] for _ in range(T)]
    if hasmask:
        while True:
            for t in range(T):
                for n in range(N):
                    mk[t][n][0] = rnd.choice([0, 1, 1, 2]) if rnd.random() \
                        < .5 else int(rnd.random() < .5)
            if m:
                for n in range(N):
                    for t in range(T):
                        if not m['m'][n]:
                            mk[t][n][0] = 0
            if any(mk[t][n][0] for t in range(T) for n in range(N)):
                break
    s['m'] = mk
    s['m2'] = [[[rnd.choice([0, 1, 1])] for _ in range(N)] for _ in range(T)]
    s['m2'][rnd.randrange(T)][rnd.randrange(N)][0] = 1
    s['losses'] = [{'n': 'Loss', 'imp8': rnd.choice([8, 8, 4, 20])}]
    if rnd.random() < .3:
        s['losses'] = [{'n': 'LossA', 'imp8': 8},
                       {'n': 'LossB', 'imp8': rnd.choice([4, 12])}]
    s['hist'] = h = []
    for i in range(rnd.randint(2, 5)):
        k = rnd.choice(['evaluate', 'evaluate', 'evaluate', 'extract',
                        'monitor', 'set'])
        o = {'o': k}
        # without a masked loss, cutting is not the same thing
        cut = s['masked'] or not hasmask
        o['bs'] = rnd.choice([0, 1, 2, 3, N, N + 2]) if cut or \
            k == 'extract' else 0
        if m and rnd.random() < .6:
            o['sizes'] = m['sizes']
            o['bs'] = 0
        elif o['bs'] == 0 and rnd.random() < .5:
            o['sizes'] = comp(rnd, N)
        if k in ('evaluate', 'monitor'):
            o['shuffle'] = rnd.random() < .5
            o['scorers'] = scorers(rnd, s, C)
            ev = k == 'evaluate'
            o['arg_m'] = rnd.choice(['', '', 'm', 'm2'][:4 if s['alt'] else 3]
                                    ) if hasmask and ev else ''
            o['arg_t'] = rnd.choice(['t', 't2']) if s['alt'] and ev else 't'
            if hasmask and not all((q['own_m'] or o['arg_m']) == 'm'
                                   for q in o['scorers']):
                o['bs'] = 0     # cut away steps would count for the score
            o['arg_o'] = ev and all(q['own_o'] for q in o['scorers']) and \
                rnd.random() < .5
            if k == 'monitor':
                o['ts'] = rnd.choice(['epoch', 'update'])
                o['via'] = rnd.choice(['train', 'train', 'evaluate'])
        elif k == 'extract':
            o['names'] = rnd.sample(['pred', 'proj', 'in'],
                                    rnd.randint(1, 3))
            o['save'] = rnd.random() < .4
            o['string'] = len(o['names']) == 1 and rnd.random() < .5
            if not o['save'] and not o['string'] and rnd.random() < .2:
                o['names'].append(o['names'][0])      # the same one twice
            o['notargets'] = rnd.random() < .3
        else:
            o['P'] = params()
        h.append(o)
    return s


def comp(rnd, N):
    out = []
    while sum(out) < N:
        out.append(rnd.randint(1, N - sum(out)))
    return out


def scorers(rnd, s, C):
    out = []
    c = ['mse'] if s['task'] != 'cls' else []
    if s['task'] == 'cls' or C == 1 and s['task'] == 'reg':
        c.append('acc')
    if s['task'] != 'cls':
        c.append('ham')
    mask = None
    for k in c:
        if rnd.random() < .75:
            if mask is None or rnd.random() < .3:
                mask = rnd.choice(['', 'm', 'm', 'm2'][:4 if s['alt'] else 3]
                                  ) if s['hasmask'] else ''
            out.append({'k': k, 'own_m': mask, 'own_o': rnd.random() < .3,
                        'own_t': rnd.choice(['', '', 't', 't2'])
                        if s['alt'] else '',
                        'thr2': 1 if s['task'] == 'multi' else
                        rnd.choice([1, 1, 0, 2, 3]),
                        'n': rnd.choice([k, '']) if True else ''})
    for q in out:
        q['cls'] = {'mse': 'MeanSquaredError', 'acc': 'Accuracy',
                    'ham': 'Hamming'}[q['k']]
        q['named'] = bool(q['n'])
        q['n'] = q['n'] or q['cls']
    return out


def build(sc):
    import numpy as np
    import brainstorm as bs
    from brainstorm import layers as L
    from brainstorm.handlers import NumpyHandler
    I = len(sc['x'][0][0])
    C = len(sc['P']['b'])
    shapes = {'default': ('T', 'B', I),
              sc['tname']: ('T', 'B', len(sc['t'][0][0]))}
    if sc['hasmask']:
        shapes['mask'] = ('T', 'B', 1)
    if sc['alt']:
        shapes['other'] = shapes[sc['tname']]
        shapes['mask2'] = ('T', 'B', 1)
    inp = L.Input(shapes)
    out = {'reg': L.SquaredError, 'cls': L.SoftmaxCE,
           'multi': L.SigmoidCE}[sc['task']](name='Output')
    proj = L.FullyConnected(C, activation='linear', name='proj')
    if sc['depth']:
        inp >> L.FullyConnected(I, activation='linear', name='ident') >> proj
    else:
        inp >> proj
    proj >> 'default' - out
    inp - sc['tname'] >> 'targets' - out
    src = out - 'loss'
    if sc['masked']:
        ml = L.Mask(name='Msk')
        src >> ml
        inp - 'mask' >> 'mask' - ml
        src = ml
    for q in sc['losses']:
        src >> L.Loss(importance=q['imp8'] / 8., name=q['n'])
    net = bs.Network.from_layer(proj)
    net.set_handler(NumpyHandler(
        {'f8': np.float64, 'f4': np.float32}[sc['dtype']]))
    return net


def execute(sc):
    import os
    import h5py
    import numpy as np
    from brainstorm import tools, scorers as S
    from brainstorm.data_iterators import (DataIterator, Minibatches,
                                           Undivided)
    from brainstorm.hooks import MonitorScores, MonitorLoss, StopAfterEpoch
    from brainstorm.training.trainer import Trainer
    from brainstorm.training.steppers import ForwardStepper
    from vlib import enc
    net = build(sc)
    P = 'Output.outputs.predictions'
    if sc['outset']:
        net.output_name = P

    def setp(p):
        init = {'proj': {'W': np.array(p['W'], dtype=float),
                         'bias': np.array(p['b'], dtype=float)}}
        if sc['depth']:
            k = len(p['W'][0])
            init['ident'] = {'W': np.eye(k), 'bias': np.zeros(k)}
        net.initialize(init)
    setp(sc['P'])
    data = {'default': np.array(sc['x'], dtype=float),
            sc['tname']: np.array(sc['t'], dtype=float)}
    if sc['hasmask']:
        data['mask'] = np.array(sc['m'], dtype=float)
    if sc['alt']:
        data['other'] = np.array(sc['t2'], dtype=float)
        data['mask2'] = np.array(sc['m2'], dtype=float)
    NM = {'m': 'mask', 'm2': 'mask2', 't': sc['tname'], 't2': 'other',
          '': ''}
    keep = {k: v.copy() for k, v in data.items()}

    class Cuts(DataIterator):
        def __init__(self, sizes, data):
            DataIterator.__init__(self, {k: v.shape for k, v in data.items()},
                                  len(sizes))
            self.sizes, self.data = sizes, data

        def __call__(self, handler=None):
            i = 0
            for s in self.sizes:
                # arrays of the network's handler, which has to be given
                yield {k: handler.create_from_numpy(
                    np.array(v[:, i:i + s])) for k, v in self.data.items()}
                i += s

    def iterator(o, d=None):
        d = data if d is None else d
        if o.get('sizes'):
            return Cuts(o['sizes'], d)
        if o['bs'] == 0:
            return Undivided(**d)
        return Minibatches(o['bs'], shuffle=o.get('shuffle', False), **d)

    def mk(o):
        out = []
        for q in o['scorers']:
            kw = {}
            if q['named']:
                kw['name'] = q['n']
            if q['own_m']:
                kw['mask_name'] = NM[q['own_m']]
            if q['own_o'] or not sc['outset'] and o['o'] == 'monitor':
                kw['out_name'] = P
            if q['own_t']:
                kw['targets_name'] = NM[q['own_t']]
            elif sc['tname'] != 'targets' and o['o'] == 'monitor':
                kw['targets_name'] = sc['tname']
            if q['k'] == 'ham':
                kw['threshold'] = q['thr2'] / 2.
            out.append(getattr(S, q['cls'])(**kw))
        return out

    def res(r):
        return {n: enc.fx(v) for n, v in r.items()}
    out = {'data': {'kind': sc['task'], 'x': sc['x'], 't': sc['t'],
                    't2': sc['t2'], 'm': sc['m'], 'm2': sc['m2'],
                    'masked': sc['masked'],
                    'hasmask': sc['hasmask']},
           'P': sc['P'], 'losses': sc['losses'], 'ev': []}
    names = {'pred': P, 'proj': 'proj.outputs.default',
             'in': 'Input.outputs.default'}
    for i, o in enumerate(sc['hist']):
        e = {'o': o['o'], 'err': '', 'bs': o['bs'],
             'scorers': o.get('scorers', []), 'arg_m': o.get('arg_m', ''),
             'arg_t': o.get('arg_t', 't')}
        try:
            if o['o'] == 'set':
                setp(o['P'])
                e['P'] = o['P']
            elif o['o'] == 'evaluate':
                kw = {}
                if o['arg_o']:
                    kw['out_name'] = 'Input.outputs.default'
                elif not sc['outset']:
                    kw['out_name'] = P
                if NM[o['arg_t']] != 'targets':
                    kw['targets_name'] = NM[o['arg_t']]
                if o['arg_m']:
                    kw['mask_name'] = NM[o['arg_m']]
                e['res'] = [res(tools.evaluate(net, iterator(o), mk(o),
                                               **kw))]
            elif o['o'] == 'monitor':
                tr = Trainer(ForwardStepper(), verbose=False)
                tr.add_hook(MonitorScores('valid', mk(o), name='mon',
                                          timescale=o['ts']))
                e['res'] = []
                if o['via'] == 'evaluate':
                    rs = tr.evaluate(net, valid=iterator(o))
                    e['res'] = [res({k: v[-1] for k, v in
                                     rs['mon'].items()})]
                else:
                    tr.train_scorers = mk(o)
                    tr.add_hook(MonitorLoss('valid', name='los'))
                    tr.add_hook(StopAfterEpoch(2))
                    tr.train(net, iterator(o), valid=iterator(o))
                    for key in ('mon', 'rolling_training'):
                        lg = tr.logs[key]
                        n = len(lg['total_loss'])
                        for j in range(n):
                            e['res'].append(res({k: v[j] for k, v in
                                                 lg.items()}))
                    for j in range(3):
                        e['res'].append(dict(res(
                            {k: v[j] for k, v in tr.logs['los'].items()}),
                            **{q['n']: res({q['n']: tr.logs['mon'][q['n']][
                                0]})[q['n']] for q in o['scorers']}))
            else:
                d = dict(data)
                if o['notargets'] and o['names'] == ['proj']:
                    del d[sc['tname']]
                nm = [names[n] for n in o['names']]
                arg = nm[0] if o['string'] else nm
                e['names'] = o['names']
                if o.get('sizes'):
                    e['bs'] = 0
                if o['save']:
                    fn = os.path.join(os.environ['VERIF_SCRATCH'],
                                      'x%d.h5' % i)
                    tools.extract_and_save(net, iterator(o, d), arg, fn)
                    with h5py.File(fn, 'r') as f:
                        r = {n: f[names[n]][:] for n in o['names']}
                        extra = set(f.keys()) - set(nm)
                    os.unlink(fn)
                    if extra:
                        r['extra'] = np.zeros((1, 1, 1))
                else:
                    r = tools.extract(net, iterator(o, d), arg)
                    inv = {v: k for k, v in names.items()}
                    r = {inv.get(k, k): v for k, v in r.items()}
                e['res'] = {k: enc.fxs(v) for k, v in r.items()}
        except Exception as ex:
            e['err'] = repr(ex)[:200]
            e['res'] = []
        W = net.get('proj.parameters.W')
        b = net.get('proj.parameters.bias')
        e['after'] = {'W': enc.arr(W), 'b': enc.arr(b)}
        if sc['depth'] and (net.get('ident.parameters.W') !=
                            np.eye(W.shape[1])).any():
            e['after']['W'] = [[999999]]
        e['data'] = all((data[k] == keep[k]).all() for k in keep)
        out['ev'].append(e)
    return out
