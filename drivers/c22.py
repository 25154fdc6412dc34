"""C22: watching training reports the truth and changes nothing."""
TRACE_SPEC = 'WatchTrace'
CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxHooks = %d\n'
       'Batches = 2\nEpochs = 2\nINVARIANTS Undisturbed SameLoss TrueParams '
       'TrueGrads Emit\n')
NETS = ['fc', 'drop', 'bn', 'rnn', 'lstm', 'clock', 'conv', 'mask', 'dropbn']
STEPPERS = ['sgd', 'momentum', 'nesterov']
READS = ['params', 'grads', 'deltas', 'inouts']
OTHERS = ['best', 'savenet', 'savelogs', 'nan', 'info', 'bar', 'early',
          'schedule', 'never']
LAYERS = {'fc': ['H', 'P'], 'drop': ['H', 'D', 'P'], 'bn': ['H', 'N', 'P'],
          'rnn': ['R', 'P'], 'lstm': ['R', 'P'], 'clock': ['R', 'P'],
          'conv': ['C', 'Q', 'P'], 'mask': ['R', 'P', 'M'],
          'dropbn': ['D', 'N', 'P']}


def scenarios(ctx):
    rnd = ctx.rnd
    r = ctx.models([('WatchMC', CFG % ctx.pick(2, 3), {'timeout': 2000})])
    ms = sorted(r[0].lines, key=str)
    rnd.shuffle(ms)
    out = []
    for i, m in enumerate(ms[:ctx.pick(200, 3000)]):
        out.append(scenario(rnd, i, [dict(x) for x in m], 'model'))
    for i in range(ctx.pick(200, 3000)):
        hs = []
        for _ in range(rnd.randint(1, 6)):
            hs.append({'h': rnd.choice(READS + ['loss', 'loss', 'scores'] +
                                       OTHERS),
                       'ts': rnd.choice(['epoch', 'update']),
                       'iv': rnd.randint(1, 3)})
        out.append(scenario(rnd, i, hs, 'random'))
    return out


def scenario(rnd, i, hs, kind):
    net = NETS[i % len(NETS)]
    for h in hs:
        h['layer'] = rnd.choice(LAYERS[net] + ['Out', 'Loss', 'Input'])
        h['verbose'] = rnd.random() < .15
    if kind == 'model':
        nb, eps = 2, 2
    else:
        nb, eps = rnd.randint(1, 4), rnd.randint(1, 3)
    bs = rnd.choice([1, 2, 3])
    n = bs * nb - (rnd.randint(0, bs - 1) if rnd.random() < .5 else 0)
    seq = net not in ('conv',)
    T = rnd.choice([1, 2, 3]) if seq else 1
    same = rnd.random() < .4
    cut = rnd.randint(1, nb * eps) if kind == 'random' and \
        rnd.random() < .4 else 0
    return {'cut': cut, 'quit': rnd.random() < .5,
            'other': rnd.randint(1, 6) if rnd.random() < .4 else 0,
            'kind': kind, 'net': net, 'hooks': hs, 'n': n, 'bs': bs,
            'eps': eps, 'T': T, 'tag': net,
            'stepper': rnd.choice(STEPPERS),
            'shuffle': rnd.random() < .5, 'noise': rnd.random() < .2,
            'vn': bs if same else rnd.choice([1, 2, 3, 5]),
            'vT': T if same or not seq else rnd.choice([1, 2, 4]),
            'vbs': bs if same else rnd.choice([1, 2, 0]),
            'again': rnd.random() < (.8 if cut else .3), 'gap': rnd.random() < .4,
            'order': rnd.random() < .5,
            'dtype': rnd.choice(['f8', 'f8', 'f4']),
            'verbose': rnd.random() < .1,
            'wm': rnd.random() < .2, 'seed': rnd.randint(1, 10 ** 6)}


# ------------------------------------------------------------------ execution
def build(sc):
    import numpy as np
    import brainstorm as bs
    import brainstorm.layers as L
    from brainstorm.handlers import NumpyHandler
    from brainstorm.value_modifiers import ClipValues
    k = sc['net']
    fs = (3, 3, 1) if k == 'conv' else (2,)
    os = {'default': ('T', 'B') + fs, 'targets': ('T', 'B', 1)}
    if k == 'mask':
        os['mask'] = ('T', 'B', 1)
    inp = L.Input(out_shapes=os)
    P = L.FullyConnected(2, activation='linear', name='P')
    H = lambda a='tanh': L.FullyConnected(3, activation=a, name='H')
    D = lambda: L.Dropout(drop_prob=.4, name='D')
    N = lambda: L.BatchNorm(decay=.5, name='N')
    if k == 'fc':
        inp >> H() >> P
    elif k == 'drop':
        inp >> H() >> D() >> P
    elif k == 'bn':
        inp >> H('linear') >> N() >> P
    elif k == 'dropbn':
        inp >> N() >> D() >> P
    elif k in ('rnn', 'mask'):
        inp >> L.Recurrent(2, activation='tanh', name='R') >> P
    elif k == 'lstm':
        inp >> L.Lstm(2, name='R') >> P
    elif k == 'clock':
        inp >> L.Clockwork(2, name='R') >> P
    elif k == 'conv':
        inp >> L.Convolution2D(2, (2, 2), activation='tanh', name='C') >> \
            L.Pooling2D((2, 2), type='max', name='Q') >> P
    out = L.SoftmaxCE(name='Out')
    P >> 'default' - out
    inp - 'targets' >> 'targets' - out
    src = out - 'loss'
    if k == 'mask':
        m = L.Mask(name='M')
        src >> m
        inp - 'mask' >> 'mask' - m
        src = m
    src >> L.Loss(name='Loss')
    net = bs.Network.from_layer(P)
    net.set_handler(NumpyHandler({'f8': np.float64,
                                  'f4': np.float32}[sc['dtype']],
                                 seed=sc['seed']))
    net.output_name = 'Out.outputs.predictions'
    return net


def setpar(net, sc):
    import numpy as np
    r = np.random.RandomState(sc['seed'] % 1000)
    # values are exactly representable in single precision
    p = r.randint(-100, 101, size=net.buffer.parameters.size) / 128.
    net.buffer.parameters[:] = p
    for n in net.layers:
        for v, a in net.buffer[n].parameters.items():
            if v in ('sigma', 'gamma'):
                a[:] = np.abs(a) + .25
            if v == 'timing':
                a[:] = [1, 2]


def data(sc, n, T, salt):
    import numpy as np
    r = np.random.RandomState(sc['seed'] % 997 + salt)
    fs = (3, 3, 1) if sc['net'] == 'conv' else (2,)
    d = {'default': r.randint(-64, 65, size=(T, n) + fs) / 32.,
         'targets': r.randint(0, 2, size=(T, n, 1)).astype(float)}
    if sc['net'] == 'mask':
        d['mask'] = (r.rand(T, n, 1) < .7).astype(float)
    return d


def run(sc, watched):
    import contextlib
    import io
    import os
    import signal
    import numpy as np
    import brainstorm as bs
    from brainstorm import hooks as hk, scorers as S
    from brainstorm.data_iterators import (Minibatches, Undivided,
                                           AddGaussianNoise)
    from brainstorm.hooks import Hook
    from brainstorm.randomness import global_rnd
    from brainstorm.training import schedules as sch
    from brainstorm.training.steppers import (SgdStepper, MomentumStepper,
                                              NesterovStepper)
    from brainstorm.training.trainer import Trainer
    from vlib import enc
    global_rnd.set_seed(sc['seed'])
    net = build(sc)
    net.initialize(0.0)
    setpar(net, sc)
    if sc['wm']:
        from brainstorm.value_modifiers import ClipValues
        net.set_weight_modifiers({'P': ClipValues(-.6, .6)})
    st = {'sgd': lambda: SgdStepper(.25),
          'momentum': lambda: MomentumStepper(.25, .5),
          'nesterov': lambda: NesterovStepper(.25, .5)}[sc['stepper']]()
    tr = Trainer(st, verbose=sc['verbose'] and watched)
    ti = Minibatches(sc['bs'], shuffle=sc['shuffle'],
                     **data(sc, sc['n'], sc['T'], 0))
    if sc['noise']:
        ti = AddGaussianNoise(ti, {'default': .25})
    vd = data(sc, sc['vn'], sc['vT'], 5)
    vi = Undivided(**vd) if sc['vbs'] == 0 else \
        Minibatches(sc['vbs'], shuffle=False, **vd)
    ev = []

    def pars():
        return enc.fxflat(net.buffer.parameters)

    def everything():
        return [np.array(v) for n in net.layers
                for g in net.buffer[n].values() for v in g.values()]

    def same(a, b):
        return len(a) == len(b) and all(
            x.shape == y.shape and np.array_equal(x, y, equal_nan=True)
            for x, y in zip(a, b))

    def view(p, a):
        return {'path': p, 'shape': [int(i) for i in a.shape],
                'w': enc.fxflat(a)}

    def views(h, layer):
        b = net.buffer[layer]
        if h == 'params':
            return [view(k, v) for k, v in b.parameters.items()]
        if h == 'grads':
            return [view(k, v) for k, v in b.gradients.items()]
        if h == 'deltas':
            return [view('output_deltas.' + k, v)
                    for k, v in b.output_deltas.items()] + \
                   [view('input_deltas.' + k, v)
                    for k, v in b.input_deltas.items()]
        return [view('inputs.' + k, v) for k, v in b.inputs.items()] + \
               [view('outputs.' + k, v) for k, v in b.outputs.items()]

    class Probe(Hook):
        def __init__(self, name, ts, iv, f):
            super(Probe, self).__init__(name, ts, iv, verbose=False)
            self.f = f

        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            self.f(logs)

    bare = []

    def upd(logs):
        if tr.current_update_nr > len(bare):
            bare.append(pars())
            ev.append({'k': 'upd', 'par': bare[-1]})
    # the probe may be anywhere: the stepper has run before any hook
    stop = hk.StopAfterEpoch(sc['eps'])

    def interrupt(logs):
        if tr.current_update_nr == sc['cut']:
            if not sc['quit']:
                raise StopIteration
            signal.raise_signal(signal.SIGQUIT)

    def add_stop():
        tr.add_hook(stop)
        if sc['cut']:
            tr.add_hook(Probe('cut', 'update', 1, interrupt))
            if sc['quit']:
                tr.add_hook(hk.StopOnSigQuit(timescale='update'))
    if sc['order']:
        add_stop()
    tr.add_hook(Probe('core', 'update', 1, upd))
    before, asked = {}, []

    def entries(lg, path=''):
        out = []
        for k, v in lg.items():
            if not isinstance(v, dict):
                continue
            p = path + k
            if 'min' in v and not isinstance(v['min'], dict):
                g = lambda x: enc.fx(v[x][-1]) if v.get(x) else 1000000007
                out.append({'path': p, 'st': {'min': g('min'),
                                              'avg': g('avg'),
                                              'max': g('max')},
                            'l2': [g(x) for x in ('min_L2_norm',
                                                  'avg_L2_norm',
                                                  'max_L2_norm')]
                            if 'min_L2_norm' in v else []})
            else:
                out += entries(v, p + '.')
        return out

    def pre(i, h):
        def f(logs):
            if h['h'] in ('loss', 'scores'):
                before[i] = (pars(), np.array(net.buffer.parameters),
                             np.array(net.buffer.gradients))
            else:
                before[i] = (views(h['h'], h['layer'])
                             if h['h'] in READS else [], everything())
        return f

    def post(i, h):
        def f(logs):
            b = before[i]
            if asked:
                logs = tr.results
            if h['h'] in ('loss', 'scores'):
                r = logs.get('w%d' % i, {})
                ev.append({'k': 'eval', 'err': '' if r else 'no log',
                           'data': 'v', 'par': b[0],
                           'scored': h['h'] == 'scores',
                           'same': same(b[1:],
                                        [np.array(net.buffer.parameters),
                                         np.array(net.buffer.gradients)]),
                           'res': sorted([str(k), enc.fx(v[-1])]
                                         for k, v in r.items())})
            else:
                ev.append({'k': 'watch', 'h': h['h'], 'views': b[0],
                           'err': '', 'same': same(b[1], everything()),
                           'log': entries(logs.get('w%d' % i, {}))
                           if h['h'] in READS else []})
        return f
    if watched:
        d = os.environ['VERIF_SCRATCH']

        class Run(object):
            info = {}
        for i, h in enumerate(sc['hooks']):
            kw = {'name': 'w%d' % i, 'timescale': h['ts'],
                  'interval': h['iv'], 'verbose': h['verbose'] or None}
            k = h['h']
            fn = os.path.join(d, 'w%d.h5' % i)
            short = {x: kw[x] for x in ('name', 'timescale', 'interval')}
            o = {'params': lambda: hk.MonitorLayerParameters(h['layer'],
                                                             **kw),
                 'grads': lambda: hk.MonitorLayerGradients(h['layer'], **kw),
                 'deltas': lambda: hk.MonitorLayerDeltas(h['layer'], **kw),
                 'inouts': lambda: hk.MonitorLayerInOuts(h['layer'], **kw),
                 'loss': lambda: hk.MonitorLoss('valid', **kw),
                 'scores': lambda: hk.MonitorScores('valid', [S.Accuracy()],
                                                    **kw),
                 'best': lambda: hk.SaveBestNetwork(
                     'rolling_training.total_loss', criterion='min',
                     filename=fn if h['verbose'] else None, **kw),
                 'savenet': lambda: hk.SaveNetwork(fn, **short),
                 'savelogs': lambda: hk.SaveLogs(fn, **short),
                 'nan': lambda: hk.StopOnNan(**kw),
                 'info': lambda: hk.InfoUpdater(Run(), **short),
                 'bar': lambda: hk.ProgressBar(),
                 'early': lambda: hk.EarlyStopper(
                     'rolling_training.total_loss', patience=1000, **kw),
                 'schedule': lambda: hk.ModifyStepperAttribute(
                     sch.Linear(.25, .25, 10), **kw),
                 'never': lambda: hk.StopAfterThresholdReached(
                     'rolling_training.total_loss', -5., **kw)}[k]()
            if k in ('best', 'early', 'never') and h['ts'] == 'update':
                continue    # reads logs of the end of an epoch
            if o.__name__ in tr.hooks:
                continue
            tr.add_hook(Probe('pre%d' % i, o.timescale, o.interval,
                              pre(i, h)))
            tr.add_hook(o)
            tr.add_hook(Probe('post%d' % i, o.timescale, o.interval,
                              post(i, h)))
    if not sc['order']:
        add_stop()
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            tr.train(net, ti, valid=vi)
            if sc['gap'] and watched:
                asked.append(1)
                tr.evaluate(net, valid=vi, training_data_iter=ti)
                del asked[:]
            if sc['again']:
                stop.max_epochs = tr.current_epoch_nr + 1
                if sc['other']:
                    ti = Minibatches(sc['bs'], shuffle=sc['shuffle'],
                                     **data(sc, sc['other'], sc['T'], 0))
                tr.train(net, ti, valid=vi)
    except Exception as e:
        ev.append({'k': 'fail', 'err': repr(e)[:300]})
        if not watched:
            raise
    finally:
        if sc['cut'] and sc['quit']:
            signal.signal(signal.SIGQUIT, signal.SIG_DFL)
    if watched:
        evs = [e for e in ev if e['k'] == 'eval']
        if evs and ev[-1]['k'] != 'fail':
            # another network with the same parameters
            from brainstorm.tools import evaluate
            q = evs[-1]
            p = np.array(net.buffer.parameters)
            if enc.fxflat(p) == q['par']:
                n2 = build(sc)
                n2.initialize(0.0)
                n2.buffer.parameters[:] = p
                r = evaluate(n2, vi, [S.Accuracy()] if q['scored'] else ())
                ev.append({'k': 'eval', 'err': '', 'data': 'v', 'same': True,
                           'scored': q['scored'], 'par': q['par'],
                           'res': sorted([str(k), enc.fx(v)]
                                         for k, v in r.items())})
    return bare, ev


def execute(sc):
    bare, _ = run(sc, False)
    _, ev = run(sc, True)
    return {'kind': sc['kind'], 'bare': bare, 'ev': ev}
