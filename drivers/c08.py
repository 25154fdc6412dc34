"""C08: optimizers perform exactly the documented parameter updates."""
from drivers import schedlib
TRACE_SPEC = 'OptimizersTrace'
S = 1 << 20
CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT MaxSteps = %d\n'
       'INVARIANTS NoMomentumIsSgd FirstStepScaled NesterovLooksAhead '
       'SgdDescends\n')


def scenarios(ctx):
    rnd = ctx.rnd
    ctx.models([('OptimizersMC', CFG % ctx.pick(8, 14), {})])
    return [one(rnd, i) for i in range(ctx.pick(500, 6000))] + \
        [mode(rnd, i) for i in range(ctx.pick(80, 800))]


def mode(rnd, i):
    """Which passes do the steppers run?  Learning rate 0, one BatchNorm."""
    ni, T = rnd.randint(1, 3), rnd.randint(1, 3)
    nb, B = rnd.randint(1, 3), rnd.randint(1, 3)
    return {'kind': 'mode', '_spec': 'PassModeTrace', 'ni': ni, 'T': T,
            'B': B, 'stepper': ['forward', 'sgd', 'forward', 'momentum',
                                'forward', 'nesterov'][i % 6],
            'flag': ['yes', '', 'no'][i // 2 % 3] if i % 2 == 0 else '',
            'decay': rnd.choice([0, 4, 8, 14, 16]) * S // 16,
            'mu0': grid(rnd, ni), 'epochs': rnd.randint(1, 3),
            'batches': [[grid(rnd, ni) for _ in range(T * B)]
                        for _ in range(nb)],
            'handler': rnd.choice(['f64', 'debug'])}


def grid(rnd, n, sc=16):
    return [rnd.randint(-sc, sc) * S // 16 for _ in range(n)]


def one(rnd, i):
    kind = ['sgd', 'momentum', 'nesterov', 'momentum', 'nesterov',
            'forward'][i % 6]
    ni, no = rnd.randint(1, 3), rnd.randint(1, 2)
    T = rnd.randint(1, 2)
    batches = []
    B = rnd.randint(1, 3)
    nb = rnd.randint(1, 3)
    last = rnd.randint(1, B)
    # batches of an own iterator have any sizes, in both directions
    own = rnd.random() < .3
    for b in range(nb):
        w = B if b < nb - 1 else last
        t = T
        if own:
            w, t = rnd.randint(1, 4), rnd.randint(1, 3)
        n = t * w
        batches.append({'x': [grid(rnd, ni) for _ in range(n)],
                        't': [grid(rnd, no) for _ in range(n)],
                        'b': w, 'len': t})

    def sched(hi):
        if rnd.random() < .4:
            return {'k': 'none'}
        s = schedlib.rand(rnd, rnd.choice([0, 1]), rnd.choice([1, hi]), 16)
        s['ts'] = rnd.choice(['epoch', 'update'])
        s['iv'] = 1 if s['k'] == 'multi' else rnd.randint(1, 3)
        if s['k'] == 'exp':
            s['max'] = min(s['max'], hi * S // 16)
            s['min'] = min(s['min'], s['max'])
        return s
    opt = {'kind': kind, 'scale': rnd.random() < .6,
           'lr0': rnd.randint(rnd.choice([0, 1]), 8) * S // 16,
           'mom0': rnd.choice([0, 2, 8, 12, 15]) * S // 16}
    # arguments left out have their documented defaults
    omit = [a for a in ('lr0', 'mom0', 'scale') if rnd.random() < .15]
    opt.update({a: {'lr0': 104858, 'mom0': 0, 'scale': True}[a]
                for a in omit})
    return {'kind': kind, 'ni': ni, 'no': no, 'batches': batches,
            'own': own, 'between': rnd.choice([0, 0, 0, 7]),
            'par': grid(rnd, ni * no + no), 'opt': opt, 'omit': omit,
            'lrs': sched(6) if kind != 'forward' else {'k': 'none'},
            'moms': sched(15) if kind in ('momentum', 'nesterov')
            else {'k': 'none'},
            'runs': rnd.choice([[2], [3], [1, 2], [2, 1], [1, 1, 1], [4]]),
            'handler': rnd.choice(['f64', 'f64', 'debug'])}


def execute(sc):
    import numpy as np
    import brainstorm as bs
    import brainstorm.layers as L
    from brainstorm.training import Trainer
    from brainstorm.training import steppers as st
    from brainstorm.hooks import Hook, ModifyStepperAttribute
    from brainstorm.handlers import NumpyHandler
    from brainstorm.handlers.debug_handler import DebugHandler
    from brainstorm.data_iterators import DataIterator, Minibatches
    from vlib import enc
    if sc['kind'] == 'mode':
        return execute_mode(sc)
    ni, no = sc['ni'], sc['no']
    inp = L.Input(out_shapes={'default': ('T', 'B', ni),
                              'targets': ('T', 'B', no)})
    fc = L.FullyConnected(no, activation='linear', name='fc')
    se = L.SquaredError(name='se')
    loss = L.Loss(name='loss')
    inp >> fc >> se
    inp - 'targets' >> 'targets' - se - 'loss' >> loss
    net = bs.Network.from_layer(loss)
    h = NumpyHandler(np.float64)
    net.set_handler(DebugHandler(h) if sc['handler'] == 'debug' else h)
    p = np.array(sc['par'], float) / S
    net.initialize({'fc': {'W': p[:ni * no].reshape(no, ni).tolist(),
                           'bias': p[ni * no:].tolist()}})

    def pars():
        return enc.fxflat(net.get('fc.parameters.W')) + \
            enc.fxflat(net.get('fc.parameters.bias'))
    X, Y = [], []
    for b in sc['batches']:
        X.append(np.array(b['x'], float).reshape(b['len'], b['b'], ni) / S)
        Y.append(np.array(b['t'], float).reshape(b['len'], b['b'], no) / S)

    class Own(DataIterator):
        def __init__(self):
            super(Own, self).__init__({'default': ('T', 'B', ni),
                                       'targets': ('T', 'B', no)}, len(X))

        def __call__(self, handler):
            for x, y in zip(X, Y):
                yield {'default': x, 'targets': y}

    if sc['own']:
        it = Own()
    else:
        it = Minibatches(batch_size=sc['batches'][0]['b'], shuffle=False,
                         default=np.concatenate(X, 1),
                         targets=np.concatenate(Y, 1))
    o = sc['opt']
    k = o['kind']
    kw = {'learning_rate': o['lr0'] / float(S)}
    if k != 'sgd':
        kw.update(momentum=o['mom0'] / float(S),
                  scale_learning_rate=o['scale'])
    for a, n in (('lr0', 'learning_rate'), ('mom0', 'momentum'),
                 ('scale', 'scale_learning_rate')):
        if a in sc['omit']:
            kw.pop(n, None)
    if k == 'sgd':
        step = st.SgdStepper(**kw)
    elif k == 'forward':
        step = st.ForwardStepper()
    else:
        step = {'momentum': st.MomentumStepper,
                'nesterov': st.NesterovStepper}[k](**kw)
    ev = []

    class Rec(Hook):
        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            if update_nr == self.seen:
                return
            self.seen = update_nr
            ev.append({'e': 'upd', 'par': pars(), 'ep': epoch_nr,
                       'u': update_nr,
                       'loss': enc.fx(net.get_loss_values()['total_loss'])})

    class Rates(Hook):
        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            ev.append({'e': 'rates',
                       'lr': enc.fx(getattr(stepper, 'learning_rate', 0)),
                       'mom': enc.fx(getattr(stepper, 'momentum', 0))})

    class Stop(Hook):
        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            if epoch_nr >= self.until:
                raise StopIteration

    tr = Trainer(step, verbose=False)
    rec = Rec('rec', 'update', 1, verbose=False)
    rec.seen = 0
    tr.add_hook(rec)
    for attr, s in (('learning_rate', sc['lrs']), ('momentum', sc['moms'])):
        if s['k'] != 'none':
            tr.add_hook(ModifyStepperAttribute(
                schedlib.make(s), attr, timescale=s['ts'], interval=s['iv'],
                name='mod_' + attr))
    stop = Stop('stop', 'epoch', 1, verbose=False)
    tr.add_hook(stop)
    # the rates after everything that happens at the end of an epoch
    tr.add_hook(Rates('rates', 'epoch', 1, verbose=False))
    n = 0
    for r in sc['runs']:
        n += r
        stop.until = n
        k0 = len(ev)
        if k0 and sc['between']:
            # the network is used for something larger in between
            w = sc['between']
            net.provide_external_data({
                'default': np.ones((w, w, ni)),
                'targets': np.ones((w, w, no))})
            net.forward_pass()
        before = pars()
        tr.train(net, it)
        ev.insert(k0, {'e': 'start', 'par': before})
    keys = ('ni', 'no', 'par', 'opt', 'lrs', 'moms')
    out = {q: sc[q] for q in keys}
    out['batches'] = sc['batches']
    out['ev'] = ev
    return out


def execute_mode(sc):
    import numpy as np
    import brainstorm as bs
    import brainstorm.layers as L
    from brainstorm.training import Trainer
    from brainstorm.training import steppers as st
    from brainstorm.hooks import Hook, StopAfterEpoch
    from brainstorm.handlers import NumpyHandler
    from brainstorm.handlers.debug_handler import DebugHandler
    from brainstorm.data_iterators import Minibatches
    from vlib import enc
    ni, T, B = sc['ni'], sc['T'], sc['B']
    inp = L.Input(out_shapes={'default': ('T', 'B', ni),
                              'targets': ('T', 'B', ni)})
    se = L.SquaredError(name='se')
    loss = L.Loss(name='loss')
    inp >> L.BatchNorm(name='bn', decay=sc['decay'] / float(S)) >> se
    inp - 'targets' >> 'targets' - se - 'loss' >> loss
    net = bs.Network.from_layer(loss)
    h = NumpyHandler(np.float64)
    net.set_handler(DebugHandler(h) if sc['handler'] == 'debug' else h)
    net.initialize({'bn': {'mu': [m / float(S) for m in sc['mu0']],
                           'sigma': 1, 'gamma': 1, 'beta': 0}})
    x = np.concatenate([np.array(b, float).reshape(T, B, ni) / S
                        for b in sc['batches']], 1)
    it = Minibatches(batch_size=B, shuffle=False, default=x,
                     targets=np.zeros_like(x))
    k = sc['stepper']
    if k == 'forward':
        s = st.ForwardStepper(**({} if not sc['flag'] else
                                 {'use_training_pass': sc['flag'] == 'yes'}))
    else:
        s = {'sgd': st.SgdStepper, 'momentum': st.MomentumStepper,
             'nesterov': st.NesterovStepper}[k](learning_rate=0.0)
    ev = []

    class Rec(Hook):
        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            if update_nr > len(ev):
                ev.append(enc.fxflat(net.get('bn.parameters.mu')))
    tr = Trainer(s, verbose=False)
    tr.add_hook(Rec('rec', 'update', 1, verbose=False))
    tr.add_hook(StopAfterEpoch(sc['epochs']))
    tr.train(net, it)
    return {'stepper': k, 'flag': sc['flag'], 'decay': sc['decay'],
            'mu0': sc['mu0'], 'batches': sc['batches'], 'ev': ev,
            'done': len(sc['batches']) * sc['epochs']}
