"""C09: training performs exactly the prescribed sequence of events."""
import math
TRACE_SPEC = 'TrainerTrace'
CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
       'CONSTANTS MaxBatches = %d Emit0 = TRUE\n'
       'INVARIANTS CalledWhenDue CalledOnTime BatchesInOrder '
       'OneUpdatePerBatch ModifiedAfterEach EmitState\n'
       'PROPERTIES Halts Ends\n')


def scenarios(ctx):
    rnd = ctx.rnd
    r = ctx.models([('TrainerMC', CFG % ctx.pick(2, 3), {})])[0]
    cs = sorted(r.lines, key=str)
    rnd.shuffle(cs)
    out = [{'kind': 'model', 'cfg': c, 'verbose': i % 5 == 0}
           for i, c in enumerate(cs[:ctx.pick(500, 5000)])]
    for i in range(ctx.pick(400, 4000)):
        out.append(one(rnd, i))
    return out


def one(rnd, i):
    names = rnd.sample(['zeta', 'alpha', 'Mid', 'b1', 'q', 'Omega', 'c'],
                       rnd.randint(0, 5))
    hooks = []
    for n in names:
        hooks.append({'n': n, 'ts': rnd.choice(['epoch', 'update']),
                      'iv': rnd.randint(1, 5),
                      'at': sorted(rnd.sample(range(1, 12),
                                              rnd.choice([0, 0, 1, 2]))),
                      'from': 0,
                      'ret': rnd.choice(['none', 'num', 'dict', 'zero',
                                         'flag', 'zeros'])})
    lim = {'n': 'limit', 'ts': rnd.choice(['epoch', 'epoch', 'update']),
           'iv': 1, 'at': [], 'from': rnd.randint(2, 7),
           'ret': rnd.choice(['none', 'num', 'zero', 'flag'])}
    hooks.insert(rnd.randint(0, len(hooks)), lim)
    runs = [rnd.choice(['train', 'train', 'train', 'eval', 'bad'])
            for _ in range(rnd.randint(1, 4))]
    if 'train' not in runs:
        runs.append('train')
    return {'kind': 'random', 'verbose': rnd.random() < .2,
            'cfg': {'hooks': hooks, 'runs': runs, 'batches': [
                rnd.randint(1, 4) for _ in range(rnd.randint(1, 6))]}}


def flatten(d, pre=''):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out.update(flatten(v, pre + k + '.'))
        else:
            roll = (pre + k).startswith('rolling_training.')
            out[pre + k] = [int(math.floor(x * 1000 + 1e-6)) if roll
                            else int(x) for x in v]
    return out


def execute(sc):
    import numpy as np
    import brainstorm as bs
    import brainstorm.layers as L
    from brainstorm.training import Trainer
    from brainstorm.training.steppers import TrainingStepper
    from brainstorm.value_modifiers import ValueModifier
    from brainstorm.data_iterators import DataIterator
    from brainstorm.hooks import Hook
    cfg = sc['cfg']
    ev = []
    mode = ['']
    inp = L.Input(out_shapes={'default': ('T', 'B', 1)})
    loss = L.Loss(name='loss')
    inp >> L.FullyConnected(1, activation='linear', name='fc') >> loss
    net = bs.Network.from_layer(loss)
    net.initialize({'fc': {'W': [[1.0]], 'bias': [0.0]}})

    class WM(ValueModifier):
        def __call__(self, handler, view):
            ev.append({'e': 'wm'})
            handler.add_st(1.0, view, view)

    net.set_weight_modifiers({'fc': {'W': WM()}})

    class Stepper(TrainingStepper):
        def start(self, net):
            super(Stepper, self).start(net)
            if mode[0] != 'bad':
                ev.append({'e': 'sstart'})

        def run(self):
            self.net.forward_pass(training_pass=True)
            x = self.net.get_input('default')
            k = int(x[0, 0, 0])
            if not np.all(x == k) or not 1 <= k <= len(cfg['batches']) or \
                    x.shape != (1, cfg['batches'][k - 1], 1):
                k = -1
            ls = self.net.get_loss_values()['total_loss']
            ev.append({'e': 'run', 'b': k, 'w': int(round(ls / k, 0))})

    class Iter(DataIterator):
        def __init__(self, name='default'):
            super(Iter, self).__init__({name: ('T', 'B', 1)},
                                       len(cfg['batches']))
            self.nm = name

        def __call__(self, handler, verbose=False):
            ev.append({'e': 'iter' if handler is net.handler else
                       'iterator called with another handler'})
            for k, n in enumerate(cfg['batches']):
                yield {self.nm: np.full((1, n, 1), k + 1.0)}

    class Stub(Hook):
        def __init__(self, k, spec):
            super(Stub, self).__init__(spec['n'], spec['ts'], spec['iv'],
                                       verbose=None)
            self.k, self.spec, self.c = k, spec, 0

        def start(self, net, stepper, verbose, named_data_iters):
            super(Stub, self).start(net, stepper, verbose, named_data_iters)
            ev.append({'e': 'start', 'h': self.spec['n']})

        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            ev.append({'e': 'call', 'h': self.spec['n'], 'ep': epoch_nr,
                       'up': update_nr})
            self.c += 1
            v = self.k * 100 + self.c
            r = {'none': None, 'num': v,
                 'dict': {'a': v, 'b': {'c': v + 1}}, 'zero': self.c % 2,
                 'flag': self.c % 2 == 1,
                 'zeros': {'a': 0.0, 'b': {'c': v, 'd': 0}}}[
                     self.spec['ret']]
            if self.c in self.spec['at'] or \
                    0 < self.spec['from'] <= self.c:
                raise StopIteration(r) if r is not None else StopIteration
            return r

    tr = Trainer(Stepper(), verbose=sc['verbose'])
    for k, h in enumerate(cfg['hooks']):
        tr.add_hook(Stub(k + 1, h))
        try:
            tr.add_hook(Stub(99, dict(h)))
            ev.append({'e': 'a second hook of the same name was added'})
        except ValueError:
            pass
    for r in cfg['runs']:
        mode[0] = r
        if len(ev) > 5000:
            break
        if r == 'bad':
            try:
                tr.train(net, Iter('other'))
                ev.append({'e': 'accepted'})
            except Exception:
                ev.append({'e': 'refused'})
            continue
        if r == 'train':
            tr.train(net, Iter(), valid=Iter())
        else:
            ret = tr.evaluate(net, valid=Iter())
            if flatten(ret) != flatten(tr.results):
                ev.append({'e': 'evaluate returns something else'})
        ev.append({'e': 'return', 'ep': tr.current_epoch_nr,
                   'up': tr.current_update_nr, 'logs': flatten(tr.logs),
                   'results': flatten(tr.results)})
    return {'cfg': cfg, 'ev': ev}
