"""C10: stopping and saving hooks act exactly when documented."""
TRACE_SPEC = 'HooksTrace'
ASSUMPTIONS = ['Logs that a hook reads exist from the first epoch on.',
               'Early stopping is judged on finite values.']
NAN, INF = 100001, 100002
CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
       'CONSTANTS MaxLen = %d Vals = {%s}\n'
       'INVARIANTS SavesFirstBest EarlyInWords EmitState\n'
       'PROPERTIES ThresholdStays\n')


def scenarios(ctx):
    rnd = ctx.rnd
    r = ctx.models([('HooksMC', CFG % (5, '1, 2, 3'), {}),
                    ('HooksMC', CFG % (ctx.pick(7, 10), '1, 2'), {})])
    hs = sorted(r[0].lines) + sorted(r[1].lines)
    out = []
    rnd.shuffle(hs)
    for i, h in enumerate(hs):
        out.append(history(rnd, hook(rnd, ['early', 'thr', 'best'][i % 3]),
                           h, 'model'))
    for i in range(ctx.pick(300, 3000)):
        k = ['early', 'thr', 'best', 'epoch', 'nan', 'sig', 'net',
             'logs'][i % 8]
        h = [rnd.randint(-4, 6) for _ in range(rnd.randint(1, 9))]
        if k == 'nan':
            h = [x if rnd.random() < .85 else rnd.choice([NAN, INF])
                 for x in h]
        out.append(history(rnd, hook(rnd, k), h, 'random'))
    return out


def hook(rnd, k):
    h = {'k': k, 'nested': rnd.random() < .5}
    if k in ('early', 'thr', 'best'):
        h['crit'] = rnd.choice(['min', 'max'])
    if k == 'early':
        h['patience'] = rnd.randint(1, 4)
    if k == 'thr':
        h['thr'] = rnd.randint(-4, 6)
    if k == 'epoch':
        h['max'] = rnd.randint(0, 5)
    if k == 'nan':
        h.update(logs=rnd.random() < .6, params=rnd.random() < .6,
                 loss=rnd.random() < .6, single=rnd.random() < .5)
    if k == 'best':
        h['file'] = rnd.random() < .3
    h['ts'] = rnd.choice(['epoch', 'update'])
    return h


def history(rnd, hook, h, kind):
    """calls at epoch 0, 1, ..; one value per epoch (the first may be logged
    before training)"""
    ops = [{'o': 'start'}, {'o': 'par', 'v': 1}]
    ep, up, pv = 0, 0, 1
    if rnd.random() < .3:
        ops.append({'o': 'call', 'ep': 0, 'up': 0})
    for v in h:
        if hook['k'] == 'nan' and rnd.random() < .2:
            pv += 1
            ops.append({'o': 'par', 'v': rnd.choice([NAN, INF, pv, pv])})
        elif rnd.random() < .8:
            pv += 1
            ops.append({'o': 'par', 'v': pv})
        ops.append({'o': 'log', 'v': v})
        if hook['k'] in ('nan', 'logs') and rnd.random() < .7:
            ops.append({'o': 'roll', 'v': rnd.choice([1, 2, 3, 3, 4, NAN])
                        if hook['k'] == 'nan' else rnd.randint(0, 9)})
        if hook['k'] == 'sig' and rnd.random() < .25:
            ops.append({'o': rnd.choice(['sig', 'sig', 'start'])})
        for _ in range(1 if rnd.random() < .8 else 2):
            ops.append({'o': 'call', 'ep': ep, 'up': up})
        if rnd.random() < .2 and hook['k'] in ('best', 'net', 'logs'):
            pv += 1
            ops.append({'o': 'par', 'v': pv})
            ops.append({'o': 'look'})
        ep += 1
        up += rnd.randint(1, 3)
    return {'kind': kind, 'hook': hook, 'ops': ops}


def execute(sc):
    import os
    import signal
    import numpy as np
    import brainstorm as bs
    import brainstorm.layers as L
    from brainstorm import hooks as hk
    from brainstorm.training.steppers import SgdStepper
    h = sc['hook']
    inp = L.Input(out_shapes={'default': ('T', 'B', 1)})
    loss = L.Loss(name='loss')
    inp >> L.FullyConnected(2, activation='linear', name='fc') >> loss
    net = bs.Network.from_layer(loss)
    net.initialize(0.0)
    name = 'mon.a.b' if h['nested'] else 'mon'
    scratch = os.environ['VERIF_SCRATCH']
    fn = os.path.join(scratch, 'saved.h5')
    if os.path.exists(fn):
        os.remove(fn)
    kw = {'timescale': h['ts']}
    k = h['k']
    if k == 'early':
        o = hk.EarlyStopper(name, patience=h['patience'],
                            criterion=h['crit'], **kw)
    elif k == 'thr':
        o = hk.StopAfterThresholdReached(name, h['thr'],
                                         criterion=h['crit'], **kw)
    elif k == 'epoch':
        o = hk.StopAfterEpoch(h['max'], **kw)
    elif k == 'nan':
        lg = () if not h['logs'] else (name if h['single'] else [name])
        o = hk.StopOnNan(lg, check_parameters=h['params'],
                         check_training_loss=h['loss'], **kw)
    elif k == 'sig':
        o = hk.StopOnSigQuit(**kw)
    elif k == 'best':
        o = hk.SaveBestNetwork(name, filename=fn if h['file'] else None,
                               criterion=h['crit'], **kw)
    elif k == 'net':
        o = hk.SaveNetwork(fn, **kw)
    elif k == 'logs':
        o = hk.SaveLogs(fn, **kw)
    logs = {}
    stepper = SgdStepper()
    old = signal.getsignal(signal.SIGQUIT)

    def fl(v):
        return {NAN: float('nan'), INF: float('inf')}.get(v, float(v))

    def setpar(v):
        net.handler.fill(net.buffer.parameters, fl(v))

    def held():
        if k == 'best':
            if h['file']:
                if not os.path.exists(fn):
                    return -1
                p = o.load_best_network().get('parameters')
            else:
                try:
                    p = o.load_best_network()
                except AttributeError:
                    return -1
                if p is None:
                    return -1
        else:
            if not os.path.exists(fn):
                return -1
            p = o.load_network().get('parameters')
        p = np.asarray(p)
        if p.shape != net.get('parameters').shape or not np.all(p == p[0]):
            return -2
        return int(p[0])

    def saved_logs():
        import h5py
        if not os.path.exists(fn):
            return [], []
        with h5py.File(fn, 'r') as f:
            def get(p):
                return [int(x) for x in f[p][()]] if p in f else []
            return get(name.replace('.', '/')), \
                get('rolling_training/total_loss')
    ev = []
    rnd_log = None
    try:
        for op in sc['ops']:
            r = dict(op)
            if op['o'] == 'start':
                o.start(net, stepper, False, {})
            elif op['o'] == 'par':
                setpar(op['v'])
            elif op['o'] == 'log':
                d = logs
                parts = name.split('.')
                for p in parts[:-1]:
                    d = d.setdefault(p, {})
                d.setdefault(parts[-1], []).append(fl(op['v']))
            elif op['o'] == 'roll':
                logs.setdefault('rolling_training', {}).setdefault(
                    'total_loss', []).append(fl(op['v']))
            elif op['o'] == 'sig':
                os.kill(os.getpid(), signal.SIGQUIT)
            elif op['o'] == 'call':
                try:
                    o(epoch_nr=op['ep'], update_nr=op['up'], net=net,
                      stepper=stepper, logs=logs)
                    r['r'] = 'go'
                except StopIteration:
                    r['r'] = 'stop'
                except Exception as e:
                    r['r'] = 'error'
                    r['msg'] = repr(e)[:200]
            if op['o'] in ('call', 'look'):
                if k in ('best', 'net'):
                    r['saved'] = held()
                if k == 'logs':
                    r['e'], r['roll'] = saved_logs()
            ev.append(r)
    finally:
        signal.signal(signal.SIGQUIT, old)
    return {'hook': h, 'ev': ev}
