"""C16: saving, loading, describing and re-creating lose nothing."""
from drivers import netlib as nl
TRACE_SPEC = 'PersistTrace'
CFG1 = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
        'INVARIANTS IsPlain Lossless Stable FreshStable Kept Emit\n')
CFG2 = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = %d\n'
        'PROPERTIES FilesStay NetsStay LoadedIsSaved\n'
        'INVARIANTS Twins Emit\n')
TYPES = ['FullyConnected', 'FullyConnected', 'Recurrent', 'Lstm', 'Clockwork',
         'ClockworkLstm', 'NoOp', 'Elementwise', 'DeltasScaling',
         'BatchNorm', 'Highway', 'Merge', 'SquaredDifference', 'Mask']


def scenarios(ctx):
    rnd = ctx.rnd
    rs = ctx.models([('DescribeMC', CFG1, {}),
                     ('PersistMC', CFG2 % ctx.pick(4, 5), {})])
    objs = sorted(rs[0].lines, key=str)
    hists = sorted(rs[1].lines, key=str)
    rnd.shuffle(objs)
    rnd.shuffle(hists)
    out = []
    for o in objs[:ctx.pick(250, 4320)]:
        out.append({'kind': 'obj', 'C': o['C'], 'x': o['x'],
                    'set': rnd.random() < .5, 'seed': rnd.randint(0, 99)})
    for i in range(ctx.pick(100, 1000)):
        out.append(rand_obj(rnd))
    for i, h in enumerate(hists[:ctx.pick(120, 2000)]):
        out.append(model_net(rnd, i, h))
    for i in range(ctx.pick(120, 2000)):
        out.append(rand_net(rnd, i))
    for i in range(ctx.pick(16, 120)):
        for k in LIB:
            out.append({'kind': 'lib', 'cls': k, 'args': LIB[k](rnd),
                        'seed': rnd.randint(0, 999)})
    for i in range(ctx.pick(80, 600)):
        out.append({'kind': 'lib', 'cls': 'trainer',
                    'args': trainer_args(rnd), 'seed': rnd.randint(0, 999)})
    return out


# ------------------------------------------------------------ objects
def rand_val(rnd, depth, classes):
    r = rnd.random()
    if depth <= 0 or r < .45:
        return {'a': rnd.choice(['i:2', 'i:3', 'i:-5', 'f:0.5', 'f:-2.25',
                                 's:', 's:x', 's:\u00e4 b', 'b:True',
                                 'b:False', 'n:', 'f:1e+300', 's:@type'])}
    if r < .6:
        return {'l': [rand_val(rnd, depth - 1, classes)
                      for _ in range(rnd.randint(0, 3))]}
    if r < .75:
        ks = rnd.sample(['x', 'y', 'z z', 'a', ''], rnd.randint(0, 3))
        return {'d': [{'k': k, 'v': rand_val(rnd, depth - 1, classes)}
                      for k in ks]}
    ks = rnd.sample(['a', 'b', 'c', 'dd', '_e'], rnd.randint(0, 4))
    return {'o': rnd.choice(classes),
            'm': [{'k': k, 'v': rand_val(rnd, depth - 1, classes)}
                  for k in ks]}


def rand_obj(rnd):
    C = {}
    chains = {}
    for i, c in enumerate(['K0', 'K1', 'K2', 'K3']):
        base = rnd.choice([None] + list(chains)) if i else None
        ks = ['a', 'b', 'c', 'dd', '_e']

        def part(p):
            return [{'k': k, 'v': rand_val(rnd, 1, ['K0'])
                     if False else plain(rnd)}
                    for k in ks if rnd.random() < p]
        own = {'und': part(.25), 'def': part(.25)}
        chains[c] = (chains[base] if base else []) + [own]
        C[c] = {'chain': chains[c], 'base': base}
    x = rand_val(rnd, 4, list(C))
    return {'kind': 'obj', 'C': {c: C[c]['chain'] for c in C},
            'bases': {c: C[c]['base'] or '' for c in C}, 'x': x,
            'set': rnd.random() < .4, 'seed': rnd.randint(0, 99)}


def plain(rnd):
    return rnd.choice([{'a': 'n:'}, {'a': 'i:2'}, {'a': 'i:3'},
                       {'a': 's:x'}, {'l': []}, {'l': [{'a': 'i:2'}]},
                       {'d': []}, {'d': [{'k': 'x', 'v': {'a': 'i:3'}}]}])


# ------------------------------------------------------------ networks
MODS = [
    ('none', None, None),
    ('m1', {'default': ['l2', .25]}, {'default': ['clip', -.5, .75]}),
    ('m2', {'default': [['l1', .125], ['clip', -.25, .25]]}, None),
    ('m3', None, {'default': [['norm', 1.0], ['clip', -.75, .75]]}),
    ('m4', 'mask', 'freeze'),
]
INITS = [
    ('r0', True, {'default': ['num', .25]}),
    ('r1', False, {'default': ['Gaussian', .5]}),
    ('r2', False, 'layer'),
    ('r3', True, 'arrays'),
    ('r4', False, {'default': ['DenseSqrtFanIn'],
                   'fallback': ['Gaussian', .1]}),
]


def base_net(rnd, i):
    g = nl.Gen(rnd)
    g.add_input('x', (rnd.randint(1, 3),))
    if i % 6 == 5:
        g.add_input('img', (rnd.randint(1, 3), rnd.randint(1, 3), 1))
        g.hidden(['Convolution2D', 'Pooling2D'])
    g.hidden([TYPES[i % len(TYPES)]])
    for _ in range(rnd.randint(0, 2)):
        g.hidden(TYPES)
    if not any(m['params'] for m in g.nodes):
        g.hidden(['FullyConnected'])
    g.loss(['SquaredError', 'SoftmaxCE', 'SigmoidCE', 'plain', 'L2Decay'])
    if rnd.random() < .3:
        g.loss(['SquaredError', 'L1Decay'])
    return nl.shuffled(rnd, g.net())


def model_net(rnd, i, hist):
    s = {'kind': 'net', 'net': base_net(rnd, i), 'dt': rnd.choice(
        ['f4', 'f8']), 'seed': rnd.randint(0, 99)}
    ops = [{'o': 'new', 'h': 1, 'dt': s['dt']},
           {'o': 'write', 'h': 1, 'k': 7}]
    m = rnd.choice(MODS[1:])[0]
    live = {1}
    for e in hist:
        e = dict(e)
        if e['o'] == 'mods':
            e['m'] = m if e['k'] else 'none'
        if e['o'] == 'out':
            e['s'] = 'x.outputs.y'
        if e['o'] == 'load':
            live.add(e['h'])
        ops.append(e)
    for r in range(2):
        for h in sorted(live):
            ops.append({'o': 'train', 'h': h, 'k': 3 + r})
    s['hist'] = ops
    return s


def rand_net(rnd, i):
    s = {'kind': 'net', 'net': base_net(rnd, i), 'dt': rnd.choice(
        ['f4', 'f8']), 'seed': rnd.randint(0, 99)}
    ops = [{'o': 'new', 'h': 1, 'dt': s['dt']}]
    if rnd.random() < .7:
        r, det, _ = rnd.choice(INITS)
        ops.append({'o': 'init', 'h': 1, 'r': r, 'det': det,
                    'k': rnd.randint(1, 5)})
    else:
        ops.append({'o': 'write', 'h': 1, 'k': 1})
    live, full = {1}, set()
    idet = {1: True}
    for _ in range(rnd.randint(4, 9)):
        h = rnd.choice(sorted(live))
        o = rnd.choice(['train', 'train', 'train', 'write', 'init', 'mods',
                        'out', 'handler', 'save', 'save', 'load', 'load',
                        'desc', 'arch'])
        e = {'o': o, 'h': h, 'k': rnd.randint(0, 3)}
        if o == 'init':
            e['r'], e['det'], _ = rnd.choice(INITS)
        elif o == 'mods':
            e['m'] = rnd.choice(MODS)[0]
        elif o == 'out':
            e['s'] = rnd.choice(['o.outputs.default', 'None', 'abc'])
        elif o == 'handler':
            e['dt'] = rnd.choice(['f4', 'f8', 'debug'])
        elif o == 'save':
            e['k'] = rnd.randint(1, 3)
            e['comment'] = rnd.choice(['', 'some words', u'\u00fc\u00df'])
            full.add(e['k'])
        elif o == 'load':
            if not full:
                continue
            e['k'] = rnd.choice(sorted(full))
            e['h'] = rnd.randint(1, 4)
        elif o in ('desc', 'arch'):
            e['k'] = h
            e['h'] = rnd.randint(1, 4)
            e['det'] = False
        live.add(e['h'])
        ops.append(e)
    for h in sorted(live):
        ops.append({'o': 'train', 'h': h, 'k': 9})
    s['hist'] = ops
    return s


# ------------------------------------------------------------ library
def _q(rnd, *a):
    return rnd.choice(a)


def hookargs(rnd):
    d = {}
    if rnd.random() < .5:
        d['name'] = rnd.choice(['n', 'Zeta', 'a b'])
    if rnd.random() < .5:
        d['timescale'] = rnd.choice(['epoch', 'update'])
    if rnd.random() < .5:
        d['interval'] = rnd.randint(1, 3)
    if rnd.random() < .5:
        d['verbose'] = rnd.choice([True, False, None])
    return d


def quiet(rnd):
    d = hookargs(rnd)
    d.pop('verbose', None)
    return d


LOGN = 'rolling_training.total_loss'


def trainer_args(rnd):
    hs = []
    names = ['q', 'b', 'Z', 'm1', 'm10', 'a']
    rnd.shuffle(names)
    for n in names[:rnd.randint(0, 5)]:
        k = rnd.choice([k for k in LIB if k.startswith('hook:')])
        a = LIB[k](rnd)
        a['kw']['name'] = n
        if k == 'hook:ProgressBar':
            continue
        hs.append([k, a])
    # other trainers may use the same hooks
    share = [rnd.sample(range(len(hs)), rnd.randint(1, len(hs)))
             for _ in range(rnd.randint(1, 3))] \
        if hs and rnd.random() < .4 else []
    return {'kw': {'verbose': rnd.random() < .5}, 'pos': [], 'hooks': hs,
            'share': share,
            'stepper': rnd.choice(['SgdStepper', 'MomentumStepper',
                                   'NesterovStepper']),
            'scorers': rnd.randint(0, 2)}


LIB = {
    'init:Gaussian': lambda r: {'kw': {'std': _q(r, .1, .5), 'mean': _q(
        r, 0., 1.5)}},
    'init:Uniform': lambda r: {'pos': _q(r, [.3], [-.2, .7], [0.1], [])},
    'init:DenseSqrtFanIn': lambda r: {'kw': {'scale': _q(
        r, 'rel', 'tanh', 'sigmoid', 2.0)}},
    'init:DenseSqrtFanInOut': lambda r: {'kw': {'scale': _q(
        r, 'rel', 'tanh', .5)}},
    'init:EchoState': lambda r: {'kw': {'spectral_radius': _q(r, 1.0, .5)}},
    'init:Identity': lambda r: {'kw': {'scale': _q(r, 1., 2.), 'std': _q(
        r, 0.01, .2), 'enforce_square': _q(r, True, False)}},
    'init:LstmOptInit': lambda r: {'kw': {'input_block': _q(r, 0., .5),
                                          'forget_gate': _q(r, 0., 1.)}},
    'init:Orthogonal': lambda r: {'kw': {'scale': _q(r, 1., 3.)}},
    'init:RandomWalk': lambda r: {'kw': {'act_func': _q(r, 'linear', 'rel'),
                                         'scale': _q(r, None, 1.5)}},
    'init:SparseInputs': lambda r: {'sub': _q(r, 'Gaussian', 'Uniform'),
                                    'kw': {'connections': _q(r, 1, 2)}},
    'init:SparseOutputs': lambda r: {'sub': _q(r, 'Gaussian', 'Uniform'),
                                     'kw': {'connections': _q(r, 1, 2)}},
    'init:ArrayInitializer': lambda r: {'array': [[r.randint(-3, 3) / 4.0
                                                   for _ in range(3)]
                                                  for _ in range(3)]},
    'mod:ClipValues': lambda r: {'kw': _q(r, {}, {'low': -.25},
                                          {'low': -.5, 'high': .25})},
    'mod:ConstrainL2Norm': lambda r: {'pos': [_q(r, .5, 1.0)]},
    'mod:MaskValues': lambda r: {'array': [[float(r.randint(0, 1))
                                            for _ in range(3)]
                                           for _ in range(3)]},
    'mod:FreezeValues': lambda r: _q(r, {}, {'array': [
        [r.randint(-3, 3) / 4.0 for _ in range(3)] for _ in range(3)]}),
    'mod:L1Decay': lambda r: {'pos': [_q(r, .5, .25)]},
    'mod:L2Decay': lambda r: {'pos': [_q(r, .5, .25)]},
    'sched:Linear': lambda r: {'pos': [_q(r, .5, 1.), _q(r, .1, 2.),
                                       r.randint(1, 4)]},
    'sched:Exponential': lambda r: {'pos': [_q(r, .5, 1.), _q(r, .5, 1.5)],
                                    'kw': _q(r, {}, {'minimum': .25},
                                             {'maximum': 2.})},
    'sched:MultiStep': lambda r: {'pos': [1., _q(r, [1], [2, 4]), None]},
    'sched:DecreaseAfterEpoch': lambda r: {'pos': [.5, r.randint(1, 3)]},
    'score:Accuracy': lambda r: {'kw': _q(r, {}, {'name': 'acc'}, {
        'out_name': 'a.b', 'targets_name': 't', 'mask_name': 'm'})},
    'score:Hamming': lambda r: {'kw': _q(r, {}, {'threshold': .25,
                                                 'name': 'h'})},
    'score:MeanSquaredError': lambda r: {'kw': _q(r, {}, {'name': 'h'})},
    'step:SgdStepper': lambda r: {'kw': {'learning_rate': _q(r, .1, .5)}},
    'step:MomentumStepper': lambda r: {'kw': {
        'learning_rate': _q(r, .1, .5), 'momentum': _q(r, 0., .5),
        'scale_learning_rate': _q(r, True, False)}},
    'step:NesterovStepper': lambda r: {'kw': {
        'learning_rate': _q(r, .1, .5), 'momentum': _q(r, 0.25, .5),
        'scale_learning_rate': _q(r, True, False)}},
    'step:ForwardStepper': lambda r: {'kw': {'use_training_pass': _q(
        r, True, False)}},
    'handler:NumpyHandler': lambda r: {'dt': _q(r, 'f4', 'f8')},
    'handler:DebugHandler': lambda r: {'dt': _q(r, 'f4', 'f8')},
    'hook:EarlyStopper': lambda r: {'pos': [LOGN], 'kw': dict(hookargs(
        r), patience=r.randint(1, 2), criterion=_q(r, 'min', 'max'))},
    'hook:StopAfterEpoch': lambda r: {'pos': [r.randint(1, 3)],
                                      'kw': hookargs(r)},
    'hook:StopAfterThresholdReached': lambda r: {
        'pos': [LOGN, .5], 'kw': dict(hookargs(r), criterion=_q(
            r, 'min', 'max'))},
    'hook:StopOnNan': lambda r: {'kw': dict(
        hookargs(r), check_parameters=_q(r, True, False),
        check_training_loss=_q(r, True, False))},
    'hook:SaveBestNetwork': lambda r: {'pos': [LOGN], 'kw': dict(
        hookargs(r), criterion=_q(r, 'min', 'max'),
        filename=_q(r, None, 'best.h5'))},
    'hook:SaveNetwork': lambda r: {'pos': ['net.h5'], 'kw': quiet(r)},
    'hook:SaveLogs': lambda r: {'pos': ['logs.h5'], 'kw': quiet(r)},
    'hook:MonitorLayerDeltas': lambda r: {'pos': ['H'], 'kw': hookargs(r)},
    'hook:MonitorLayerGradients': lambda r: {'pos': ['H'],
                                             'kw': hookargs(r)},
    'hook:MonitorLayerInOuts': lambda r: {'pos': ['H'], 'kw': hookargs(r)},
    'hook:MonitorLayerParameters': lambda r: {'pos': ['H'],
                                              'kw': hookargs(r)},
    'hook:MonitorLoss': lambda r: {'pos': ['valid'], 'kw': hookargs(r)},
    'hook:MonitorScores': lambda r: {'pos': ['valid'], 'kw': hookargs(r),
                                     'scorers': r.randint(0, 2)},
    'hook:ModifyStepperAttribute': lambda r: {
        'sched': _q(r, [.5, .1, 2], [1., 2., 3]), 'kw': hookargs(r)},
    'hook:ProgressBar': lambda r: {'kw': {}},
    'trainer': trainer_args,
}


# =========================================================== execution
def enc(v):
    import numpy as np
    from brainstorm.describable import Describable
    if isinstance(v, bool):
        return {'a': 'b:%s' % v}
    if v is None:
        return {'a': 'n:'}
    if isinstance(v, int):
        return {'a': 'i:%d' % v}
    if type(v) is float:
        return {'a': 'f:%r' % v}
    if isinstance(v, str):
        return {'a': 's:' + v}
    if type(v) in (list, tuple):
        return {'l': [enc(x) for x in v]}
    if isinstance(v, dict):
        return {'d': [{'k': k if isinstance(k, str) else repr(k),
                       'v': enc(x)} for k, x in v.items()]}
    if isinstance(v, Describable):
        return {'o': type(v).__name__, 'm': [
            {'k': k, 'v': enc(x)} for k, x in v.__dict__.items()]}
    if isinstance(v, np.ndarray):
        return {'other': 'array'}
    return {'other': type(v).__name__}


def dec(v, K):
    if 'a' in v:
        t, x = v['a'][0], v['a'][2:]
        return {'i': lambda: int(x), 'f': lambda: float(x), 's': lambda: x,
                'b': lambda: x == 'True', 'n': lambda: None}[t]()
    if 'l' in v:
        return [dec(x, K) for x in v['l']]
    if 'd' in v:
        return {p['k']: dec(p['v'], K) for p in v['d']}
    o = K[v['o']].__new__(K[v['o']])
    for p in v['m']:
        o.__dict__[p['k']] = dec(p['v'], K)
    return o


def spoil(v, seen=None):
    """Alter everything mutable inside an object."""
    from brainstorm.describable import Describable
    if isinstance(v, list):
        for x in v:
            spoil(x)
        v.append('spoiled')
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v['spoiled'] = 1
    elif isinstance(v, Describable):
        for x in v.__dict__.values():
            spoil(x)
        v.__dict__['spoiled'] = 1


def execute(sc):
    return {'obj': run_obj, 'lib': run_lib, 'net': run_net}[sc['kind']](sc)


UNIQ = [0]


def run_obj(sc):
    import json
    from brainstorm.describable import (Describable, get_description,
                                        create_from_description)
    K = {}
    names = {}
    # classes are found by their names: never use a name twice
    UNIQ[0] += 1
    pre = 'Vx%d_' % UNIQ[0]
    for c in sorted(sc['C'], key=lambda c: len(sc['C'][c])):
        chain = sc['C'][c]
        base = (sc.get('bases') or {'D': 'B', 'B': ''})[c]
        own = chain[-1]
        und = {p['k']: dec(p['v'], K) for p in own['und']}
        if sc['set'] and und and all(v is None for v in und.values()):
            und = set(und)
        K[c] = type(str(pre + c), (K[base] if base else Describable,), {
            '__undescribed__': und,
            '__default_values__': {p['k']: dec(p['v'], K)
                                   for p in own['def']}})
        names[pre + c] = c
    x = dec(sc['x'], K)

    def back(e):     # class names of the scenario
        if 'o' in e:
            return {'o': names.get(e['o'], e['o']), 'm': [
                {'k': p['k'], 'v': back(p['v'])} for p in e['m']]}
        if 'd' in e:
            return {'d': [{'k': p['k'], 'v': back(
                {'a': 's:' + names.get(p['v']['a'][2:], p['v']['a'][2:])}
                if p['k'] == '@type' and 'a' in p['v'] else p['v'])}
                for p in e['d']]}
        if 'l' in e:
            return {'l': [back(v) for v in e['l']]}
        return e
    t = {'kind': 'obj', 'C': sc['C'], 'x': sc['x'], 'err': '', 'json': True}
    none = {'a': 'n:'}
    t.update(d=none, d2=none, d3=none, y=none, y2=none)
    try:
        d = get_description(x)
        t['d'] = back(enc(d))
        js = json.dumps(d)
        t['json'] = json.loads(js) == d
        y = create_from_description(json.loads(js))
        t['y'] = back(enc(y))
        t['d2'] = back(enc(get_description(y)))
        # none of these objects may influence another
        spoil(y)
        spoil(x)
        t['d3'] = back(enc(d))
        y2 = create_from_description(json.loads(js))
        t['y2'] = back(enc(y2))
    except Exception as e:
        t['err'] = repr(e)
    return t


# ---------------------------------------------------------------- library
def make(cls, a, seed):
    import numpy as np
    import brainstorm as bs
    import brainstorm.initializers as I
    import brainstorm.value_modifiers as V
    import brainstorm.training.schedules as S
    import brainstorm.training.steppers as St
    import brainstorm.scorers as Sc
    import brainstorm.hooks as H
    from brainstorm.handlers import NumpyHandler
    from brainstorm.handlers.debug_handler import DebugHandler
    pos, kw = list(a.get('pos', [])), dict(a.get('kw', {}))
    if cls == 'trainer':
        st = getattr(St, a['stepper'])(learning_rate=.25)
        tr = bs.training.Trainer(st, **kw)
        for k, ha in a['hooks']:
            tr.add_hook(make(k, ha, seed))
        for idx in a['share']:
            other = bs.training.Trainer(St.SgdStepper(.5), verbose=False)
            for i in idx:
                other.add_hook(list(tr.hooks.values())[i])
        tr.train_scorers = [Sc.MeanSquaredError(
            out_name='Output.outputs.predictions', name='s%d' % i)
            for i in range(a['scorers'])]
        return tr
    fam, name = cls.split(':')
    if fam == 'handler':
        h = NumpyHandler(np.float32 if a['dt'] == 'f4' else np.float64)
        return h if name == 'NumpyHandler' else DebugHandler(h)
    if 'array' in a:
        pos = [np.array(a['array'])]
    if 'sub' in a:
        pos = [getattr(I, a['sub'])()]
    if 'sched' in a:
        pos = [S.Linear(*a['sched'])]
    if name == 'MultiStep':
        pos[2] = [.5 ** (i + 1) for i in range(len(pos[1]))]
    if name == 'MonitorScores':
        pos.append([Sc.MeanSquaredError(
            out_name='Output.outputs.predictions', name='s%d' % i)
            for i in range(a['scorers'])])
    mod = {'init': I, 'mod': V, 'sched': S, 'step': St, 'score': Sc,
           'hook': H}[fam]
    return getattr(mod, name)(*pos, **kw)


def tiny(dt='f8'):
    import numpy as np
    import brainstorm as bs
    from brainstorm.handlers import NumpyHandler
    i, o = bs.tools.get_in_out_layers('regression', (2,), (1,))
    n = bs.Network.from_layer(
        i >> bs.layers.FullyConnected(3, name='H', activation='tanh') >> o)
    n.set_handler(NumpyHandler(np.float64))
    n.initialize({'default': .25, 'H': {'W': [[.5, -.25], [.25, .75],
                                              [-.5, .125]]}})
    return n


def data():
    import numpy as np
    x = np.arange(12.).reshape(1, 6, 2) / 8 - .5
    return {'default': x, 'targets': x[..., :1] * 2}


def rep(v):
    import numpy as np
    if isinstance(v, dict):
        return '{%s}' % ','.join('%s:%s' % (k, rep(v[k]))
                                 for k in sorted(v, key=str))
    if isinstance(v, (list, tuple)):
        return '[%s]' % ','.join(map(rep, v))
    if isinstance(v, np.ndarray):
        return rep(v.tolist())
    if isinstance(v, (float, np.floating)):
        return '%.5g' % (v + 0.0)
    return str(v)


def behave(cls, o, a, seed):
    """What the object does, as a list of strings."""
    import contextlib
    import io
    import os
    import random
    import shutil
    import tempfile
    import numpy as np
    import brainstorm as bs
    import brainstorm.hooks as H
    from brainstorm.data_iterators import Minibatches
    fam = cls.split(':')[0]
    out = []

    def attempt(f):
        try:
            out.append(rep(f()))
        except Exception as e:
            out.append(type(e).__name__)
    if fam == 'init':
        for sh in ((3, 3), (2, 5), (4,), (2, 2, 3), (12,)):
            o.rnd.set_seed(seed)
            attempt(lambda: o(sh))
    elif fam == 'mod':
        from brainstorm.handlers import NumpyHandler
        h = NumpyHandler(np.float64)
        rnd = random.Random(seed)
        for _ in range(2):
            v = np.array([[rnd.randint(-8, 8) / 4. for _ in range(3)]
                          for _ in range(3)])
            p = v.T.copy()
            args = (h, p, v) if 'Decay' in cls else (h, v)
            attempt(lambda: o(*args))
            out.append(rep(v))
    elif fam == 'sched':
        for e in range(6):
            for ts, iv in (('epoch', 1), ('update', 1), ('update', 2)):
                attempt(lambda: o(e, 2 * e, ts, iv, None, None, None))
    elif fam == 'score':
        t = np.array([[0.], [1.], [1.]])
        for p in (np.array([[.1], [.8], [.3]]),
                  np.array([[.1, .9], [.2, .8], [.7, .3]])):
            attempt(lambda: o(t, p))
            attempt(lambda: o(t, p, np.array([[1.], [0.], [1.]])))
        out += [o.__name__, o.out_name, o.targets_name, o.mask_name]
    elif fam == 'step':
        n = tiny()
        n.provide_external_data(data())
        o.start(n)
        for _ in range(3):
            attempt(lambda: o.run())
            out.append(rep(n.get('parameters')))
    elif fam == 'handler':
        z = o.zeros((2, 2))
        out.append(str(o.get_numpy_copy(z).dtype) + type(o).__name__)
        o.add_st(.1, z, z)
        out.append(repr(o.get_numpy_copy(z).tolist()))
    elif fam in ('hook', 'trainer'):
        d = tempfile.mkdtemp()
        cwd = os.getcwd()
        os.chdir(d)
        try:
            n = tiny()
            if fam == 'hook':
                tr = bs.training.Trainer(
                    bs.training.SgdStepper(.25), verbose=False)
                tr.add_hook(o)
            else:
                tr = o
            tr.hooks['zz_last'] = H.StopAfterEpoch(4, 'zz_last')
            buf = io.StringIO()
            it = Minibatches(3, shuffle=False, **data())
            with contextlib.redirect_stdout(buf):
                attempt(lambda: tr.train(n, it, valid=Minibatches(
                    4, shuffle=False, **data())))
            out.append(rep(tr.logs))
            out.append(rep(n.get('parameters')))
            out.append(rep(list(tr.hooks)))
            out.append(rep(sorted(os.listdir(d))))
            out.append(buf.getvalue())
            out.append('%d %d' % (tr.current_epoch_nr, tr.current_update_nr))
            out.append(rep([h.__name__ for h in tr.hooks.values()]))
            del tr.hooks['zz_last']
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)
    return out


def run_lib(sc):
    import json
    from brainstorm.describable import (get_description,
                                        create_from_description)
    cls, a = sc['cls'], sc['args']
    none = {'a': 'n:'}
    t = {'kind': 'lib', 'cls': cls, 'err': '', 'json': True, 'd': none,
         'd2': none, 'd3': none, 'a1': none, 'a2': none, 'b1': [], 'b2': []}
    o = make(cls, a, sc['seed'])
    try:
        d = get_description(o)
        js = json.dumps(d)
        t['json'] = json.dumps(json.loads(js)) == js
        t['d'] = enc(d)
        if cls == 'trainer' and sc['seed'] % 2:
            js = json.dumps(d, sort_keys=True)
        p = create_from_description(json.loads(js))
        t['d2'] = enc(get_description(p))
        if cls == 'init:ArrayInitializer':   # described as the plain array
            from brainstorm.initializers import ArrayInitializer
            p = ArrayInitializer(p)
        if cls.startswith('hook:'):       # its name is kept by the trainer
            p.__name__ = o.__name__
        kws = dict(a.get('kw', {}))
        keep = [k for k in sorted(kws) if hasattr(o, k)]
        t['a1'] = enc({k: getattr(o, k) for k in keep})
        t['a2'] = enc({k: getattr(p, k, 'missing') for k in keep})
        t['b1'] = behave(cls, o, a, sc['seed'])
        t['b2'] = behave(cls, p, a, sc['seed'])
        d3 = get_description(o)
        if cls.startswith('hook:'):        # given by the trainer
            d3['priority'] = d['priority']
        if cls == 'trainer':        # schedules change attributes of a stepper
            d3['stepper'] = d['stepper']
        if cls == 'hook:ModifyStepperAttribute' or \
                cls.startswith('handler'):
            d3 = d
        t['d3'] = enc(d3)
    except Exception as e:
        t['err'] = repr(e)
    return t


# ---------------------------------------------------------------- networks
def run_net(sc):
    import copy
    import hashlib
    import json
    import os
    import random
    import tempfile
    import numpy as np
    import brainstorm as bs
    import brainstorm.initializers as I
    import brainstorm.value_modifiers as V
    from brainstorm.describable import (get_description,
                                        create_from_description)
    from brainstorm.handlers import NumpyHandler
    from brainstorm.handlers.debug_handler import DebugHandler
    from vlib import enc as E
    d = tempfile.mkdtemp()
    desc = sc['net']
    bn = any(m['type'] == 'BatchNorm' for m in desc['nodes'])
    arch0 = nl.architecture(desc)

    def handler(k):
        h = NumpyHandler(np.float32 if k == 'f4' else np.float64)
        return DebugHandler(h) if k == 'debug' else h

    def views(n):
        return [(l, v, n.buffer[l].parameters[v]) for l in sorted(n.layers)
                if 'parameters' in n.buffer[l] and
                n.buffer[l].parameters is not None
                for v in sorted(n.buffer[l].parameters.keys())]

    def shapes(n):
        return [(l, v, n.handler.get_numpy_copy(x).shape)
                for l, v, x in views(n)]

    def write(n, k):
        for j, (l, v, x) in enumerate(views(n)):
            sh = n.handler.get_numpy_copy(x).shape
            m = int(np.prod(sh))
            if v in ('timing', 'sigma'):
                w = [4 * (1 + ((k + i) % 3)) for i in range(1, m + 1)]
            else:
                w = [1 + ((k * 7 + (j + 1) * 5 + i * 3) % 9) - 4
                     for i in range(1, m + 1)]
            n.handler.set_from_numpy(x, np.array(w).reshape(sh) / 4.)

    def leaf(m):
        return {'l2': V.L2Decay, 'l1': V.L1Decay, 'clip': V.ClipValues,
                'norm': V.ConstrainL2Norm}[m[0]](*m[1:])

    def leaves(m):
        return [leaf(x) for x in m] if isinstance(m[0], list) else leaf(m)

    def mods(n, name):
        _, g, w = [m for m in MODS if m[0] == name][0]
        sh = shapes(n)
        if g == 'mask':
            l, v, s = sh[0]
            mk = np.arange(np.prod(s)).reshape(s) % 2
            g = {l: {v: V.MaskValues(mk.astype(float))}}
        elif g:
            g = {k: leaves(x) for k, x in g.items()}
        if w == 'freeze':
            l, v, s = sh[-1]
            w = {l: {v: V.FreezeValues(np.full(s, .5))}}
        elif w:
            w = {k: leaves(x) for k, x in w.items()}
        n.set_gradient_modifiers(g or {})
        n.set_weight_modifiers(w or {})

    def inits(n, r):
        def one(x):
            if x[0] == 'num':
                return x[1]
            return getattr(I, x[0])(*x[1:])
        spec = [q for q in INITS if q[0] == r][0][2]
        if spec == 'arrays':
            out = {}
            for j, (l, v, s) in enumerate(shapes(n)):
                a = (np.arange(np.prod(s)).reshape(s) % 5 + j) / 8. + .25
                out.setdefault(l, {})[v] = a if j % 2 else a.tolist()
            return out
        if spec == 'layer':
            l, v, _ = shapes(n)[-1]
            return {'default': I.Uniform(-.5, .5),
                    l[:1] + '*': {'default': I.Gaussian(.25), v: .5}
                    if all(v in n.layers[m].parameter_shapes
                           for m in n.layers if m[0] == l[0]) else .25}
        return {k: one(x) for k, x in spec.items()}

    def timing(n):     # clocks have to be whole numbers
        for l, v, x in views(n):
            if v == 'timing':
                sh = n.handler.get_numpy_copy(x).shape
                n.handler.set_from_numpy(x, np.arange(
                    np.prod(sh)).reshape(sh) % 2 + 1.)
            if v == 'sigma':
                n.handler.set_from_numpy(x, np.ones(
                    n.handler.get_numpy_copy(x).shape))

    def batch(k):
        rnd = random.Random(k)
        raw = nl.random_data(rnd, {'inputs': desc['inputs'],
                                   'kinds': desc['kinds']}, 2, 2)
        return {n: np.array(v).reshape((2, 2) + tuple(
            desc['inputs'][n])) / float(1 << 20) for n, v in raw.items()}

    def train(n, k):
        n.provide_external_data(batch(k))
        n.forward_pass(training_pass=True)
        n.backward_pass()
        h = n.handler
        h.mult_add_st(-.125, n.buffer.gradients, n.buffer.parameters)
        n.apply_weight_modifiers()

    def ph(n):
        return hashlib.md5(n.get('parameters').tobytes()).hexdigest()

    def observe(h, n, wk):
        h_ = n.handler
        named = [(v, h_.get_numpy_copy(x)) for l, v, x in views(n)]
        flatp = n.get('parameters')
        o = {'h': h, 'wk': wk, 'w': [
            {'pos': v in ('timing', 'sigma'), 'v': [
                E.num(y, 4) for y in x.ravel()]} for v, x in named],
            'alias': sorted(flatp.ravel().tolist()) == sorted(
                y for _, x in named for y in x.ravel().tolist()) or
            not np.all(np.isfinite(flatp)),
            'p': [E.fx(y) for _, x in named for y in x.ravel()]}
        n.provide_external_data(batch(100))
        n.forward_pass()
        f = []
        for l in sorted(n.layers):
            for v in sorted(n.buffer[l].outputs.keys()):
                f += h_.get_numpy_copy(n.buffer[l].outputs[v]).ravel(
                ).tolist()[:12]
        f += [float(x) for _, x in sorted(n.get_loss_values().items())]
        o['f'] = [E.fx(y) for y in f]
        o['g'] = []
        if not bn:
            n.backward_pass()
            o['g'] = [E.fx(y) for y in n.get('gradients').ravel()[:80]]
        dd = get_description(n)
        dd.pop('architecture')
        o['d'] = hashlib.md5(json.dumps(dd, sort_keys=True).encode()
                             ).hexdigest()[:12]
        o['out'] = str(n.output_name)
        return o

    nets, wks = {}, {}
    ev = []
    for op in sc['hist']:
        o = dict(op)
        o.update(err='', ph='')
        h, k = op['h'], op.get('k', 0)
        try:
            if op['o'] == 'new':
                nets[h] = bs.Network.from_architecture(copy.deepcopy(arch0))
                nets[h].set_handler(handler(op['dt']))
                write(nets[h], 50)
            elif op['o'] == 'write':
                write(nets[h], k)
                wks[h] = k
            elif op['o'] == 'init':
                nets[h].initialize(inits(nets[h], op['r']), seed=k)
                timing(nets[h])
            elif op['o'] == 'mods':
                mods(nets[h], op['m'])
            elif op['o'] == 'out':
                nets[h].output_name = op['s']
            elif op['o'] == 'handler':
                nets[h].set_handler(handler(op['dt']))
            elif op['o'] == 'train':
                train(nets[h], k)
            elif op['o'] == 'save':
                o['ph'] = ph(nets[h])
                nets[h].save_as_hdf5(os.path.join(d, 'f%d.h5' % k),
                                     comment=op.get('comment', ''))
                wks['f%d' % k] = wks.get(h, 0)
            elif op['o'] == 'load':
                nets[h] = bs.Network.from_hdf5(os.path.join(
                    d, 'f%d.h5' % k))
                o['ph'] = ph(nets[h])
                wks[h] = wks['f%d' % k]
            elif op['o'] == 'desc':
                js = json.dumps(get_description(nets[k]))
                nets[h] = create_from_description(json.loads(js))
                write(nets[h], 50)
                wks[h] = 0
            elif op['o'] == 'arch':
                nets[h] = bs.Network.from_architecture(
                    json.loads(json.dumps(nets[k].architecture)))
                o['dt'] = 'f4'
                write(nets[h], 50)
        except Exception as e:
            import traceback
            o['err'] = repr(e) + traceback.format_exc()[-300:]
            o['obs'] = []
            ev.append(o)
            break
        o['obs'] = [observe(g, nets[g], wks.get(g, 0))
                    for g in sorted(nets)]
        ev.append(o)
    import shutil
    shutil.rmtree(d)
    for e in ev:
        e.setdefault('k', 0)
        e.setdefault('det', False)
        e.pop('comment', None)
    return {'kind': 'net', 'ev': ev}
