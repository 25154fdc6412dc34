"""C17: equal seeds give equal randomness, whatever else happens."""
TRACE_SPEC = 'StreamsTrace'
CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = %d\n'
       'PROPERTIES Isolation ResetIsNew CopiesAgree RestoreRepeats '
       'ExplicitAgree\nINVARIANTS NeverTwice Emit\n')
REQ = ['rand', 'randn', 'ints', 'perm', 'gs', 'choice', 'normal']
INITS = ['Gaussian', 'Uniform', 'DenseSqrtFanIn', 'DenseSqrtFanInOut',
         'EchoState', 'Identity', 'Orthogonal', 'RandomWalk',
         'SparseInputs', 'SparseOutputs', 'LstmOptInit']
ITERS = ['mb', 'mbmask', 'gauss', 'salt', 'flip', 'crop', 'gauss_mb',
         'salt_gauss']
NETS = ['fc', 'rnn', 'drop']
WAYS = ['pickle', 'copy', 'deepcopy', 'pickle0']


def scenarios(ctx):
    rnd = ctx.rnd
    r = ctx.models([('StreamsMC', CFG % ctx.pick(4, 5), {'timeout': 2000})])
    hists = sorted(r[0].lines, key=str)
    rnd.shuffle(hists)
    out = []
    for h in hists[:ctx.pick(600, 6000)]:
        out.append({'kind': 'model', 'g': '1',
                    'hist': [model_op(rnd, e) for e in h]})
    for i in range(ctx.pick(250, 3000)):
        out.append({'kind': 'random', 'g': str(rnd.randint(0, 3)),
                    'hist': random_hist(rnd, i)})
    for i in range(ctx.pick(40, 300)):
        out.append({'kind': 'training', 'g': str(rnd.randint(0, 3)),
                    'hist': train_hist(rnd, i)})
    return out


def model_op(rnd, e):
    e = dict(e)
    if e['o'] == 'use' and e['r'] == 'a':
        e['r'] = 'rand'
    if e['o'] == 'copy':
        e['how'] = rnd.choice(WAYS)
    if e['o'] == 'seed':
        e['how'] = rnd.choice(['set_seed', 'seed'])
    return e


def random_hist(rnd, i):
    """Few seeds and requests, so that machines meet again."""
    ops, live = [], {'g': 'rs'}
    seeds = rnd.sample(['0', '1', '7', '123456789', '999999999'], 2)
    for _ in range(rnd.randint(8, 24)):
        if len(live) < 2 or rnd.random() < .2:
            h = rnd.choice(list('123456'))
            kind = rnd.choice(['rs', 'rs', 'rs', 'np', 'in', 'in', 'it',
                               'it', 'hd', 'net'])
            cfg = {'in': INITS, 'it': ITERS, 'net': NETS}.get(kind, [''])
            cfg = cfg[i % len(cfg)]
            s = rnd.choice(seeds + ['']) if kind in ('rs', 'hd') else \
                rnd.choice(seeds) if kind == 'np' else ''
            ops.append({'o': 'new', 'h': h, 'kind': kind, 'cfg': cfg, 's': s})
            live[h] = kind
            if kind in ('in', 'it', 'net') and rnd.random() < .8:
                ops.append({'o': 'seed', 'h': h, 's': rnd.choice(seeds),
                            'how': 'set_seed'})
            continue
        h = rnd.choice(sorted(live))
        kind = live[h]
        x = rnd.random()
        if x < .1:
            ops.append({'o': 'noise'})
        elif x < .2:
            ops.append({'o': 'seed', 'h': h, 's': rnd.choice(seeds),
                        'how': rnd.choice(['set_seed', 'seed'])})
        elif x < .28 and kind != 'np':
            ops.append({'o': 'reset', 'h': h})
        elif x < .4 and kind == 'rs' and h != 'g':
            to = rnd.choice([t for t in '123456' if t != h])
            live[to] = 'rs'
            ops.append({'o': 'copy', 'h': h, 'to': to,
                        'how': rnd.choice(WAYS)})
        elif x < .48 and kind == 'rs':
            to = rnd.choice([t for t in '123456' if t != h])
            live[to] = 'rs'
            ops.append({'o': 'spawn', 'h': h, 'to': to,
                        's': rnd.choice(['', '', seeds[0]])})
        elif x < .54 and kind == 'rs':
            ops.append({'o': 'save', 'h': h, 'k': rnd.randint(1, 2)})
        elif x < .62 and kind == 'rs':
            ks = [o['k'] for o in ops if o['o'] == 'save']
            if ks:
                ops.append({'o': 'restore', 'h': h, 'k': rnd.choice(ks)})
        elif kind == 'in' and x < .7:
            s = rnd.choice(seeds)
            ops.append({'o': 'seed', 'h': h, 's': s, 'how': 'evaluate'})
        elif kind == 'net' and x < .75:
            ops.append({'o': 'netinit', 'h': h, 's': rnd.choice(seeds),
                        'r': rnd.choice(['g', 'gu', 's'])})
        else:
            ops.append({'o': 'use', 'h': h, 'r': rnd.choice({
                'rs': REQ[:5], 'np': REQ[:4], 'in': ['3', '4'],
                'it': ['pass', 'part', 'pass'],
                'hd': ['gauss', 'mask'],
                'net': ['init', 'wm', 'gm']}[kind])})
    return ops


def train_hist(rnd, i):
    ops = []
    seeds = rnd.sample(['0', '5', '77'], 2)
    cfgs = [NETS[i % 3] + ':' + ITERS[i % 8]]
    if rnd.random() < .5:
        cfgs.append(NETS[(i + 1) % 3] + ':' + ITERS[(i + 3) % 8])
    for _ in range(rnd.randint(4, 7)):
        x = rnd.random()
        if x < .45:
            ops.append({'o': 'train', 'cfg': rnd.choice(cfgs),
                        's': rnd.choice(seeds)})
        elif x < .8:
            ops.append({'o': 'run', 'cfg': rnd.choice(cfgs),
                        's': rnd.choice(seeds)})
        elif x < .9:
            ops.append({'o': 'noise'})
        else:
            ops.append({'o': 'use', 'h': 'g', 'r': 'rand'})
        if rnd.random() < .7:
            ops.append({'o': 'train', 'cfg': 'shuffle',
                        's': rnd.choice(seeds)})
    return ops


# ------------------------------------------------------------------ execution
def digest(*arrs):
    import hashlib
    import numpy as np
    m = hashlib.md5()
    for a in arrs:
        a = np.asarray(a)
        m.update(str(a.shape).encode())
        m.update(np.ascontiguousarray(a).tobytes())
    return m.hexdigest()[:16]


def make_init(cfg):
    import brainstorm.initializers as I
    if cfg.startswith('Sparse'):
        return getattr(I, cfg)(I.Gaussian(), connections=2)
    if cfg == 'LstmOptInit':
        g = I.Gaussian
        return I.LstmOptInit(g(), I.Uniform(.5), g(.2), g(.3))
    if cfg == 'RandomWalk':
        return I.RandomWalk()
    if cfg == 'Uniform':
        return I.Uniform(-.5, .75)
    return getattr(I, cfg)()


def make_iter(cfg):
    import numpy as np
    import brainstorm.data_iterators as D
    x = np.arange(2. * 9 * 2).reshape(2, 9, 2)
    img = np.arange(2. * 4 * 4 * 5).reshape(2, 4, 4, 5, 1)
    t = np.arange(18.).reshape(2, 9, 1)
    d = {'default': x, 'targets': t}
    if cfg == 'mb':
        return D.Minibatches(2, True, **d)
    if cfg == 'mbmask':
        return D.Minibatches(4, True, cut_according_to='mask', mask=np.ones(
            (2, 9, 1)), **d)
    if cfg == 'gauss':
        return D.AddGaussianNoise(D.Undivided(**d), {'default': .5})
    if cfg == 'salt':
        return D.AddSaltNPepper(D.Undivided(**d), {'default': .5})
    if cfg == 'flip':
        return D.Flip(D.Minibatches(1, False, default=img))
    if cfg == 'crop':
        return D.RandomCrop(D.Minibatches(2, True, default=img),
                            {'default': (2, 3)})
    if cfg == 'gauss_mb':
        return D.AddGaussianNoise(D.Minibatches(2, True, **d), {
            'default': .5, 'targets': .25})
    if cfg == 'salt_gauss':
        return D.AddSaltNPepper(D.AddGaussianNoise(D.Undivided(**d), {
            'default': .5}), {'default': .3})


def chain(it):
    out = [it]
    while hasattr(out[-1], 'iter'):
        out.append(out[-1].iter)
    return out


def make_net(cfg, handler=None):
    import numpy as np
    import brainstorm as bs
    from brainstorm.handlers import NumpyHandler
    i, o = bs.tools.get_in_out_layers('regression', (2,), (1,))
    if cfg == 'fc':
        n = i >> bs.layers.FullyConnected(3, name='H') >> o
    elif cfg == 'rnn':
        n = i >> bs.layers.Recurrent(3, name='H') >> o
    else:
        n = (i >> bs.layers.FullyConnected(4, name='H') >>
             bs.layers.Dropout(name='D') >> o)
    n = bs.Network.from_layer(n)
    n.set_handler(handler or NumpyHandler(np.float64))
    return n


def execute(sc):
    import copy
    import pickle
    import random
    import numpy as np
    import brainstorm as bs
    import brainstorm.initializers as I
    import brainstorm.value_modifiers as V
    from brainstorm.handlers import NumpyHandler
    from brainstorm.randomness import RandomState, Seedable, global_rnd

    class RndWeights(V.ValueModifier):
        def __call__(self, handler, view):
            handler.set_from_numpy(view, self.rnd.rand(*view.shape))

    class RndGradients(V.GradientModifier):
        def __call__(self, handler, parameters, gradients):
            handler.set_from_numpy(gradients, self.rnd.rand(
                *gradients.shape))

    objs = {'g': global_rnd}
    kinds = {'g': 'rs'}
    points = {}
    global_rnd.set_seed(int(sc['g']))

    def aside(f):
        """Make something without using up the global stream."""
        q = global_rnd.get_state()
        x = f()
        global_rnd.set_state(q)
        return x

    def rnd_of(h):
        return objs[h] if kinds[h] in ('rs', 'np') else objs[h].rnd

    def draw(r, req):
        if req == 'rand':
            return digest(r.rand(5))
        if req == 'randn':
            return digest(r.randn(5))
        if req == 'ints':
            return digest(r.randint(0, 10 ** 6, size=6))
        if req == 'perm':
            a = list(range(12))
            r.shuffle(a)
            return digest(a)
        return str(r.generate_seed())

    def create(kind, cfg, s):
        if kind == 'np':
            return np.random.RandomState(int(s))
        if kind == 'rs':
            return RandomState(int(s)) if s else RandomState()
        if kind == 'hd':
            return NumpyHandler(np.float64, seed=int(s)) if s else \
                NumpyHandler(np.float64)
        if kind == 'in':
            return make_init(cfg)
        if kind == 'it':
            return make_iter(cfg)
        return make_net(cfg)

    def allviews(n):
        return [n.handler.get_numpy_copy(n.buffer[l].parameters[v])
                for l in sorted(n.layers) for v in sorted(
                    n.layers[l].parameter_shapes)]

    def batches(it, part):
        out = []
        for k, b in enumerate(it(None)):
            out += [b[n] for n in sorted(b)]
            if part and k == 0:
                break
        return out

    def use(h, r):
        o, kind = objs[h], kinds[h]
        if kind in ('rs', 'np'):
            return draw(o, r)
        if kind == 'in':
            return digest(o((int(r), int(r)) if not isinstance(
                o, I.LstmOptInit) else (4 * int(r), 2)))
        if kind == 'it':
            return digest(*batches(o, r == 'part'))
        if kind == 'hd':
            out = o.zeros((4, 5))
            if r == 'gauss':
                o.fill_gaussian(.5, 2., out)
            else:
                o.generate_probability_mask(out, .4)
            return digest(out)
        if r == 'init':
            o.initialize(aside(I.Gaussian))
            return digest(*allviews(o))
        if r == 'wm':
            o.initialize(.25)
            o.set_weight_modifiers({'default': aside(RndWeights)})
            o.apply_weight_modifiers()
            x = digest(*allviews(o))
            o.set_weight_modifiers({})
            return x
        o.initialize(.25)
        o.set_gradient_modifiers({'default': aside(RndGradients)})
        o.provide_external_data({'default': np.ones((1, 2, 2)),
                                 'targets': np.ones((1, 2, 1))})
        o.forward_pass(training_pass=True)
        o.backward_pass()
        x = digest(o.get('gradients'))
        o.set_gradient_modifiers({})
        return x

    def training(cfg, s):
        """s is None: everything from the global seed."""
        if cfg == 'shuffle':
            x = np.arange(60.).reshape(2, 30, 1)
            return digest(*bs.tools.shuffle_data(x, None, -x, seed=s)[::2])
        nc, ic = cfg.split(':')
        hd = NumpyHandler(np.float64) if s is None else \
            NumpyHandler(np.float64, seed=s)
        net = make_net(nc, hd)
        if ic in ('flip', 'crop', 'mbmask'):
            ic = 'mb'
        it = make_iter(ic)
        if s is None:
            net.initialize(I.Gaussian(.25))
        else:
            net.initialize(I.Gaussian(.25), seed=s + 1)
            for j, c in enumerate(chain(it)):
                c.rnd.set_seed(s + 2 + j)
            net.rnd.set_seed(s + 9)
        net.set_weight_modifiers({'H': {'bias': RndWeights()}})
        tr = bs.training.Trainer(bs.training.MomentumStepper(.01, .5),
                                 verbose=False)
        tr.add_hook(bs.hooks.StopAfterEpoch(2))
        tr.train(net, it)
        return digest(net.get('parameters'))

    ev = []

    def finish(o):
        """Seeds of and a look into every living machine."""
        o['seeds'] = [{'h': h, 'v': str(rnd_of(h).get_seed())}
                      for h in sorted(objs) if kinds[h] != 'np']
        o['peek'] = []
        for h in sorted(objs):
            r = rnd_of(h)
            q = np.random.RandomState(0)
            q.set_state(r.get_state())
            o['peek'].append({'h': h, 'x': digest(q.rand(2), q.randn(1))})
        ev.append(o)

    for op in sc['hist']:
        o = dict(op)
        o.update(err='', v='', x='', seeds=[], peek=[])
        h = op.get('h')
        how = o.pop('how', '')
        try:
            if op['o'] == 'new':
                objs[h] = create(op['kind'], op['cfg'], op['s'])
                kinds[h] = op['kind']
                o['v'] = op['s'] if op['kind'] == 'np' else \
                    str(rnd_of(h).get_seed())
                if op['kind'] == 'np':
                    o['kind'] = 'rs'
                if op['kind'] == 'it':
                    # all parts of an iterator are part of the machine
                    for c in chain(objs[h])[1:]:
                        c.rnd.set_seed(int(o['v']))
            elif op['o'] == 'spawn':
                objs[op['to']] = objs[h].create_random_state(int(op['s'])) \
                    if op['s'] else objs[h].create_random_state()
                kinds[op['to']] = 'rs'
                o['v'] = str(objs[op['to']].get_seed())
            elif op['o'] == 'seed' and how == 'evaluate':
                x = I.evaluate_initializer(
                    objs[h], (12, 2) if isinstance(
                        objs[h], I.LstmOptInit) else (3, 3),
                    seed=int(op['s']))
                ev.append(o)
                o = {'o': 'use', 'h': h, 'r': '3', 'x': digest(x),
                     'err': '', 'v': ''}
            elif op['o'] == 'seed':
                r = rnd_of(h)
                if kinds[h] == 'it':
                    for c in chain(objs[h]):
                        c.rnd.set_seed(int(op['s']))
                elif how == 'seed' or kinds[h] == 'np':
                    r.seed(int(op['s']))
                else:
                    r.set_seed(int(op['s']))
            elif op['o'] == 'reset':
                if kinds[h] == 'it':
                    for c in chain(objs[h]):
                        c.rnd.reset()
                else:
                    rnd_of(h).reset()
            elif op['o'] == 'copy':
                src = objs[h]
                objs[op['to']] = {
                    'pickle': lambda: pickle.loads(pickle.dumps(src, 2)),
                    'pickle0': lambda: pickle.loads(pickle.dumps(src, 0)),
                    'copy': lambda: copy.copy(src),
                    'deepcopy': lambda: copy.deepcopy(src)}[how]()
                kinds[op['to']] = 'rs'
                if type(objs[op['to']]) is not type(src):
                    raise TypeError('a copy is of another type')
            elif op['o'] == 'save':
                points[op['k']] = objs[h].get_state()
            elif op['o'] == 'restore':
                objs[h].set_state(points[op['k']])
            elif op['o'] == 'use':
                o['x'] = use(h, op['r'])
            elif op['o'] == 'netinit':
                n = objs[h]
                d = aside(lambda: {'g': I.Gaussian(), 'gu': {
                    'default': I.Uniform(.5), 'H': {'W': I.Gaussian(.5)}},
                    's': {'default': .5, 'H': {'W': I.SparseInputs(
                        I.Gaussian(), 2)}}}[op['r']])
                n.initialize(d, seed=int(op['s']))
                x = digest(*allviews(n))
                kind = [e for e in ev if e['o'] == 'new' and
                        e['h'] == h][-1]['cfg']
                ev.append({'o': 'use', 'h': h, 'r': 'init%s:%s' % (
                    op['r'], op['s']), 'x': x, 'err': '', 'v': '',
                    'seeds': [], 'peek': []})
                o = {'o': 'train', 'cfg': 'init%s:%s' % (op['r'], kind),
                     's': op['s'], 'x': x, 'err': '', 'v': ''}
            elif op['o'] == 'noise':
                np.random.seed(3)
                np.random.rand(7)
                random.random()
                RandomState(5).rand(3)
                NumpyHandler(np.float32, seed=4).rnd.rand(2)
                Seedable(seed=5).rnd.shuffle([1, 2, 3])
            elif op['o'] == 'train':
                q = global_rnd.get_state()
                o['x'] = training(op['cfg'], int(op['s']))
                global_rnd.set_state(q)
            elif op['o'] == 'run':
                global_rnd.set_seed(int(op['s']))
                o['x'] = training(op['cfg'], None)
        except Exception as e:
            import traceback
            o['err'] = repr(e) + traceback.format_exc()[-300:]
            o.setdefault('seeds', [])
            o.setdefault('peek', [])
            ev.append(o)
            break
        finish(o)
    return {'g': sc['g'], 'ev': ev}
