"""C19: handler operations agree with their specification and checks."""
TRACE_SPEC = 'OpsTrace'
CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Big = %s\n'
       'INVARIANTS OnlyOutput AliasFree AddLaw SubLaw DotT MergeSplit '
       'CondLaw SumLaw Emit\n')
IMGCFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Big = %s\n'
          'INVARIANTS Conv MaxP AvgP One\n')
UN = ['copy_to', 'abs_t', 'sign_t', 'sqrt_t', 'log_t', 'softmax_m']
NP = ['get_numpy_copy', 'set_from_numpy', 'create_from_numpy']
TT = ['add_tt', 'subtract_tt', 'mult_tt', 'divide_tt', 'mult_add_tt']
ST = ['add_st', 'mult_st', 'mult_add_st', 'clip_t']
MV = ['add_mv', 'subtract_mv', 'mult_mv', 'divide_mv', 'mult_add_mv']
IF = ['copy_to_if', 'add_into_if', 'fill_if']
ACT = ['act', 'act_func', 'inplace', 'deriv', 'act_func_deriv',
       'inplace_deriv']
REST = ['fill', 'sum_t', 'broadcast_t', 'dot_mm', 'dot_add_mm',
        'binarize_v', 'index_m_by_v', 'merge_tt', 'split_add_tt', 'zeros',
        'ones', 'allocate', 'modulo_tt', 'generate_probability_mask',
        'fill_gaussian']
# operand shapes of the image operations: X inputs, Y outputs, W weights,
# B bias; + what may be a view; the outputs
IMG = {'conv2d_forward_batch': ('XWBy', [4]),
       'conv2d_backward_batch': ('XWxYwb', [3, 5, 6]),
       'maxpool2d_forward_batch': ('XYa', [2, 3]),
       'maxpool2d_backward_batch': ('XYAXY', [4]),
       'avgpool2d_forward_batch': ('XY', [2]),
       'avgpool2d_backward_batch': ('XYXY', [3])}
IMGS = sorted(IMG)
ALL = UN + NP + TT + ST + MV + IF + ACT + REST
WAYS = {'nat': ['float', 'negative', 'string', 'none'],
        'pair': ['list', 'triple', 'single', 'floats', 'negative', 'int',
                 'none'],
        'shape': ['list', 'floats', 'negative', 'int', 'none']}
# operations that commute with scaling and hardly enlarge anything
HUGE = ['copy_to', 'abs_t', 'get_numpy_copy', 'set_from_numpy', 'zeros',
        'create_from_numpy', 'copy_to_if', 'fill_if', 'fill', 'broadcast_t',
        'merge_tt', 'subtract_tt', 'add_tt', 'clip_t', 'mult_st', 'add_st',
        'subtract_mv']
FUN = ['sigmoid', 'tanh', 'rel', 'el']
S = 1 << 20


def scenarios(ctx):
    rnd = ctx.rnd
    r = ctx.models([('OpsMC', CFG % ctx.pick('FALSE', 'TRUE'),
                     {'timeout': 2000}),
                    ('OpsImgMC', IMGCFG % ctx.pick('FALSE', 'TRUE'),
                     {'timeout': 2000})])
    ms = sorted(r[0].lines, key=str)
    rnd.shuffle(ms)
    out = [model_case(rnd, m) for m in ms[:ctx.pick(300, 3000)]]
    for i in range(ctx.pick(900, 9000)):
        out.append(Prog(rnd).run(i))
    for i in range(ctx.pick(1800, 9000)):
        out.append(Prog(rnd).bad(i))
    for i in range(ctx.pick(160, 1600)):
        out.append(Prog(rnd).large(i))
    for i in range(ctx.pick(240, 2400)):
        out.append(Prog(rnd).image(i))
    for i in range(ctx.pick(240, 1200)):
        out.append(Prog(rnd).image(i, True))
    for i in range(ctx.pick(200, 1600)):
        out.append(Prog(rnd, True).huge(i))
    for i in range(ctx.pick(40, 400)):
        out.append({'kind': 'stat', 'what': ['mask', 'gauss'][i % 2],
                    'pm': rnd.choice([0, 100, 250, 500, 900, 1000]),
                    'mean': rnd.randint(-4, 4) / 2., 'std': rnd.choice(
                        [.25, 1., 3.]), 'dt': rnd.choice(['f4', 'f8']),
                    'seed': rnd.randint(0, 10 ** 6)})
    return out


def model_case(rnd, m):
    where = {'[1, 2, 3, 4]': [0, [[0, 2], [0, 2]]],
             '[5, 6, 7, 8]': [1, [[0, 2], [0, 2]]],
             '[9, 10, 11, 12]': [2, [[0, 2], [0, 2]]],
             '[5, 6]': [1, [[0, 1], [0, 2]]],
             '[5, 7]': [1, [[0, 2], [0, 1]]]}
    a = [where[str(x['c'])] for x in m['a']]
    op = {'op': m['op'], 'a': a, 's': [1.0], 'n': [0, 0], 'f': '',
          'outs': [2 if m['op'] in IF else 3], 'bad': ''}
    vals = [x / float(S) for x in m['M']]
    return {'kind': 'prog', 'dt': rnd.choice(['f4', 'f8']), 'bases': [
        {'sh': [2, 2], 'v': vals[4 * i:4 * i + 4]} for i in range(3)],
        'ops': [op]}


class Prog(object):
    def __init__(self, rnd, big=False):
        self.rnd = rnd
        self.big = big
        self.bases = []
        self.ops = []
        self.frozen = set()
        self.top = 3.0

    def value(self):
        if self.big:
            return self.rnd.choice([.25, .5, .75, .75, .75, -.5])
        return self.rnd.randint(-int(4 * self.top), int(4 * self.top)) / 4.

    def base(self, sh, vals=None, frozen=False):
        n = 1
        for d in sh:
            n *= d
        self.bases.append({'sh': list(sh), 'v': [
            (vals or self.value)() for _ in range(n)]})
        if frozen:
            self.frozen.add(len(self.bases) - 1)
        return len(self.bases) - 1

    def view(self, sh, avoid=(), out=False):
        """A register of this shape; its cells not among those of avoid."""
        rnd = self.rnd
        c = []
        for b, x in enumerate(self.bases):
            if len(x['sh']) == len(sh) and all(
                    p >= q for p, q in zip(x['sh'], sh)) and not (
                        out and b in self.frozen):
                c.append(b)
        for _ in range(4):
            if not c or rnd.random() < .3:
                break
            b = rnd.choice(c)
            sl = []
            for p, q in zip(self.bases[b]['sh'], sh):
                o = rnd.randint(0, p - q)
                sl.append([o, o + q])
            if not any(overlap((b, sl), y) for y in avoid):
                return [b, sl]
        big = [d + rnd.choice([0, 0, 1]) for d in sh]
        b = self.base(big)
        sl = []
        for p, q in zip(big, sh):
            o = rnd.randint(0, p - q)
            sl.append([o, o + q])
        return [b, sl]

    def fresh(self, sh, vals):
        return [self.base(sh, vals, True), [[0, d] for d in sh]]

    def shape(self, nd=None):
        nd = nd or self.rnd.choice([1, 2, 2, 2, 3])
        return [self.rnd.randint(1, 3) for _ in range(nd)]

    def scal(self):
        if self.big:
            return self.rnd.choice([0., .5, -.5, .25, 1.])
        return self.rnd.choice([0.0, 1.0, -1.0, .5, -2.0, 2, .25, 3])

    def op(self, name):
        rnd = self.rnd
        o = {'op': name, 's': [], 'n': [0, 0], 'f': '', 'bad': ''}
        v = self.view

        def outof(ins, sh, same=True):
            """an output: of its own or one of the inputs"""
            if same and rnd.random() < .4:
                c = [y for y in ins if y[0] not in self.frozen and not any(
                    y != z and overlap(y, z) for z in ins) and
                    shape_of(y) == sh]
                if c:
                    return rnd.choice(c)
            return v(sh, ins, True)
        if name in UN or name in NP or name in ST:
            sh = self.shape(2 if name == 'softmax_m' else None)
            a = v(sh) if name not in ('log_t', 'sqrt_t') or \
                rnd.random() < .1 else self.fresh(
                    sh, lambda: rnd.randint(1, 20) / 4.)
            o['a'] = [a, outof([a], sh, name not in ('softmax_m',) and
                               name not in NP)]
            o['outs'] = [2]
            o['s'] = [self.scal()]
            if name == 'clip_t':
                o['s'] = sorted([self.value(), self.value()])
        elif name in TT or name == 'modulo_tt':
            sh = self.shape()
            if name == 'modulo_tt':
                a = self.fresh(sh, lambda: rnd.randint(0, 20) / 4.)
                b = self.fresh(sh, lambda: rnd.randint(1, 12) / 4.)
            else:
                a, b = v(sh), v(sh)
                if name == 'divide_tt' and rnd.random() < .8:
                    b = self.fresh(sh, lambda: rnd.choice(
                        [-3, -2, -1, 1, 2, 4, 8]) / 4.)
                if rnd.random() < .15:
                    b = a
            o['a'] = [a, b, outof([a, b], sh, name != 'mult_add_tt')]
            o['outs'] = [3]
        elif name in MV:
            sh = self.shape(2)
            m = v(sh)
            vs = rnd.choice([[sh[0], 1], [1, sh[1]]])
            if name == 'mult_mv' and rnd.random() < .3:
                vs = sh
            if name == 'divide_mv' and rnd.random() < .8:
                w = self.fresh(vs, lambda: rnd.choice([-4, -2, 1, 3]) / 4.)
            else:
                w = v(vs)
            same = name != 'mult_add_mv' and not overlap(m, w) and \
                rnd.random() < .4 and m[0] not in self.frozen
            o['a'] = [m, w, m if same else v(sh, [m, w], True)]
            o['outs'] = [3]
        elif name in ('copy_to_if', 'add_into_if'):
            sh = self.shape()
            a = v(sh)
            c = self.fresh(sh, lambda: rnd.choice([0., 0., 1., -2., .25]))
            o['a'] = [a, v(sh, [a], True), c]
            o['outs'] = [2]
        elif name == 'fill_if':
            sh = self.shape()
            c = self.fresh(sh, lambda: rnd.choice([0., 0., 1., -2., .25]))
            o['a'] = [v(sh, [], True), c]
            o['outs'] = [1]
            o['s'] = [self.scal()]
        elif name in ('generate_probability_mask', 'fill_gaussian'):
            o['a'] = [v(self.shape(), [], True)]
            o['outs'] = [1]
            o['s'] = [rnd.choice([0., 1., .25, .5]), rnd.choice(
                [0., .125, .25])]
        elif name in ('fill', 'zeros', 'ones', 'allocate'):
            o['k'] = ['shape']
            o['a'] = [v(self.shape(), [], True)]
            o['outs'] = [1]
            o['s'] = [self.scal()]
        elif name == 'sum_t':
            sh = self.shape(rnd.choice([1, 2, 2, 2]))
            a = v(sh)
            ax = rnd.choice([-1] + list(range(len(sh))))
            keep = rnd.random() < .5
            if ax < 0:
                osh = [1]
            else:
                osh = sh[:ax] + ([1] if keep else []) + sh[ax + 1:]
            if ax < 0 or not osh:
                # a single number: an array without dimensions
                b = self.base([1])
                o['a'] = [a, [b, 'scalar']]
            else:
                o['a'] = [a, v(osh, [a], True)]
            o['n'] = [ax, 0]
            o['outs'] = [2]
        elif name == 'broadcast_t':
            osh = self.shape()
            ax = rnd.randrange(len(osh))
            sh = osh[:ax] + [1] + osh[ax + 1:]
            a = v(sh)
            o['a'] = [a, v(osh, [a], True)]
            o['n'] = [ax, 0]
            o['outs'] = [2]
        elif name in ('dot_mm', 'dot_add_mm'):
            m, k, n = [rnd.randint(1, 3) for _ in range(3)]
            ta, tb = rnd.randint(0, 1), rnd.randint(0, 1)
            a = v([k, m] if ta else [m, k])
            b = v([n, k] if tb else [k, n])
            o['a'] = [a, b, v([m, n], [a, b], True)]
            o['n'] = [ta, tb]
            o['outs'] = [3]
        elif name == 'binarize_v':
            m, n = self.shape(2)
            a = self.fresh([m, 1], lambda: float(rnd.randrange(n)))
            o['a'] = [a, v([m, n], [a], True)]
            o['outs'] = [2]
        elif name == 'index_m_by_v':
            m, n = self.shape(2)
            a = v([m, n])
            b = self.fresh([m, 1], lambda: float(rnd.randrange(n)))
            o['a'] = [a, b, v([m, 1], [a, b], True)]
            o['outs'] = [3]
        elif name in ('merge_tt', 'split_add_tt'):
            # (operands that are not contiguous views are copied when they
            # are flattened: only whole arrays for the outputs)
            sh = self.shape(rnd.choice([2, 2, 3]))
            la, lb = rnd.randint(1, 3), rnd.randint(1, 3)
            ash, bsh = sh[:-1] + [la], sh[:-1] + [lb]
            osh = sh[:-1] + [la + lb]
            if name == 'merge_tt':
                a, b = v(ash), v(bsh)
                w = [self.base(osh), [[0, d] for d in osh]]
                o['a'] = [a, b, w]
                o['outs'] = [3]
            else:
                x = v(osh)
                w = [[self.base(q), [[0, d] for d in q]]
                     for q in (ash, bsh)]
                o['a'] = [x] + w
                o['outs'] = [2, 3]
        elif name in ACT:
            sh = self.shape()
            tab = 'func' in name or 'inplace' in name
            o['f'] = rnd.choice(FUN + (['linear'] if tab else []))
            if 'deriv' in name:
                y = self.fresh(sh, lambda: rnd.randint(-3, 4) / 4.)
                dy = v(sh, [], True)
                o['a'] = [y, dy, dy if name == 'inplace_deriv' else
                          outof([dy], sh)]
                o['outs'] = [3]
            else:
                x = v(sh, [], name == 'inplace')
                o['a'] = [x, x if name == 'inplace' else outof([x], sh)]
                o['outs'] = [2]
        return o

    def scenario(self):
        return {'kind': 'prog', 'dt': self.rnd.choice(['f4', 'f8', 'f8']),
                'bases': self.bases, 'ops': self.ops}

    def run(self, i):
        self.ops.append(self.op(ALL[i % len(ALL)]))
        for _ in range(self.rnd.randint(0, 5)):
            self.ops.append(self.op(self.rnd.choice(ALL)))
        return self.scenario()

    def huge(self, i):
        """Numbers near the end of the range of the type."""
        self.ops.append(self.op(HUGE[i % len(HUGE)]))
        for _ in range(self.rnd.randint(0, 3)):
            self.ops.append(self.op(self.rnd.choice(HUGE)))
        sc = self.scenario()
        sc['huge'] = True
        return sc

    def image(self, i, bad=False):
        rnd = self.rnd
        self.top = 1.5
        for k in range(1 if bad else rnd.randint(1, 2)):
            o = self.image_op(IMGS[(i + k) % 6])
            self.ops.append(o)
        if bad:
            how = rnd.choice(['type', 'way', 'way', 'way', 'shape'])
            if how == 'type':
                o['bad'] = 'type%d' % rnd.randrange(len(o['a']))
            elif how == 'shape' and 'pool2d_backward' in o['op']:
                k = len(o['a']) - rnd.randint(1, 2)
                sh = shape_of(o['a'][k])
                if rnd.random() < .4:
                    sh = [sh[0]] + sh[1:][::-1]
                else:
                    sh[rnd.randrange(4)] += 1
                o['a'][k] = [self.base(sh), [[0, d] for d in sh]]
            else:
                k = rnd.randrange(len(o['k']))
                o['k'][k] = rnd.choice(WAYS[o['k'][k]])
            o['maybe'] = True
        return self.scenario()

    def image_op(self, name):
        rnd = self.rnd
        pool = 'pool' in name
        n, c = rnd.randint(1, 2), rnd.randint(1, 2)
        h, w = rnd.randint(1, 4), rnd.randint(1, 4)
        p = rnd.choice([0, 0, 1, 2])
        kh = rnd.randint(1, min(3, h + 2 * p))
        kw = rnd.randint(1, min(3, w + 2 * p))
        sy, sx = rnd.randint(1, 3), rnd.randint(1, 2)
        oh = (h + 2 * p - kh) // sy + 1
        ow = (w + 2 * p - kw) // sx + 1
        f = c if pool else rnd.randint(1, 2)
        sh = {'X': [n, h, w, c], 'Y': [n, oh, ow, f], 'W': [f, kh, kw, c],
              'B': [f]}
        sh['A'] = sh['Y']
        a = []
        for x in IMG[name][0]:
            z = sh[x.upper()]
            if x == 'A':
                it = iter([self.winner(sh, [p, sy, sx, kh, kw], q)
                           for q in range(n * oh * ow * f)])
                a.append(self.fresh(z, lambda: float(next(it))))
            elif x.islower() or not pool:   # whole images, some of a batch
                b = self.base([z[0] + (len(z) == 4 and rnd.randint(0, 1))] +
                              z[1:])
                a.append([b, [[0, d] for d in z]])
            else:
                a.append(self.view(z, a))
        return {'op': name, 'a': a, 's': [], 'n': [p, sy, sx, kh, kw],
                'f': '', 'bad': '', 'outs': IMG[name][1],
                'k': ['nat', 'pair'] + ['pair'] * pool}

    def winner(self, sh, g, q):
        """Some pixel under the window of the q-th output (or none)."""
        (n, h, w, c), (_, oh, ow, f) = sh['X'], sh['Y']
        p, sy, sx, kh, kw = g
        ch, x, y = q % f, (q // f) % ow, (q // (f * ow)) % oh
        ins = [(r, s) for r in range(h) for s in range(w)
               if 0 <= r - y * sy + p < kh and 0 <= s - x * sx + p < kw]
        if not ins:
            return -1
        r, s = self.rnd.choice(ins)
        return (r * w + s) * c + ch

    def large(self, i):
        """Large arguments of activation functions."""
        self.top = self.rnd.choice([12., 100., 900., 1000.])
        name = ['act', 'act_func', 'inplace', 'softmax_m'][i % 4]
        self.ops.append(self.op(name))
        if name != 'softmax_m':
            self.ops[0]['f'] = FUN[(i // 4) % 4]
        return self.scenario()

    def bad(self, i):
        rnd = self.rnd
        for _ in range(rnd.randint(0, 1)):
            self.ops.append(self.op(rnd.choice(TT + ST + IF)))
        names = [n for n in ALL if n not in (
            'act_func', 'inplace', 'act_func_deriv', 'inplace_deriv',
            'get_numpy_copy', 'create_from_numpy')]
        name = names[i % len(names)]
        o = self.op(name)
        k = rnd.randrange(len(o['a']))
        sc = [n for n in ('add_st', 'mult_st', 'mult_add_st', 'fill',
                          'fill_if', 'clip_t') if n == name]
        how = rnd.choice(['type', 'shape', 'shape', 'shape', 'ndim'] +
                         ['scalar'] * (2 * len(sc)))
        if name == 'set_from_numpy' and how == 'type':
            k = 1          # the first is a numpy array
        if how == 'type' and o['a'][k][1] != 'scalar':
            o['bad'] = 'type%d' % k
        elif how == 'scalar':
            o['bad'] = 'scalar'
        elif name in ('sum_t', 'broadcast_t'):
            o['n'][0] = rnd.choice([3, 4, -2, -3])
        elif name in ('zeros', 'ones', 'allocate'):
            o['k'] = [rnd.choice(WAYS['shape'])]
        elif name == 'generate_probability_mask' and how != 'ndim':
            o['s'][0] = rnd.choice([-.25, 1.25, 2., -1.])
        elif name == 'fill_gaussian' and how != 'ndim':
            o['s'][1] = rnd.choice([-.25, -1.])
        elif name in ('generate_probability_mask', 'fill_gaussian'):
            o['bad'] = 'type0'
        elif name == 'fill' or (name == 'index_m_by_v' and k == 0):
            o['bad'] = 'type0'
        elif name in ('merge_tt', 'split_add_tt'):
            sh = shape_of(o['a'][k])
            sh[-1] += rnd.choice([1, 2])
            o['a'][k] = [self.base(sh), [[0, d] for d in sh]]
        elif name in MV and k == 1 and how != 'ndim':
            m = shape_of(o['a'][0])
            sh = rnd.choice([[m[0] + 1, 1], [1, m[1] + 1],
                             [m[0] + 1, m[1]]])
            o['a'][k] = [self.base(sh), [[0, d] for d in sh]]
        else:
            sh = shape_of(o['a'][k])
            if how == 'ndim' and name not in ('binarize_v', 'index_m_by_v'):
                sh = [1] + sh
            elif how == 'shape' and len(sh) > 1 and rnd.random() < .4:
                sh = sh[::-1]            # as many elements
            else:
                sh[rnd.randrange(len(sh))] += rnd.choice([1, 2])
            vals = (lambda: 0.0) if name in (
                'binarize_v', 'index_m_by_v') else (lambda: 1.0)
            o['a'][k] = [self.base(sh, vals), [[0, d] for d in sh]]
        o['maybe'] = True        # the specification decides whether it is bad
        self.ops.append(o)
        return self.scenario()


def shape_of(y):
    return [1] if y[1] == 'scalar' else [b - a for a, b in y[1]]


def overlap(x, y):
    if x[0] != y[0]:
        return False
    if x[1] == 'scalar' or y[1] == 'scalar':
        return True
    return all(a < d and c < b for (a, b), (c, d) in zip(x[1], y[1]))


def written(way, x):
    """A number or a tuple of numbers, written in some way."""
    if way in ('nat', 'pair', 'shape'):
        return x
    if way == 'none':
        return None
    if way == 'string':
        return str(x)
    if way == 'float':
        return float(x)
    if way == 'int':
        return x[0]
    if way == 'list':
        return list(x)
    if way == 'triple':
        return x + (1,)
    if way == 'single':
        return x[:1]
    if way == 'floats':
        return tuple(float(y) for y in x)
    assert way == 'negative'
    return -1 if isinstance(x, int) else (-1,) + x[1:]


# ------------------------------------------------------------------ execution
def execute(sc):
    import numpy as np
    from brainstorm.handlers import NumpyHandler
    from brainstorm.handlers.debug_handler import DebugHandler, DebugArray
    from vlib import enc
    dt = np.float32 if sc.get('dt') == 'f4' else np.float64
    if sc['kind'] == 'stat':
        h = NumpyHandler(dt, seed=sc['seed'])
        d = DebugHandler(NumpyHandler(dt, seed=sc['seed']))
        a, b = h.zeros((40, 25)), d.zeros((40, 25))
        t = {'kind': 'stat', 'what': sc['what'], 'pm': sc['pm']}
        if sc['what'] == 'mask':
            h.generate_probability_mask(a, sc['pm'] / 1000.)
            d.generate_probability_mask(b, sc['pm'] / 1000.)
            t.update(n=int((a == 1).sum()), binary=bool(
                np.all((a == 0) | (a == 1))))
        else:
            h.fill_gaussian(sc['mean'], sc['std'], a)
            d.fill_gaussian(sc['mean'], sc['std'], b)
            z = np.abs(a - sc['mean']) / sc['std']
            t.update(below=int((a < sc['mean']).sum()),
                     one=int((z < 1).sum()), two=int((z < 1.99539).sum()))
        t['same'] = bool(np.array_equal(a, d.get_numpy_copy(b)))
        t['M'] = [0]
        t['ev'] = []
        return t
    Z = 1.
    if sc.get('huge'):
        Z = 2. ** (126 if dt is np.float32 else 1022)
    h = NumpyHandler(dt, seed=11)
    d = DebugHandler(NumpyHandler(dt, seed=11))
    mem, dmem, idx = [], [], []
    n = 1
    for b in sc['bases']:
        a = (np.array(b['v'], dtype=dt) * dt(Z)).reshape(b['sh'])
        mem.append(a)
        x = d.allocate(tuple(b['sh']))
        d.set_from_numpy(x, a.copy())
        dmem.append(x)
        idx.append(np.arange(n, n + a.size).reshape(b['sh']))
        n += a.size

    def reg(store, r):
        if r[1] == 'scalar':
            return store[r[0]].reshape(())
        return store[r[0]][tuple(slice(a, b) for a, b in r[1])]

    def cells(r):
        c = reg(idx, r)
        return {'sh': shape_of(r), 'c': [int(x) for x in c.ravel()]}

    def snapshot():
        return [enc.fx(x / Z) for a in mem for x in a.ravel()]

    def dsnap():
        return [x.array.copy() for x in dmem]

    def equal(p, q):
        return all(np.array_equal(a, b) for a, b in zip(p, q))

    def call(hd, store, o, new):
        a = [reg(store, r) for r in o['a']]
        if o['bad'].startswith('type'):
            k = int(o['bad'][4:])
            a[k] = a[k].array if isinstance(a[k], DebugArray) else None
        s, k, f = list(o['s']), o['n'], o['f']
        if Z != 1 and o['op'] != 'mult_st':
            s = [x * Z for x in s]
        if o['bad'] == 'scalar':
            s[0] = '1'
        op = o['op']
        if op in IMG:
            p, st, win = k[0], tuple(k[1:3]), tuple(k[3:])
            st = written(o['k'][1], st)
            p = written(o['k'][0], p)
            if len(o['k']) > 2:
                win = written(o['k'][2], win)
            f = getattr(hd, op)
            if op == 'conv2d_forward_batch':
                f(a[0], a[1], a[2], a[3], p, st)
            elif op == 'conv2d_backward_batch':
                f(a[0], a[1], p, st, *a[2:])
            else:
                f(a[0], win, a[1], p, st, *a[2:])
        elif op == 'generate_probability_mask':
            hd.generate_probability_mask(a[0], s[0])
        elif op == 'fill_gaussian':
            hd.fill_gaussian(s[0], s[1], a[0])
        elif op in ('copy_to', 'abs_t', 'sign_t', 'sqrt_t', 'log_t',
                  'softmax_m') or op in TT or op in MV or \
                op in ('copy_to_if', 'add_into_if', 'modulo_tt',
                       'binarize_v', 'index_m_by_v', 'merge_tt',
                       'split_add_tt'):
            getattr(hd, op)(*a)
        elif op == 'get_numpy_copy':
            x = hd.get_numpy_copy(a[0])
            hd.set_from_numpy(a[1], x)
            x += 7
        elif op == 'set_from_numpy':
            x = a[0].array if isinstance(a[0], DebugArray) else a[0]
            x = x.copy()
            hd.set_from_numpy(a[1], x)
            x += 7
        elif op == 'create_from_numpy':
            x = hd.get_numpy_copy(a[0])
            y = hd.create_from_numpy(x)
            x += 7
            if not isinstance(y, hd.array_type):
                raise TypeError('not an array of the handler')
            hd.copy_to(y, a[1])
            hd.fill(y, 9.)
        elif op in ('zeros', 'ones', 'allocate'):
            y = getattr(hd, op)(written(o['k'][0], tuple(a[0].shape)))
            if not isinstance(y, hd.array_type) or \
                    hd.get_numpy_copy(y).dtype != dt:
                raise TypeError('not an array of the handler')
            if op == 'allocate':
                hd.fill(y, 0.)
            hd.copy_to(y, a[0])
        elif op in ('add_st', 'mult_st', 'mult_add_st'):
            getattr(hd, op)(s[0], a[0], a[1])
        elif op == 'clip_t':
            hd.clip_t(a[0], s[0], s[1], a[1])
        elif op == 'fill':
            hd.fill(a[0], s[0])
        elif op == 'fill_if':
            hd.fill_if(a[0], s[0], a[1])
        elif op == 'sum_t':
            hd.sum_t(a[0], None if k[0] == -1 else k[0] + (k[0] < 0), a[1])
        elif op == 'broadcast_t':
            hd.broadcast_t(a[0], k[0], a[1])
        elif op in ('dot_mm', 'dot_add_mm'):
            getattr(hd, op)(a[0], a[1], a[2], bool(k[0]), bool(k[1]))
        elif op == 'act':
            getattr(hd, f)(a[0], a[1])
        elif op == 'act_func':
            hd.act_func[f](a[0], a[1])
        elif op == 'inplace':
            hd.inplace_act_func[f](a[0])
        elif op == 'deriv':
            getattr(hd, f + '_deriv')(None, a[0], a[1], a[2])
        elif op == 'act_func_deriv':
            hd.act_func_deriv[f](None, a[0], a[1], a[2])
        elif op == 'inplace_deriv':
            hd.inplace_act_func_deriv[f](a[0], a[1])
        else:
            raise ValueError(op)

    ev = []
    first = snapshot()
    for o in sc['ops']:
        e = {'op': o['op'], 'a': [cells(r) for r in o['a']],
             's': [enc.fx(x) for x in o['s']] or [0], 'n': o['n'],
             'k': o.get('k', []), 'f': o['f'], 'outs': o['outs'], 'bad': bool(o['bad']),
             'err': '', 'dbg': 'ok', 'dbgsame': True}
        before = dsnap()
        try:
            call(d, dmem, o, None)
        except Exception as x:
            e['dbg'] = type(x).__name__
        if o.get('maybe') and e['dbg'] != 'ok':
            # rejected: nothing may have changed
            e['dbgsame'] = equal(before, dsnap())
            e['M'] = snapshot()
            ev.append(e)
            break
        try:
            call(h, mem, o, None)
        except Exception as x:
            e['err'] = repr(x)[:200]
        after = dsnap()
        e['dbgsame'] = e['dbg'] != 'ok' or equal(after, mem)
        e['M'] = snapshot()
        ev.append(e)
        top = max(float(np.max(np.abs(a))) for a in mem)
        if not top < (16 if Z == 1 else 2 * Z) or e['err'] or e['dbg'] != 'ok':
            break
    return {'kind': 'prog', 'M': first, 'ev': ev}
