"""C23: shapes follow from the configuration."""
from drivers import shapelib

TRACE_SPEC = 'ShapesTrace'


def cfg(emit):
    return ('INIT MCInit\nNEXT MCNext\nCONSTANTS MaxJoin = 2 Emit = %s\n'
            'INVARIANTS Proper Keeps EmitState\nCHECK_DEADLOCK FALSE\n'
            % ('TRUE' if emit else 'FALSE'))


def scenarios(ctx):
    rnd = ctx.rnd
    out = []
    states = sorted(ctx.model('ShapesMC', cfg(True)).lines, key=str)
    rnd.shuffle(states)
    good = [s for s in states if s['ok']]
    bad = [s for s in states if not s['ok']]
    for s in (good[:ctx.pick(800, 5000)] + bad[:ctx.pick(400, 5000)]):
        out.append(_mk(rnd, shapelib.from_model(rnd, s), 'model'))
    for _ in range(ctx.pick(3000, 20000)):
        defect = rnd.choice([0, 0, 0, .1])
        odd = rnd.choice([0, 0, 0, .2])
        out.append(_mk(rnd, shapelib.network(rnd, defect, odd), 'random'))
    return out


def _mk(rnd, arch, kind):
    order = list(range(len(arch)))
    rnd.shuffle(order)
    tb = [[rnd.randint(1, 4), rnd.randint(1, 4)] for _ in range(2)]
    return {'kind': kind, 'arch': arch, 'order': order, 'tb': tb,
            'debug': rnd.random() < .5}


def execute(sc):
    import numpy as np
    import brainstorm as bs
    from brainstorm.handlers import DebugHandler, NumpyHandler
    tr = {'arch': sc['arch'], 'err': '', 'obs': []}
    try:
        net = bs.Network.from_architecture(
            shapelib.describe(sc['arch'], sc['order']))
    except Exception as e:
        tr['err'] = type(e).__name__
        return tr
    net.initialize(1)     # timing of clockwork layers is positive
    if sc['debug']:
        net.set_handler(DebugHandler(NumpyHandler(np.float64)))
    ins = sc['arch'][0]['shapes']
    timed = [(o, s['f']) for o, s in ins if s['k'] == 2]
    for t, b in sc['tb']:
        if not timed:
            break
        ob = {'t': t, 'b': b, 'layers': [], 'err': ''}
        try:
            net.provide_external_data(
                {o: np.zeros([t, b] + f) for o, f in timed},
                all_inputs=len(timed) == len(ins))
            net.forward_pass(training_pass=True)
            net.backward_pass()
        except Exception as e:
            ob['err'] = '%s: %s' % (type(e).__name__, e)

        def shapes(view):
            return [[k, [int(n) for n in v.shape]] for k, v in view.items()]
        for n in net.layers:
            v = net.buffer[n]
            ob['layers'].append({
                'n': str(n), 'outs': shapes(v.outputs),
                'odelta': shapes(v.output_deltas), 'ins': shapes(v.inputs),
                'idelta': shapes(v.input_deltas),
                'pars': shapes(v.parameters), 'grads': shapes(v.gradients)})
        ob['total'] = int(net.buffer.parameters.size)
        tr['obs'].append(ob)
    return tr
