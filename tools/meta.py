"""Writes properties.jsonl and MANIFEST.json for the properties whose driver
exists (drivers/cXX.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


B = 'brainstorm/'
COMMON = (' Judged: every trace recorded from the real code is accepted or '
          'rejected by TLC against the specification; the inputs are '
          'behaviours printed by TLC from the design model plus seeded '
          'random ones beyond its bounds. Trusted: TLC, CPython/NumPy, the '
          'driver that records the trace.')

prop('C01', 'Wiring layers yields exactly the wired architecture',
     'Whatever sequence of layer creations and wirings a user writes, the '
     'resulting architecture contains exactly the layers connected to the '
     'one asked for and exactly the wired connections between the named '
     'ports. Expressions naming ports are values: they can be written in '
     'any grouping and reused. Layer names are unique, a name that is used by only one layer '
     'is kept as given, and equal names are told apart by numbering that '
     'does not depend on which layer is asked.',
     ['programs', 'histories'],
     'All sequences of layer creations, names and wirings (also merging '
     'already wired groups).',
     'Tests wire a few fixed graphs; the guarantee ranges over all orders '
     'of creation and merging and all name collisions.',
     [B + 'structure/construction.py', B + 'utils.py',
      B + 'structure/architecture.py'],
     [('naming scopes merged when layers are wired',
       'construction.py: ConstructionWrapper, UniquelyNamed'),
      ('architecture generated from the wiring',
       'architecture.py: generate_architecture')],
     'TLA+ wiring state machine (TLC) + trace validation',
     'Exhaustive model of creations/wirings up to 4 layers/4 wires; '
     'sampled behaviours and larger random graphs replayed.')
prop('C02', 'Only well-formed architectures build, in dependency order',
     'Building a network from an architecture description either succeeds, '
     'giving layers in an order in which every layer comes after all layers '
     'it reads from, or is rejected with an error before any network exists. '
     'It is rejected exactly when a layer name or type is invalid, there is '
     'not exactly one Input layer, a connection names a missing layer or '
     'port, a required input is unconnected, wired shapes do not fit, or '
     'the connections form a cycle.',
     ['inputs', 'programs'],
     'All architecture descriptions, in every order of their entries.',
     'Tests feed a handful of good and bad architectures; acceptance and '
     'ordering must be right for all graphs.',
     [B + 'structure/architecture.py', B + 'structure/network.py',
      B + 'layers/base_layer.py'],
     [('validation and canonical ordering',
       'architecture.py: validate_architecture, '
       'get_canonical_layer_order, instantiate_layers_from_architecture')],
     'TLA+ graph specification (TLC) + trace validation',
     'Exhaustive over small digraphs (canonical order = a topological '
     'order, acceptance = acyclic + well-formed); replayed on real code.')
prop('C03', 'Buffer layout: every sink is exactly its sources, nothing else',
     'In every network that builds, what a layer reads at an input is '
     'exactly the concatenation of what the wired layers wrote to the '
     'connected outputs, and no two different outputs, internals or '
     'parameters ever share storage. Errors flow back through the same '
     'positions, the parameter vector holds each parameter exactly once and '
     'the gradient vector is ordered like it, all of this depending only on '
     'the architecture. A network is refused exactly when no such '
     'arrangement exists.',
     ['programs', 'inputs'],
     'All architectures (wirings of sources to sinks), sequence lengths and '
     'batch sizes.',
     'Tests check a few layouts against literal expectations; aliasing '
     'mistakes show only for particular overlapping wirings.',
     [B + 'structure/layout.py', B + 'structure/buffers.py',
      B + 'structure/buffer_structure.py', B + 'structure/buffer_views.py'],
     [('hub creation and source ordering',
       'layout.py: create_layout, Hub, get_forward_closure, '
       'permute_rows'),
      ('views into the buffer', 'buffers.py: create_buffer_views_from_layout')
      ],
     'TLA+ layout search model (TLC) + trace validation',
     'Exhaustive families of sinks over up to 4 sources (5 in thorough): '
     'feasibility is decided by the specification and the real memory is '
     'probed by writing distinct numbers.')
prop('C04', 'Results depend on parameters, data and flags, not on history',
     'Parameters survive feeding data of any sequence length or batch size '
     'and moving the network to another handler. What a forward or backward '
     'pass produces is determined by the parameters, the data provided and '
     'the training flag (and the context when one is given), never by '
     'earlier passes, earlier batches or the order of size changes, and '
     'gradients of one pass do not leak into the next.',
     ['histories', 'inputs'],
     'All histories of providing data of varying sizes, passes, parameter '
     'changes, handler changes and gradient resets.',
     'Tests use one size and one or two passes; stale buffers only show '
     'after particular histories.',
     [B + 'structure/network.py', B + 'structure/buffers.py'],
     [('resizing of the shared buffers',
       'buffers.py: BufferManager.resize, set_handler, clear_*'),
      ('passes', 'network.py: forward_pass, backward_pass, '
       'provide_external_data')],
     'TLA+ state machine of the buffer life cycle (TLC) + trace validation',
     'Histories are generated by TLC and replayed; every observation is '
     'compared with the exact value computed by the specification.')
prop('C05', 'Carrying the context over splits a sequence without a trace',
     'Running a network over a sequence in one piece or in any number of '
     'consecutive pieces, passing the context of one piece to the next, '
     'gives the same outputs at every time step. Without a context every '
     'pass starts from the zero state.',
     ['inputs', 'histories'],
     'All recurrent networks, sequence lengths and ways of cutting them.',
     'Tests exercise the context for one layer and one cut.',
     [B + 'structure/network.py', B + 'structure/buffers.py',
      B + 'layers/recurrent_layer.py', B + 'layers/lstm_layer.py',
      B + 'layers/clockwork_layer.py'],
     [('context extraction and injection',
       'network.py: get_context, apply_context; buffers.py: '
       'get_context, apply_context, clear_context')],
     'TLA+ recurrence model (TLC) + trace validation',
     'All compositions of the sequence length into pieces; pieces compared '
     'with the undivided recurrence computed by the specification.')
prop('C06', 'Forward passes compute the composition of the wired layers',
     'For every network, parameters and data, the forward pass gives at '
     'every layer exactly the value that layer documents, applied to the '
     'values of the layers wired to it, for each sequence and time step '
     'separately; the loss is the importance-weighted sum of the loss '
     'inputs averaged over the batch.',
     ['inputs', 'programs'],
     'All networks of documented layers, all parameters and data.',
     'Tests check layers one by one on one sample, mostly with one handler; '
     'compositions and sharing of outputs are not covered.',
     [B + 'layers', B + 'structure/network.py',
      B + 'handlers/numpy_handler.py'],
     [('layer forward passes', 'layers/*.py: forward_pass')],
     'TLA+ exact-arithmetic evaluation (TLC) + trace validation',
     'Exact dyadic arithmetic in TLA+ for random networks with integer '
     'data.')
prop('C07', 'Backward passes compute the exact derivative of the loss',
     'For every network, parameters and data, the backward pass gives the '
     'exact derivative of the total loss with respect to every parameter '
     'and every differentiable input, whatever the topology (shared outputs, '
     'several losses, recurrence, carried context).',
     ['inputs', 'programs'],
     'All networks, parameters and data at which the loss is '
     'differentiable.',
     'Tests check single layers with finite differences at one point and '
     'size; sharing, accumulation and context are not covered.',
     [B + 'layers', B + 'structure/network.py'],
     [('layer backward passes', 'layers/*.py: backward_pass')],
     'TLA+ forward-mode differentiation (TLC) + trace validation',
     'The oracle differentiates by dual numbers along the specification\'s '
     'own forward evaluation, so it shares nothing with backpropagation.')
prop('C08', 'Optimizers perform exactly the documented parameter updates',
     'Over any sequence of training steps, each optimizer changes the '
     'parameters exactly as documented from the loss gradients at the right '
     'point, with the learning rate and momentum its schedules give for '
     'that epoch and update. Starting a training run starts from zero '
     'velocity. Every update is one training pass over its batch; a '
     'forward-only optimizer leaves the parameters alone and runs the mode '
     'of pass it is asked for.',
     ['histories', 'inputs'],
     'All lengths of runs, learning rates, momenta, schedules and restarts.',
     'Tests run a short training and look at the loss, not at trajectories.',
     [B + 'training/steppers.py', B + 'training/schedules.py'],
     [('update rules', 'steppers.py: SgdStepper, MomentumStepper, '
       'NesterovStepper, ForwardStepper')],
     'TLA+ state machine of the optimizers (TLC) + trace validation',
     'Trajectories computed exactly in dyadic arithmetic.')
prop('C09', 'Training performs exactly the prescribed sequence of events',
     'A training run presents every batch of every epoch once and in order, '
     'makes one update per batch, applies the weight modifiers after it, '
     'and calls every hook exactly at the multiples of its interval of '
     'epochs or updates, in the order the hooks were added, including once '
     'before training. A hook that asks to stop ends the run at that point '
     'after the other hooks of that moment were called; counters and logs '
     'continue over several runs, and everything a hook returns is logged.',
     ['histories', 'schedules', 'configurations'],
     'All sets of hooks, intervals, stopping points, numbers of batches and '
     'consecutive runs.',
     'Tests train once with one or two hooks.',
     [B + 'training/trainer.py', B + 'hooks.py'],
     [('training loop and hook dispatch',
       'trainer.py: Trainer.train, _emit_hooks, _add_log')],
     'TLA+ state machine of the trainer (TLC) + trace validation',
     'Exhaustive over small hook sets/batches/epochs; the recorded event '
     'sequence must be a behaviour of the specification.')
prop('C10', 'Stopping and saving hooks act exactly when documented',
     'For every history of logged values, hooks that stop training do so at '
     'the first moment their documented condition holds and never before, '
     'and hooks that keep the best network keep exactly the parameters of '
     'the first best value seen so far.',
     ['histories', 'configurations'],
     'All sequences of logged values, thresholds, patience and criteria.',
     'There are no tests of these hooks beyond construction.',
     [B + 'hooks.py'],
     [('stopping and saving', 'hooks.py: EarlyStopper, '
       'StopAfterThresholdReached, StopAfterEpoch, StopOnNan, '
       'StopOnSigQuit, SaveBestNetwork, SaveLogs')],
     'TLA+ hook automata (TLC) + trace validation',
     'Exhaustive value histories over a small alphabet replayed on the '
     'real hooks.')
prop('C11', 'Batching presents every sequence exactly once per epoch',
     'Iterating over a data set in mini-batches presents every sequence '
     'exactly once per epoch with all its named data kept together and '
     'unchanged, in batches of the requested size except possibly one, '
     'in the given order unless shuffling, which permutes whole batches '
     'reproducibly by seed. Cutting sequences drops only time steps at the '
     'end that lie beyond the longest sequence of the batch.',
     ['inputs', 'configurations'],
     'All data sets, batch sizes, masks/lengths and seeds.',
     'Tests look at a few shapes.',
     [B + 'data_iterators.py'],
     [('iterators', 'data_iterators.py: Minibatches, Undivided')],
     'TLA+ batching specification (TLC) + trace validation',
     'All small data sets enumerated by TLC, larger random ones.')
prop('C12', 'Data transforming iterators change only what they document',
     'Every transforming iterator yields, batch by batch, exactly the '
     'documented transformation of the named data and passes all other data '
     'through unchanged, and never alters the underlying data, so that '
     'iterating again starts from the same values.',
     ['inputs', 'histories', 'configurations'],
     'All data, parameters, nestings of iterators and repeated epochs.',
     'Tests construct the iterators and check shapes or one sample.',
     [B + 'data_iterators.py'],
     [('wrapping iterators', 'data_iterators.py: AddGaussianNoise, Flip, '
       'Pad, RandomCrop, OneHot, MultiHot')],
     'TLA+ transformation specification (TLC) + trace validation',
     'Random transformations are judged by relation (some allowed choice '
     'explains the output).')
prop('C13', 'Evaluation aggregates independently of how data is batched',
     'Evaluating a network on a data set gives the losses and scores of the '
     'whole data set, whatever the batch size: the mean over all sequences '
     'for losses and over all scored items for scores, with masked items '
     'left out. Extracted buffers line up with the data they belong to, and '
     'evaluation never changes the parameters.',
     ['inputs', 'configurations'],
     'All data sets, masks and ways of batching.',
     'Tests evaluate scorers on single arrays.',
     [B + 'tools.py', B + 'scorers.py', B + 'training/utils.py'],
     [('aggregation', 'tools.py: evaluate, extract; scorers.py: '
       'gather_losses_and_scores, aggregate_losses_and_scores')],
     'TLA+ aggregation specification (TLC) + trace validation',
     'Exact rational aggregation over all splits.')
prop('C14', 'Initialization sets every parameter from the right rule',
     'Initializing a network sets every parameter by exactly the most '
     'specific rule the references give it (explicit and wildcard '
     'references before defaults, with the documented fallbacks) and '
     'rejects unmatched or ambiguous references without touching any '
     'parameter. The same seed gives the same parameters.',
     ['inputs', 'configurations', 'programs'],
     'All networks and all reference structures.',
     'Tests check a handful of reference dictionaries.',
     [B + 'structure/view_references.py', B + 'structure/network.py',
      B + 'initializers.py'],
     [('reference resolution', 'view_references.py: '
       'resolve_references; network.py: initialize')],
     'TLA+ resolution specification (TLC) + trace validation',
     'Exhaustive small reference structures, random larger ones.')
prop('C15', 'Modifiers act on exactly the referenced parameters, in order',
     'Weight and gradient modifiers change exactly the parameters or '
     'gradients they are referenced for, each by its documented rule, in '
     'the listed order and exactly once per application; all other '
     'parameters and gradients stay as they are.',
     ['inputs', 'configurations', 'histories'],
     'All assignments of modifiers to parameters and all values.',
     'Tests apply single modifiers to one array.',
     [B + 'value_modifiers.py', B + 'structure/network.py',
      B + 'structure/view_references.py'],
     [('modifiers', 'value_modifiers.py; network.py: '
       'set_weight_modifiers, set_gradient_modifiers, '
       'apply_weight_modifiers, apply_gradient_modifiers')],
     'TLA+ modifier semantics (TLC) + trace validation',
     'Exact arithmetic on dyadic values.')
prop('C16', 'Saving, loading, describing and re-creating lose nothing',
     'A network that is saved and loaded has exactly the same parameters, '
     'computes the same and continues to behave the same under further '
     'training as the original, independently of it and of later changes '
     'to either; a network re-created from its description or architecture '
     'is wired and computes alike for equal parameters. Every object of '
     'the library that is described (initializers, modifiers, steppers, '
     'schedules, scorers, hooks, trainers, handlers, user classes) comes '
     'back with the same arguments and behaviour as when freshly created; '
     'descriptions are plain data, contain no dynamic information, share '
     'no state with the object, and describing a re-created object gives '
     'the same description. (Dynamic state such as random states and the '
     'memory of FreezeValues() is documented not to be described.)',
     ['histories', 'programs', 'inputs'],
     'All networks with their initializers, modifiers and parameters at any '
     'point of their history.',
     'Tests round-trip single objects.',
     [B + 'structure/network.py', B + 'describable.py',
      B + 'value_modifiers.py', B + 'initializers.py'],
     [('descriptions', 'describable.py: get_description, '
       'create_from_description'),
      ('persistence', 'network.py: save_as_hdf5, from_hdf5, '
       '__get_description__, __init_from_description__')],
     'TLA+ state machine of objects and copies (TLC) + trace validation',
     'Histories with round trips at arbitrary points.')
prop('C17', 'Equal seeds give equal randomness, whatever else happens',
     'Every random choice is a function of the seed given: with the same '
     'seed and the same sequence of requests the same values come out, a '
     'reset or restored state repeats the sequence, and objects given '
     'explicit seeds are not influenced by other random activity.',
     ['histories', 'schedules'],
     'All histories of seeding, drawing, resetting, pickling and spawning.',
     'Tests compare a few draws.',
     [B + 'randomness.py', B + 'initializers.py', B + 'data_iterators.py',
      B + 'structure/network.py'],
     [('random states', 'randomness.py: RandomState, Seedable, '
       'set_global_seed')],
     'TLA+ symbolic random streams (TLC) + trace validation',
     'The specification treats streams symbolically: equal symbolic origin '
     'must mean equal values and different origin different values.')
prop('C18', 'Schedules give the documented value at every epoch and update',
     'For all parameters each schedule returns exactly the documented value '
     'for every epoch and update, changes only at the multiples of its '
     'interval, never leaves its documented range, and does not depend on '
     'how often or in which order it is asked.',
     ['inputs', 'configurations', 'histories'],
     'All schedule parameters, epochs and updates.',
     'Tests check one sequence per schedule.',
     [B + 'training/schedules.py'],
     [('schedules', 'schedules.py: Linear, Exponential, MultiStep')],
     'TLA+ schedule functions (TLC) + trace validation',
     'All small parameter combinations over a full range of counters.')
prop('C19', 'Handler operations agree with their specification and checks',
     'Every array operation of the CPU handlers produces exactly the '
     'documented result in the output array, touches nothing else, and the '
     'result does not depend on whether the output aliases an input of an '
     'elementwise operation. The checking handler gives the same results '
     'and rejects arrays of the wrong type or shape.',
     ['inputs', 'programs'],
     'All operations, shapes and values, and programs of several '
     'operations.',
     'Tests compare against references on a fixed list of arrays.',
     [B + 'handlers/numpy_handler.py', B + 'handlers/debug_handler.py',
      B + 'handlers/_cpuop.pyx'],
     [('operations', 'numpy_handler.py: NumpyHandler; debug_handler.py: '
       'DebugHandler')],
     'TLA+ register machine of array operations (TLC) + trace validation',
     'Programs over a store of arrays executed on both handlers and '
     'compared with the specification\'s store.')
prop('C20', 'Network building and data tools do what they document',
     'The tools that build networks from short specifications produce '
     'exactly the layers, sizes and connections written, and the tools that '
     'split, shuffle and prepare data lose, duplicate or mix no sample.',
     ['inputs', 'programs'],
     'All specifications, data sets, ratios and seeds.',
     'Tests cover a few specifications or none.',
     [B + 'tools.py'],
     [('tools', 'tools.py: create_net_from_spec, get_in_out_layers, split, '
       'shuffle_data')],
     'TLA+ specification language semantics (TLC) + trace validation',
     'All short specifications by the grammar.')
prop('C21', 'Convolution and pooling are exact for every geometry',
     'Two-dimensional convolution and pooling layers compute exactly the '
     'documented value at every position and exactly its derivative, for '
     'all kernel sizes, strides, paddings and image shapes, and reject '
     'geometries that give no output.',
     ['inputs', 'configurations'],
     'All image sizes, kernels, strides, paddings, channels and values.',
     'Tests check two or three geometries.',
     [B + 'layers/convolution_layer_2d.py', B + 'layers/pooling_layer_2d.py',
      B + 'handlers/numpy_handler.py', B + 'handlers/_cpuop.pyx'],
     [('convolution', 'numpy_handler.py: conv2d_forward_batch, '
       'conv2d_backward_batch, maxpool2d_*, avgpool2d_*; _cpuop.pyx')],
     'TLA+ exact convolution semantics (TLC) + trace validation',
     'Geometries enumerated, integer images, exact integer results.')

prop('C22', 'Watching training reports the truth and changes nothing',
     'Hooks that monitor, evaluate, save or print never change the course of '
     'training: parameters after every update are those of the same run '
     'without them, for every network, stepper and schedule of hooks, '
     'whatever data they evaluate on. Monitors report exactly the minimum, '
     'average, maximum and row norms of every array they document at the '
     'moment they are called, and losses and scores that depend on the '
     'parameters and the data alone.',
     ['schedules', 'histories', 'configurations'],
     'All sets, orders and intervals of hooks in all training runs.',
     'Tests never compare a watched run with an unwatched one.',
     [B + 'hooks.py', B + 'training/trainer.py', B + 'tools.py',
      B + 'structure/network.py'],
     [('monitors', 'hooks.py: MonitorLayerDeltas, MonitorLayerGradients, '
       'MonitorLayerInOuts, MonitorLayerParameters, MonitorLoss, '
       'MonitorScores'),
      ('training loop', 'trainer.py: Trainer.train, Trainer.evaluate')],
     'TLA+ self-composition of watched and unwatched training (TLC) + trace '
     'validation',
     'All schedules of up to two (three) hooks from the model and random '
     'ones on networks with memory, dropout and normalization.')

prop('C23', 'Shapes of all arrays follow from configuration and inputs',
     'For every network that builds, the outputs, inputs, parameters and '
     'gradients of every layer (and the deltas of its inputs and outputs) '
     'have exactly the shapes that follow from its type, its arguments and '
     'the shapes wired into it, for every number of time steps and '
     'sequences; the parameter vector holds exactly the parameters of all '
     'layers; and forward and backward passes over data of the announced '
     'shapes succeed. Networks whose shapes or size, kernel, stride or '
     'padding arguments do not fit are '
     'rejected when they are built.',
     ['configurations', 'inputs'],
     'All layer types, arguments, graphs, input shapes, lengths and batch '
     'sizes.',
     'Tests build a few small networks with one or two shapes each.',
     [B + 'layers/base_layer.py', B + 'structure/layout.py',
      B + 'structure/buffer_structure.py', B + 'structure/buffers.py',
      B + 'structure/network.py'] +
     [B + 'layers/%s.py' % n for n in (
         'fully_connected_layer', 'recurrent_layer', 'lstm_layer',
         'convolution_layer_2d', 'pooling_layer_2d', 'mask_layer',
         'merge_layer', 'highway_layer', 'batch_normalization_layer')],
     [('shape inference of the layers', 'layers/*.py: setup()'),
      ('checking of inputs and arguments',
       'base_layer.py: Layer._validate_in_shapes, _validate_kwargs'),
      ('buffers', 'layout.py: create_layout; buffers.py: BufferManager')],
     'TLA+ shape inference (TLC enumerates layer types x input shapes) + '
     'trace validation',
     'All layer types against a pool of 14 shapes (also two outputs joined '
     'into one input), random networks of up to five layers with random '
     'arguments, one to four time steps and sequences.')

exec(open(os.path.join(ROOT, 'tools', 'meta_extra.py')).read()
     if os.path.exists(os.path.join(ROOT, 'tools', 'meta_extra.py')) else '')


def main():
    have = [p for p in P if os.path.exists(
        os.path.join(ROOT, 'drivers', p['id'].lower() + '.py'))]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in have:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [
                    {'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
    checks = []
    for p in have:
        cmd = '/opt/venv/bin/python check.py ' + p['id']
        checks.append({
            'property': p['id'], 'quick_cmd': cmd,
            'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
            'technique': p['technique'], 'level': 'model_checking',
            'level_note': p['note'] + COMMON})
    m = {'version': 1,
         'setup_cmd': '/opt/venv/bin/python check.py --setup',
         'checks': checks, 'not_applicable': [],
         'notes': 'No hooks in /repo; the only commits there are "fix:" '
                  'commits, see known_findings.json.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']


main()
