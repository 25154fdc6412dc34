"""User-defined layers (the documented extension point) used as probes."""
from collections import OrderedDict

from brainstorm.layers.base_layer import Layer
from brainstorm.structure.buffer_structure import (BufferStructure,
                                                   StructureTemplate)

LOG = []


class VProbeLayerImpl(Layer):
    """One input, two outputs; records when it is run."""
    expected_inputs = {'default': StructureTemplate('T', 'B', 'F')}
    expected_kwargs = {'size'}

    def setup(self, kwargs, in_shapes):
        n = kwargs.get('size', 1)
        out = OrderedDict()
        out['default'] = BufferStructure('T', 'B', n)
        out['aux'] = BufferStructure('T', 'B', n + 1)
        return out, OrderedDict(), OrderedDict()

    def forward_pass(self, buffers, training_pass=True):
        LOG.append(('f', self.name))

    def backward_pass(self, buffers):
        LOG.append(('b', self.name))


class VPackLayerImpl(Layer):
    """Outputs, inputs, parameters and contexts as told, for layout checks."""
    expected_inputs = {'default': StructureTemplate('T', 'B', 'F'),
                       'second': StructureTemplate('T', 'B', 'F')}
    expected_kwargs = {'outs', 'params', 'ins', 'ctx', 'internals'}

    def _validate_in_shapes(self):
        self.expected_inputs = {
            k: StructureTemplate('T', 'B', 'F')
            for k in self.kwargs.get('ins', ['default'])}
        for k in self.kwargs.get('ins', []):
            if k.startswith('p'):
                self.expected_inputs[k] = StructureTemplate('...')
        super(VPackLayerImpl, self)._validate_in_shapes()

    def setup(self, kwargs, in_shapes):
        out, par, intern = OrderedDict(), OrderedDict(), OrderedDict()
        for n, s in kwargs['outs']:
            out[n] = BufferStructure('T', 'B', s,
                                     context_size=kwargs.get('ctx', 0))
        for n, s in kwargs.get('params', []):
            par[n] = BufferStructure(*s)
        for n, s in kwargs.get('internals', []):
            intern[n] = BufferStructure('T', 'B', s)
            intern['d' + n] = BufferStructure('T', 'B', s,
                                              is_backward_only=True)
        return out, par, intern
