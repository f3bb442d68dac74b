import ast
import torch
from beer.nnet.neuralnetwork import IdentityLayer
from beer.nnet.neuralnetwork import MergeTransform
from beer.nnet.neuralnetwork import NeuralNetworkBlock
from beer.nnet.neuralnetwork import ReshapeLayer
from beer.nnet.neuralnetwork import TransposeLayer
from beer.nnet.neuralnetwork import create_nnet_block
from beer.nnet.neuralnetwork import create_nnet_element
from beer.nnet.neuralnetwork import load_value
from beer.nnet.neuralnetwork import parse_nnet_element


@spec('P27', 'beer.nnet.neuralnetwork:ReshapeLayer.__init__')
def _(self, shape):
    super().__init__()
    self.shape = shape


@spec('P27', 'beer.nnet.neuralnetwork:ReshapeLayer.forward')
def _(self, data):
    return data.contiguous().view(*self.shape)


@spec('P27', 'beer.nnet.neuralnetwork:TransposeLayer.forward')
def _(self, data):
    return data.t().contiguous()


@spec('P27', 'beer.nnet.neuralnetwork:IdentityLayer.forward')
def _(self, data):
    return data


@spec('P27', 'beer.nnet.neuralnetwork:NeuralNetworkBlock.__init__')
def _(self, structure, residual_connection=None):
    super().__init__()
    self.structure = structure
    self.residual_connection = residual_connection


@spec('P27', 'beer.nnet.neuralnetwork:NeuralNetworkBlock.forward')
def _(self, data):
    h = self.structure(data)
    if self.residual_connection is not None:
        h = h + self.residual_connection(data)
    return h


@spec('P27', 'beer.nnet.neuralnetwork:MergeTransform.__init__')
def _(self, *transforms):
    super().__init__()
    self.transforms = torch.nn.Sequential(*transforms)


@spec('P27', 'beer.nnet.neuralnetwork:MergeTransform.forward')
def _(self, *inputs):
    retval = self.transforms[0](inputs[0])
    for input_data, transform in zip(inputs[1:], self.transforms[1:]):
        retval = retval + transform(input_data)
    return retval


@spec('P27', 'beer.nnet.neuralnetwork:load_value')
def _(value):
    if not isinstance(value, str):
        return value
    return ast.literal_eval(value)


@spec('P27', 'beer.nnet.neuralnetwork:parse_nnet_element')
def _(strval):
    str_kwargs = {}
    nospace_str = ''.join(strval.split())
    if ':' in nospace_str:
        function_name, args_and_vals = nospace_str.strip().split(':')
        for arg_and_val in args_and_vals.split(';'):
            argname, str_argval = arg_and_val.split('=')
            str_kwargs[argname] = str_argval
    else:
        function_name = nospace_str
    return (function_name, str_kwargs)


@spec('P27', 'beer.nnet.neuralnetwork:create_nnet_element')
def _(strval):
    str_elements = strval.split('|')
    elements = []
    for str_element in str_elements:
        function_name, str_kwargs = parse_nnet_element(str_element)
        if hasattr(torch.nn, function_name):
            function = getattr(torch.nn, function_name)
        elif function_name == 'ReshapeLayer':
            function = ReshapeLayer
        elif function_name == 'TransposeLayer':
            function = TransposeLayer
        elif function_name == 'IdentityLayer':
            function = IdentityLayer
        else:
            raise ValueError('Unknown nnet element type: {}'.format(function_name))
        kwargs = {argname: load_value(arg_strval) for argname, arg_strval in str_kwargs.items()}
        elements.append(function(**kwargs))
    if len(elements) > 1:
        return MergeTransform(*elements)
    else:
        return elements[0]


@spec('P27', 'beer.nnet.neuralnetwork:create_nnet_block')
def _(block_conf):
    structure_list = [create_nnet_element(strval) for strval in block_conf['block_structure']]
    structure = torch.nn.Sequential(*structure_list)
    res_connection = block_conf.get('residual', None)
    if res_connection is not None:
        res_connection = create_nnet_element(res_connection)
    return NeuralNetworkBlock(structure, res_connection)


@spec('P27', 'beer.nnet.neuralnetwork:create')
def _(conf):
    nnet_blocks_conf = conf['nnet_structure']
    network = torch.nn.Sequential(*[create_nnet_block(block_conf) for block_conf in nnet_blocks_conf])
    return network
