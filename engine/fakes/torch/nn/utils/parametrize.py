"""register_parametrization: the attribute becomes a function of the original
parameter, which moves to parametrizations.<name>.original"""
from ..modules import Module, ModuleDict, ModuleList
from ..._core import Parameter


class ParametrizationList(Module):
    def __init__(self, mod, original):
        super().__init__()
        self._modules['0'] = mod
        self.original = original if isinstance(original, Parameter) else Parameter(original)

    def forward(self):
        x = self.original
        for m in self._modules.values():
            x = m(x)
        return x


def register_parametrization(module, name, parametrization, *, unsafe=False):
    if 'parametrizations' in module._modules and name in module.parametrizations._modules:
        pl = module.parametrizations._modules[name]
        pl._modules[str(len(pl._modules))] = parametrization
        return module
    orig = module._parameters.pop(name)
    pl = ParametrizationList(parametrization, orig)
    if 'parametrizations' not in module._modules:
        module._modules['parametrizations'] = ModuleDict()
    module.parametrizations._modules[name] = pl
    base = type(module)

    def get(self):
        return self._modules['parametrizations']._modules[name]()

    cls = type('Parametrized' + base.__name__, (base,), {name: property(get)})
    object.__setattr__(module, '__class__', cls)
    return module


def is_parametrized(module, name=None):
    return 'parametrizations' in module._modules
