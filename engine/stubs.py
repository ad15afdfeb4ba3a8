"""Names of dependencies that have no assumed contract here: they can be
imported and mentioned, but using them stops the symbolic run (Unsupported)."""
from .symexec import Unsupported


class Stub:
    def __init__(self, name):
        self.__dict__['_stub_name'] = name

    def __call__(self, *a, **k):
        raise Unsupported(f'no contract for {self._stub_name}')

    def __getattr__(self, k):
        if k.startswith('__') and k.endswith('__'):
            raise AttributeError(k)
        return Stub(self._stub_name + '.' + k)

    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return self

    def __ror__(self, o):
        return self

    def __mro_entries__(self, bases):
        return (StubBase,)

    def __repr__(self):
        return f'<no contract: {self._stub_name}>'

    def __iter__(self):
        raise Unsupported(f'no contract for {self._stub_name}')

    def __bool__(self):
        raise Unsupported(f'no contract for {self._stub_name}')


class StubBase:
    def __init__(self, *a, **k):
        raise Unsupported('base class without contract')


def module_getattr(name):
    def g(k):
        if k.startswith('__') and k.endswith('__'):
            raise AttributeError(k)
        return Stub(f'{name}.{k}')
    return g
