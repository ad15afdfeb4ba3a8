from . import apis, functional_call
