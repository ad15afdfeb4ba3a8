from .exceptions import NotFittedError
