from .._core import Parameter
