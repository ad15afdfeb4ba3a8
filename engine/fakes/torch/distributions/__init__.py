"""Contracts of torch.distributions: a sample is a deterministic function of
fresh noise drawn from the generator; log_prob is the textbook density."""
from . import constraints, transforms
from .dists import (Distribution, ExponentialFamily, Normal, Laplace, MultivariateNormal, Bernoulli, Exponential, Uniform,
                    LogNormal, TransformedDistribution, Independent, Categorical)
from .transforms import AffineTransform, ExpTransform, Transform
__all__ = ['Distribution', 'ExponentialFamily', 'Normal', 'Laplace', 'MultivariateNormal', 'Bernoulli', 'Exponential',
           'Uniform', 'LogNormal', 'TransformedDistribution', 'Independent', 'Categorical', 'AffineTransform',
           'ExpTransform', 'Transform']
