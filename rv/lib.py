"""Driving the code under test: building its objects, jitted entry points."""
import jax
import jax.numpy as jnp
import numpy as np

import jax_cosmo as jc
from rv import gen

_JIT = {}


def jit(fn, name, static=()):
    if name not in _JIT:
        _JIT[name] = jax.jit(fn, static_argnums=static)
    return _JIT[name]


def cosmology(r, arrays=False):
    p = gen.params(r)
    if arrays:
        p = {k: jnp.asarray(v) for k, v in p.items()}
    return jc.Cosmology(**p)


def N(x):
    return np.asarray(x)


def tol(m, x64, f32):
    return x64 if m.x64 else f32
