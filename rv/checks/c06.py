"""C06: transfer function."""
import functools

import jax
import jax.numpy as jnp
import numpy as np

import jax_cosmo as jc
from jax_cosmo.transfer import Eisenstein_Hu
from rv import gen
from rv.lib import N, cosmology, jit, tol

TYPES = (None, "eisenhu_osc", "eisenhu")


def call(t, c, k):
    return Eisenstein_Hu(c, k) if t is None else Eisenstein_Hu(c, k, type=t)


def observe(m, r, k, t, T):
    x = np.asarray(k, float)
    want = r.T(x, t or "eisenhu_osc")
    name = {None: "default", "eisenhu_osc": "oscillating", "eisenhu": "no-wiggle"}[t]
    # the phase of the oscillations carries the relative rounding of k s
    m.close("Eisenstein & Hu, " + name, T, want, rtol=tol(m, 1e-10, 1e-4), atol=tol(m, 1e-13, 3e-7), k=k,
            shape=True if np.ndim(k) else None)


def jitted(m, cases):
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="maybe")
        n = gen.size(m.rng)
        k = gen.wavenumbers(m.rng, n, *gen.pick(m.rng, (1e-5, 1e3), (1e-2, 1.0), (1e-4, 1e-2)))
        if not m.x64:
            k = k.astype(np.float32)
        t = TYPES[m.rng.integers(3)]
        m.case(cosmo=gen.params(r), k=k, type=t)
        T = m.call("evaluates", lambda: jit(functools.partial(call, t), str(t))(cosmology(r), jnp.asarray(k)))
        observe(m, r, k, t, T)


def eager(m, cases):
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="maybe")
        k = gen.wavenumbers(m.rng, gen.size(m.rng), 1e-5, 1e3)
        if not m.x64:
            k = k.astype(np.float32)
        if m.rng.random() < 0.3:
            k = k[0]
        t = TYPES[m.rng.integers(3)]
        m.case(cosmo=gen.params(r), k=k, type=t)
        c = cosmology(r, m.rng.random() < 0.5)
        T = m.call("evaluates", lambda: call(t, c, k))
        observe(m, r, k, t, T)
        m.raises("unknown types are refused", NotImplementedError,
                 lambda: Eisenstein_Hu(c, k, type=gen.pick(m.rng, "bbks", "eisenhu2", "")))
        T0 = N(m.call("evaluates", lambda: call(t, c, jnp.array([1e-5 if m.x64 else 1e-4]))))
        m.close("one on large scales", T0, np.ones(1), atol=2e-3)


def invariances(m, cases):
    f = {t: (functools.partial(call, t)) for t in TYPES}
    for _ in range(cases):
        r = gen.ref(m.rng)
        p = gen.params(r)
        q = dict(p, sigma8=m.rng.uniform(0.3, 1.5), n_s=m.rng.uniform(0.5, 1.5), Omega_k=m.rng.uniform(-0.2, 0.2),
                 w0=m.rng.uniform(-1.5, -0.5), wa=m.rng.uniform(-0.3, 0.1))
        k = gen.wavenumbers(m.rng, 16)
        t = TYPES[m.rng.integers(3)]
        m.case(cosmo=p, changed=q, k=k, type=t)
        x = N(m.call("evaluates", lambda: jit(f[t], str(t))(jc.Cosmology(**p), jnp.asarray(k))))
        y = N(m.call("evaluates", lambda: jit(f[t], str(t))(jc.Cosmology(**q), jnp.asarray(k))))
        m.close("independent of sigma8, n_s, curvature, dark energy", y, x, rtol=tol(m, 1e-12, 1e-6))
        i = int(m.rng.integers(16))
        one = N(m.call("evaluates", lambda: jit(f[t], str(t))(jc.Cosmology(**p), jnp.asarray(k[i : i + 1]))))
        m.close("elementwise in k", one, x[i : i + 1], rtol=tol(m, 1e-12, 2e-6), atol=tol(m, 0, 1e-8))


KINDS = {"jitted": jitted, "eager": eager, "invariances": invariances}
