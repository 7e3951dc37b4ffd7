"""C04: linear growth from the growth equation."""
import jax.numpy as jnp
import numpy as np

import jax_cosmo as jc
import jax_cosmo.background as bk
from rv import gen
from rv.checks.c02 import query
from rv.lib import N, cosmology, jit, tol

LN10 = np.log(10.0)


def growth_tol(m, r, a, D, steps=128):
    h = 3 * LN10 / (steps - 1)
    e = 3e-3
    t = np.minimum(np.asarray(a, float) * (1 + e), 1.0)
    d2 = (r.D(t) - 2 * r.D(t / (1 + e)) + r.D(t / (1 + e) ** 2)) / (e * t / (1 + e)) ** 2
    x = 1.6 * (a * h) ** 2 / 8 * np.abs(d2) + 6e-4 * D
    return x if m.x64 else x + 1e-4 * D + 3e-7


def observe(m, r, a, D, f, note=""):
    a1 = np.atleast_1d(np.asarray(a, float))
    ref = r.D(a1)
    if D is not None:
        g = N(D)
        m.close("growth factor" + note, g, ref, atol=growth_tol(m, r, a1, ref), a=a)
        m.observe("growth factor in [0, 1]", ((g >= 0) & (g <= 1 + tol(m, 0, 1e-6))).all(), got=g, a=a)
    if f is not None:
        t = 2.5e-3 if m.x64 else 3e-3
        m.close("growth rate" + note, f, r.f(a1), atol=t, a=a)


def jitted(m, cases):
    for _ in range(cases):
        r = gen.ref(m.rng)
        a = query(m)
        m.case(cosmo=gen.params(r), a=a)
        c = cosmology(r)
        q = jnp.asarray(a)
        D = m.call("evaluates", lambda: jit(bk.growth_factor, "D")(c, q))
        f = m.call("evaluates", lambda: jit(bk.growth_rate, "f")(c, q))
        observe(m, r, a, D, f)


def eager(m, cases):
    """Both functions on one concrete object in random order, several times."""
    for _ in range(cases):
        r = gen.ref(m.rng)
        c = cosmology(r, m.rng.random() < 0.5)
        order = "".join(m.rng.permutation(list("DfDf1")))
        m.case(cosmo=gen.params(r), order=order)
        for o in order:
            if o == "1":
                D = N(m.call("evaluates", lambda: bk.growth_factor(c, 1)))
                m.close("growth factor today is one", D, np.ones(1), atol=tol(m, 1e-10, 1e-5))
                continue
            a = query(m)
            q = [a, jnp.asarray(a)][m.rng.integers(2)]
            if o == "D":
                observe(m, r, a, m.call("evaluates", lambda: bk.growth_factor(c, q)), None, ", any call order")
            else:
                observe(m, r, a, None, m.call("evaluates", lambda: bk.growth_rate(c, q)), ", any call order")


def invariances(m, cases):
    """Only the background matters; the rate is the slope of the factor."""
    for _ in range(cases):
        r = gen.ref(m.rng)
        a = gen.scale_factors(m.rng, 8)
        if not m.x64:
            a = np.maximum(a.astype(np.float32), np.float32(1e-3))
        p = gen.params(r)
        q = dict(p, h=m.rng.uniform(0.3, 1.2), sigma8=m.rng.uniform(0.3, 1.5), n_s=m.rng.uniform(0.5, 1.5))
        m.case(cosmo=p, changed=q, a=a)
        for n, fn in (("D", bk.growth_factor), ("f", bk.growth_rate)):
            x = N(m.call("evaluates", lambda: jit(fn, n)(jc.Cosmology(**p), jnp.asarray(a))))
            y = N(m.call("evaluates", lambda: jit(fn, n)(jc.Cosmology(**q), jnp.asarray(a))))
            m.close("independent of h, sigma8, n_s: " + n, y, x, rtol=tol(m, 1e-12, 1e-6))
        # consistency over whole octaves: ln D(a2)/D(a1) = int f dlna
        g = np.exp(np.linspace(np.log(0.05), 0.0, 129))
        if not m.x64:
            g = g.astype(np.float32)
        D = N(jit(bk.growth_factor, "D")(jc.Cosmology(**p), jnp.asarray(g))).astype(float)
        f = N(jit(bk.growth_rate, "f")(jc.Cosmology(**p), jnp.asarray(g))).astype(float)
        x = np.log(g.astype(float))
        I = np.sum(0.5 * (f[1:] + f[:-1]) * np.diff(x))
        if D.shape == g.shape and D[0] > 0:
            m.close("the rate integrates to the factor", I, -np.log(D[0]), atol=4e-3)


KINDS = {"jitted": jitted, "eager": eager, "invariances": invariances}
