"""C23: galaxy and alignment bias models."""
import jax
import jax.numpy as jnp
import numpy as np

import jax_cosmo as jc
from rv import gen, models
from rv.lib import N, cosmology, jit, tol


def redshifts(m):
    n = gen.size(m.rng)
    z = gen.pick(m.rng, m.rng.uniform(0, 3, n), np.sort(m.rng.uniform(0, 10, n)), 10 ** m.rng.uniform(-4, 1, n),
                 10 ** m.rng.uniform(-1, 2.95, n))
    if n > 2:
        z[m.rng.integers(n)] = 0.0
    z = z if m.x64 else z.astype(np.float32)
    return z


def observe(m, b, r, z, got, note=""):
    zf = np.asarray(z, float)
    w = b.value(r, zf)
    name = {"constant": "constant", "inverse": "inverse growth", "ia": "alignment power law"}[b.kind]
    t = b.rerr(m, r, np.atleast_1d(zf)).reshape(zf.shape) + tol(m, 1e-12, 3e-5)
    m.close(name + note, got, w, atol=t * np.abs(w), z=z)


def draw(m):
    b = models.bias(m.rng)
    if m.rng.random() < 0.1:
        b.args[0] = 0.0
    return b, gen.ref(m.rng, gamma="maybe")


def eager(m, cases):
    for _ in range(cases):
        b, r = draw(m)
        z = redshifts(m)
        m.case(cosmo=gen.params(r), bias=b.describe(), z=z)
        c = cosmology(r, m.rng.random() < 0.5)
        q = m.call("builds", lambda: b.build(m.rng.random() < 0.4))
        for _ in range(2):
            g = m.call("evaluates", lambda: q(c, jnp.asarray(z) if m.rng.random() < 0.6 else z))
            observe(m, b, r, z, g)
        if b.kind != "inverse":
            s = float(z[0])
            observe(m, b, r, s, m.call("evaluates", lambda: q(c, s)), ", scalar")
            s = jnp.asarray(s)
            observe(m, b, r, s, m.call("evaluates", lambda: q(c, s)), ", scalar")
        for i in (np.arange(4), m.rng.permutation(6).astype(np.int32), 2):
            i = jnp.asarray(i) if m.rng.random() < 0.5 else i
            if b.kind == "inverse" and np.ndim(i) == 0:
                continue
            observe(m, b, r, i, m.call("evaluates", lambda: q(c, i)), ", integer redshifts")
        # elementwise and linear in the amplitude
        p = m.rng.permutation(len(z))
        g = N(m.call("evaluates", lambda: q(c, jnp.asarray(z)))).astype(float)
        g2 = m.call("evaluates", lambda: q(c, jnp.asarray(z[p])))
        m.close("elementwise", g2, g[p] if g.shape == z.shape else g, rtol=tol(m, 1e-13, 1e-5))
        s = m.rng.uniform(-3, 3)
        o = models.Bias(b.kind, b.args[0] * s, *b.args[1:])
        m.close("linear in the amplitude", m.call("evaluates", lambda: o.build()(c, jnp.asarray(z))), g * s, rtol=tol(m, 1e-12, 1e-5), atol=1e-30)


def traced(m, cases):
    f = jit(lambda b, c, z: b(c, z), "bias")
    for _ in range(cases):
        b, r = draw(m)
        z = np.resize(redshifts(m), 9)
        m.case(cosmo=gen.params(r), bias=b.describe(), z=z)
        observe(m, b, r, z, m.call("evaluates", lambda: f(b.build(m.rng.random() < 0.5), cosmology(r), jnp.asarray(z))), ", traced")


KINDS = {"eager": eager, "traced": traced}
