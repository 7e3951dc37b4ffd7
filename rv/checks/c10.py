"""C10: radial kernels of lensing and clustering probes."""
import jax.numpy as jnp
import numpy as np

import jax_cosmo.probes as jprobes
import jax_cosmo.redshift as rds
from rv import gen, models
from rv.checks.c09 import rescaled
from rv.lib import N, cosmology, jit, tol


def grid(m, top, n):
    z = m.rng.uniform(0, top, n)
    if n > 2:
        z[m.rng.integers(n)] = 0.0
        z[m.rng.integers(n)] = top
    if m.rng.random() < 0.5:
        z = np.sort(z)
    z = z if m.x64 else z.astype(np.float32)
    return np.minimum(z, np.float32(top) if not m.x64 else top)


def ells(m):
    return gen.pick(m.rng, 2.0, 10, 100, 1234.5, 5000, float(m.rng.uniform(2, 3000)))


def name(p):
    if p.kind == "nc":
        return "clustering kernel"
    d = {b.kind == "delta" for b in p.bins}
    return "lensing kernel" + (", with alignments" if p.bias is not None else
                               ", delta planes" if d == {True} else ", mixed with delta planes" if True in d else "")


def observe(m, p, r, z, ell, got, note=""):
    K, T = p.kernel(m, r, z, float(ell))
    m.close(name(p) + note, got, K, atol=T + 1e-30 + tol(m, 1e-12, 3e-6) * np.abs(K).max(), z=z, ell=ell)


def eager(m, cases, kind):
    for _ in range(cases):
        p = models.probe(m.rng, kind)
        r = gen.ref(m.rng, gamma="maybe", tame=True)
        m.case(cosmo=gen.params(r), probe=p.describe())
        c = cosmology(r, m.rng.random() < 0.5)
        q = m.call("builds", lambda: p.build(m.rng.random() < 0.4))
        m.observe("number of tracers", q.n_tracers == len(p.bins), got=q.n_tracers)
        m.observe("zmax is the largest of the bins", q.zmax == p.zmax(), got=q.zmax, want=p.zmax())
        for _ in range(2):
            z = grid(m, p.zmax(), 9)
            if m.rng.random() < 0.2:
                z = float(z[0])
            ell = ells(m)
            if m.rng.random() < 0.3:
                ell = jnp.asarray(ell)
            observe(m, p, r, z, ell, m.call("evaluates", lambda: q.kernel(c, z if m.rng.random() < 0.5 else jnp.asarray(z), ell)))


def jitted(m, cases, kind, n, delta=None):
    st = models.Structure(m.rng, kind, n, delta=delta, fixed=True)
    f = jit(lambda c, q, z, ell: q.kernel(c, z, ell), "kernel")
    base = gen.ref(m.rng, gamma="maybe", tame=True)
    for _ in range(cases):
        p = models.probe(m.rng, kind, n, st)
        r = gen.ref(m.rng, gamma="always" if base.gamma is not None else None, tame=True)
        m.case(cosmo=gen.params(r), probe=p.describe())
        z, ell = grid(m, p.zmax(), 9), float(ells(m))
        got = m.call("evaluates", lambda: f(cosmology(r), p.build(True), jnp.asarray(z), ell))
        observe(m, p, r, z, ell, got, ", traced")


def bins(m, cases):
    """Each row belongs to its own bin whatever the others are."""
    for _ in range(cases):
        p = models.probe(m.rng, "wl", 4)
        r = gen.ref(m.rng, gamma="maybe", tame=True)
        m.case(cosmo=gen.params(r), probe=p.describe())
        c = cosmology(r)
        z, ell = grid(m, p.zmax(), 7), ells(m)
        K = N(m.call("evaluates", lambda: p.build().kernel(c, z, ell))).astype(float)
        i = m.rng.permutation(4)
        at = lambda x: [x[j] for j in i] if isinstance(x, list) else x
        o = models.Probe("wl", [p.bins[j] for j in i], at(p.bias), at(p.m), p.sigma)
        scale = np.abs(K).max()
        m.close("rows follow their bins", m.call("evaluates", lambda: o.build().kernel(c, z, ell)), K[i],
                rtol=tol(m, 1e-11, 1e-5), atol=tol(m, 1e-13, 3e-6) * scale)


def near(m, cases):
    """Sources so near, or so far, that no usual sample has them."""
    f = jit(lambda c, q, z, ell: q.kernel(c, z, ell), "kernel")
    for _ in range(cases):
        p = models.probe(m.rng, gen.pick(m.rng, "wl", "wl", "nc"), int(gen.pick(m.rng, 1, 2)))
        x = gen.pick(m.rng, 10 ** m.rng.uniform(-2, -0.5), m.rng.uniform(1, 3))
        p.bins = [rescaled(b, x) for b in p.bins]
        r = gen.ref(m.rng, gamma="maybe", tame=True)
        m.case(cosmo=gen.params(r), probe=p.describe(), scale=x)
        z, ell = grid(m, p.zmax(), 9), float(ells(m))
        q = m.call("builds", lambda: p.build(True))
        observe(m, p, r, z, ell, m.call("evaluates", lambda: f(cosmology(r), q, jnp.asarray(z), ell)), ", near or far")


def refused(m, cases):
    for _ in range(cases):
        r = gen.ref(m.rng, tame=True)
        c = cosmology(r)
        bad = [models.spec(m.rng, ("smail", "kde")) for _ in range(m.rng.integers(3))]
        bad.insert(m.rng.integers(len(bad) + 1), models.spec(m.rng, ("delta",)))
        m.case(cosmo=gen.params(r), bins=[b.describe() for b in bad])
        b = models.bias(m.rng)
        nc, wl = models.Probe("nc", bad, b), models.Probe("wl", bad, b)
        z = np.linspace(0.1, 1, 3)
        m.raises("clustering of delta planes is refused", NotImplementedError, lambda: nc.build().kernel(c, z, 10.0))
        m.raises("alignments of delta planes are refused", NotImplementedError, lambda: wl.build().kernel(c, z, 10.0))


KINDS = {"eager": eager, "jitted": jitted, "bins": bins, "near": near, "refused": refused}
