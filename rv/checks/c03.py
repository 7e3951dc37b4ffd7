"""C03: curvature."""
import jax
import jax.numpy as jnp
import numpy as np

import jax_cosmo as jc
import jax_cosmo.background as bk
from rv import gen
from rv.checks.c02 import chi_tol, query
from rv.lib import N, cosmology, jit, tol
from rv.oracle import RH, Ref


def any_curvature(m):
    u = m.rng.uniform
    return gen.pick(m.rng, 0.0, u(0.001, 0.3), u(-0.3, -0.001), 10 ** u(-10, -3), -(10 ** u(-10, -3)),
                    p=[0.16, 0.26, 0.26, 0.16, 0.16])


def one(m, r, a, fk, da, chi):
    a1 = np.atleast_1d(np.asarray(a, float))
    want = r.fk(a1)
    slope = np.cosh(np.sqrt(abs(r.Omega_k)) * r.chi(a1) / RH)
    name = "open" if r.Omega_k > 0 else "closed" if r.Omega_k < 0 else "flat"
    small = 0 < abs(r.Omega_k) < 1e-3
    m.close("transverse distance, %s%s" % ("nearly flat " if small else "", name), fk, want,
            atol=slope * chi_tol(m, r, a1, r.chi(a1)), a=a)
    m.close("sinn of the radial distance", fk, r.sinn(N(chi)),
            rtol=tol(m, 1e-7 if small else 1e-10, 2e-5), atol=tol(m, 1e-8, 1e-3), a=a)
    m.close("angular diameter distance is a times it", da, a1 * N(fk),
            rtol=tol(m, 1e-13, 1e-6), atol=tol(m, 1e-12, 1e-6), a=a)


def jitted(m, cases):
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="maybe", Omega_k=any_curvature(m))
        a = query(m)
        m.case(cosmo=gen.params(r), a=a)
        c = cosmology(r)
        q = jnp.asarray(a)
        fk = m.call("evaluates", lambda: jit(bk.transverse_comoving_distance, "fk")(c, q))
        da = m.call("evaluates", lambda: jit(bk.angular_diameter_distance, "da")(c, q))
        chi = m.call("evaluates", lambda: jit(bk.radial_comoving_distance, "chi")(c, q))
        one(m, r, a, fk, da, chi)


def eager(m, cases):
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="maybe", Omega_k=any_curvature(m))
        a = query(m)
        arrays = m.rng.random() < 0.5
        m.case(cosmo=gen.params(r), a=a, parameters="jax" if arrays else "python")
        c = cosmology(r, arrays)
        q = [a, jnp.asarray(a)][m.rng.integers(2)]
        fs = [bk.transverse_comoving_distance, bk.angular_diameter_distance, bk.radial_comoving_distance]
        got = [None] * 3
        for i in m.rng.permutation(3):
            got[i] = m.call("evaluates", lambda: fs[i](c, q))
        one(m, r, a, *got)


def batched(m, cases):
    """One batch mixes open, flat and closed universes."""
    for _ in range(cases):
        base = gen.params(gen.ref(m.rng, flat=True, tame=True))
        ks = np.array([0.0, 0.2, -0.2, m.rng.uniform(-0.3, 0.3), 1e-7, -1e-7])
        ks = ks[m.rng.permutation(len(ks))]
        a = np.sort(gen.scale_factors(m.rng, 5, amin=0.01))
        if not m.x64:
            a = a.astype(np.float32)
        m.case(base=base, ks=ks, a=a)

        def f(k, p, a):
            return bk.transverse_comoving_distance(jc.Cosmology(**dict(p, Omega_k=k)), a)

        fk = N(m.call("evaluates", lambda: jit(jax.vmap(f, (0, None, None)), "vmap")(jnp.asarray(ks), base, jnp.asarray(a))))
        m.observe("batch shape", fk.shape == (len(ks), len(a)), got=fk.shape)
        if fk.shape != (len(ks), len(a)):
            continue
        for i, k in enumerate(ks):
            r = Ref(**dict(base, Omega_k=k))
            m.close("transverse distance, batch of mixed curvature", fk[i], r.fk(a.astype(float)),
                    atol=np.cosh(np.sqrt(abs(k)) * r.chi(a.astype(float)) / RH)
                    * 1.2 * chi_tol(m, r, a.astype(float), r.chi(a.astype(float))), a=a, k=k)


def derivative(m, cases):
    """d/dOmega_k against differences of the reference, around and at zero."""
    modes = {"fwd": jax.jacfwd, "rev": jax.jacrev}
    for _ in range(cases):
        base = gen.params(gen.ref(m.rng, flat=True, tame=True))
        a = gen.scale_factors(m.rng, 4, amin=0.05, edges=False)
        a = np.minimum(a, 0.97)
        if not m.x64:
            a = a.astype(np.float32)
        which = gen.pick(m.rng, "fk", "da")
        mode = gen.pick(m.rng, "fwd", "rev")
        fn = bk.transverse_comoving_distance if which == "fk" else bk.angular_diameter_distance

        def f(k, p, a):
            return fn(jc.Cosmology(**dict(p, Omega_k=k)), a)

        g = jit(modes[mode](f), which + mode)
        gb = jit(jax.vmap(modes[mode](f), (0, None, None)), which + mode + "b")
        ks = np.array([0.0, 1e-6, -1e-6, 1e-3, -1e-3, m.rng.uniform(0.02, 0.15), m.rng.uniform(-0.15, -0.02)])
        m.case(base=base, ks=ks, a=a, which=which, mode=mode)
        batch = m.rng.random() < 0.4
        if batch:
            ds = N(m.call("evaluates", lambda: gb(jnp.asarray(ks), base, jnp.asarray(a))))
        e = 2e-3
        for i, k in enumerate(ks):
            d = ds[i] if batch else m.call("evaluates", lambda: g(jnp.asarray(k), base, jnp.asarray(a)))
            x = a.astype(float)
            hi, lo = Ref(**dict(base, Omega_k=k + e)), Ref(**dict(base, Omega_k=k - e))
            want = (hi.fk(x) - lo.fk(x)) / (2 * e)
            if which == "da":
                want = want * x
            small = 0 < abs(k) < 1e-4
            m.close("derivative with respect to Omega_k" + (" at zero" if k == 0 else ""), d, want,
                    rtol=tol(m, 4e-3, 0.02 if not small else 0.06),
                    atol=tol(m, 0.05, 0.5 if not small else 4.0) + 2e-4 * RH, k=k, a=a)


KINDS = {"jitted": jitted, "eager": eager, "batched": batched, "derivative": derivative}
