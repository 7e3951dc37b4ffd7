"""C01: expansion history."""
import jax
import jax.numpy as jnp
import numpy as np

import jax_cosmo.background as bk
from rv import gen
from rv.lib import N, cosmology, jit, tol

FN = {"w": bk.w, "f_de": bk.f_de, "Esqr": bk.Esqr, "H": bk.H,
      "Omega_m_a": bk.Omega_m_a, "Omega_de_a": bk.Omega_de_a}


def reference(r, a):
    e2 = r.E2(a)
    # sums of moduli of the terms: the scale that rounding errors are relative to
    de = r.Ode * np.exp(r.f_de(a))
    s = r.Om / a**3 + abs(r.Omega_k) / a**2 + np.abs(de)
    cond = s / e2
    return {
        "w": (r.w(a), abs(r.w0) + abs(r.wa)),
        "f_de": (r.f_de(a), 3 * (abs(1 + r.w0 + r.wa) + 1) * (np.abs(np.log(a)) + abs(r.wa) + 1)),
        "Esqr": (e2, s * (1 + np.abs(r.f_de(a)))),
        "H": (100 * np.sqrt(e2), 100 * np.sqrt(e2) * cond * (1 + np.abs(r.f_de(a)))),
        "Omega_m_a": (r.Om / a**3 / e2, r.Om / a**3 / e2 * cond * (1 + np.abs(r.f_de(a)))),
        "Omega_de_a": (de / e2, (np.abs(de) / e2 + 1e-3) * cond * (2 + np.abs(r.f_de(a)))),
    }


def check(m, r, a, got, eps, shape):
    ref = reference(r, np.asarray(a, float))
    for name, g in got.items():
        want, scale = ref[name]
        m.close(name, g, np.broadcast_to(want, shape), atol=eps * np.broadcast_to(scale, shape), a=a)


def beyond_today(m, r, a):
    """Sometimes some scale factors of a go on into the future."""
    if m.rng.random() < 0.3:
        x = np.linspace(1, gen.pick(m.rng, 1.3, 2.0, 5.0), 200)
        e2 = r.E2(x)
        if e2.min() > 0.2 and e2.max() < 30 and r.Om_a(x).max() < 3:
            return np.where(m.rng.random(a.shape) < 0.5, m.rng.uniform(1, x[-1], a.shape), a)
    return a


def jitted(m, cases):
    """Random cosmologies, arrays of many shapes, traced parameters."""
    eps = tol(m, 3e-14, 6e-6)
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="maybe")
        shape = gen.pick(m.rng, (), (1,), (2,), (7,), (64,), (3, 5), (2, 1, 4))
        a = gen.scale_factors(m.rng, int(np.prod(shape)), amin=10 ** m.rng.uniform(-4, 0)).reshape(shape)
        a = beyond_today(m, r, a)
        a = a.astype(np.float64 if m.x64 else np.float32)
        m.case(cosmo=gen.params(r), a=a)
        c = cosmology(r)
        got = {n: m.call("evaluates", lambda: jit(f, n)(c, jnp.asarray(a))) for n, f in FN.items()}
        check(m, r, a, got, eps, shape)
        # closure: the three fractions add up to one
        ok = r.Omega_k / np.asarray(a, float) ** 2 / r.E2(a)
        m.close("fractions add to one", N(got["Omega_m_a"]) + N(got["Omega_de_a"]) + ok,
                np.ones(shape), atol=100 * eps * (1 + np.abs(np.log(a)).max()) * 10)


def eager(m, cases):
    """Eager evaluation with Python scalars, numpy arrays, integers, float32."""
    eps = tol(m, 3e-14, 6e-6)
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="maybe")
        kind = gen.pick(m.rng, "float", "int", "np", "jnp", "f32", "np0", "intarray")
        if kind == "float":
            a = float(gen.scale_factors(m.rng, 1)[0])
        elif kind == "int":
            a = 1
        elif kind == "np":
            a = beyond_today(m, r, gen.scale_factors(m.rng, gen.size(m.rng)))
        elif kind == "jnp":
            a = jnp.asarray(gen.scale_factors(m.rng, gen.size(m.rng)))
        elif kind == "f32":
            a = gen.scale_factors(m.rng, 5).astype(np.float32)
        elif kind == "intarray":
            a = np.ones(3, dtype=int)
        else:
            a = np.float64(gen.scale_factors(m.rng, 1)[0])
        arrays = m.rng.random() < 0.5
        m.case(cosmo=gen.params(r), a=a, kind=kind, parameters="jax" if arrays else "python")
        c = cosmology(r, arrays)
        e = eps if kind != "f32" else 6e-6
        if not m.x64 and kind in ("np", "float", "np0"):
            a = np.asarray(a, np.float32)[()]
        got = {n: m.call("evaluates", lambda: f(c, a)) for n, f in FN.items()}
        check(m, r, a, got, e, np.shape(a))


def invariances(m, cases):
    """h, sigma8, n_s, gamma and the split of Omega_m leave the background alone;
    the evolution of dark energy is the integral of its equation of state."""
    for _ in range(cases):
        r = gen.ref(m.rng)
        a = gen.scale_factors(m.rng, 16).astype(np.float64 if m.x64 else np.float32)
        p = gen.params(r)
        q = dict(p, h=m.rng.uniform(0.3, 1.2), sigma8=m.rng.uniform(0.3, 1.5),
                 n_s=m.rng.uniform(0.5, 1.5))
        t = m.rng.uniform(0.2, 0.8)
        q["Omega_b"], q["Omega_c"] = r.Om * t, r.Om * (1 - t)
        m.case(cosmo=p, changed=q, a=a)
        import jax_cosmo as jc
        c, d = jc.Cosmology(**p), jc.Cosmology(**q)
        for n, f in FN.items():
            x = N(m.call("evaluates", lambda: jit(f, n)(c, jnp.asarray(a))))
            y = N(m.call("evaluates", lambda: jit(f, n)(d, jnp.asarray(a))))
            m.close("independent of h, sigma8, n_s: " + n, y, x, rtol=tol(m, 1e-12, 2e-5),
                    atol=tol(m, 1e-12, 2e-5) * (np.abs(x).max() if n != "Esqr" else 1))
        fq = r.f_de_quad(np.asarray(a, float))
        m.close("f is -3 int (1+w) dlna", jit(bk.f_de, "f_de")(c, jnp.asarray(a)), fq,
                rtol=tol(m, 1e-11, 1e-5), atol=tol(m, 1e-11, 3e-5))
        m.close("H today is 100 km/s/(Mpc/h)", m.call("evaluates", lambda: bk.H(c, 1.0)), 100.0,
                rtol=tol(m, 1e-13, 1e-6))


KINDS = {"jitted": jitted, "eager": eager, "invariances": invariances}
