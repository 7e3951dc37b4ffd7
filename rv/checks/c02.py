"""C02: radial comoving distance, its inverse and its integrand."""
import jax.numpy as jnp
import numpy as np

import jax_cosmo.background as bk
from rv import gen
from rv.lib import N, cosmology, jit, tol

LN10 = np.log(10.0)


def table_error(r, a, steps=256, log10_amin=-3):
    """Error bound of linear interpolation in a between log spaced nodes."""
    h = LN10 * abs(log10_amin) / (steps - 1)
    a = np.asarray(a, float)
    e = 1e-3
    caa = np.abs(r.dchida(a * (1 + e)) - r.dchida(a * (1 - e))) / (2 * e * a)
    # the curvature varies along the cell by less than exp(3.5 h) or so
    return (a * h) ** 2 / 8 * np.exp(3.5 * h) * 1.1 * caa * np.exp(h)


def chi_tol(m, r, a, chi, steps=256, log10_amin=-3):
    h = LN10 * abs(log10_amin) / (steps - 1)
    t = table_error(r, a, steps, log10_amin) + 2e-3 + 1e-6 * chi + 0.02 * h**4 * chi
    if not m.x64:
        t = t + 0.03 + 1e-5 * chi
    return t


def query(m, amin=1e-3):
    scalar = m.rng.random() < 0.15
    a = gen.scale_factors(m.rng, 1 if scalar else gen.size(m.rng), amin=amin)
    if not m.x64:
        a = np.maximum(a.astype(np.float32), np.float32(amin))
    return (a[0] if scalar else a)


def observe_chi(m, rule, r, a, got, **opt):
    a1 = np.atleast_1d(np.asarray(a, float))
    chi = r.chi(a1)
    g = N(got)
    m.close(rule, g, chi, atol=chi_tol(m, r, a1, chi, **opt), a=a, **opt)
    if g.shape == a1.shape:
        m.observe("never negative", (g >= 0).all(), got=g, a=a)
        o = np.argsort(a1)
        m.observe("never increases with a", (np.diff(g[o]) <= tol(m, 1e-6, 0.05)).all(), a=a1[o], got=g[o])
    return chi


def jitted(m, cases):
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="maybe")
        a = query(m)
        m.case(cosmo=gen.params(r), a=a)
        c = cosmology(r)
        got = m.call("evaluates", lambda: jit(bk.radial_comoving_distance, "chi")(c, jnp.asarray(a)))
        chi = observe_chi(m, "equals its integral", r, a, got)
        d = m.call("evaluates", lambda: jit(bk.dchioverda, "d")(c, jnp.asarray(a)))
        m.close("dchi/da is the integrand", d, r.dchida(np.asarray(a, float)), rtol=tol(m, 1e-12, 2e-5))
        # inverse: of the library's own distance, and of the exact one
        a1 = np.atleast_1d(np.asarray(a, float))
        back = m.call("evaluates", lambda: jit(bk.a_of_chi, "inv")(c, got))
        m.close("a_of_chi inverts", back, a1, rtol=tol(m, 5e-5, 4e-4), atol=tol(m, 0, 3e-5))
        top = float(r.chi(1e-3))
        x = np.clip(m.rng.uniform(0, 0.999, 9) * top, 0, top)
        x[0] = 0.0
        ax = N(m.call("evaluates", lambda: jit(bk.a_of_chi, "inv")(c, jnp.asarray(x))))
        m.observe("a_of_chi stays in (0, 1]", ((ax > 0) & (ax <= 1 + tol(m, 1e-9, 2e-4))).all(), got=ax)
        if (ax > 0).all():
            m.close("a_of_chi inverts the integral", r.chi(np.minimum(ax, 1.0)), x,
                    atol=1.5 * chi_tol(m, r, np.minimum(ax, 1.0), x) + tol(m, 0, 0.5 + 2e-4 * x))


def eager(m, cases):
    """Concrete objects: defaults and table options in random order on one object."""
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="maybe")
        c = cosmology(r, arrays=m.rng.random() < 0.5)
        menu = [{}, {}, dict(steps=int(gen.pick(m.rng, 64, 128, 512, 1024))),
                dict(log10_amin=gen.pick(m.rng, -1, -2, -4, -1.5)),
                dict(log10_amin=gen.pick(m.rng, -2, -4), steps=int(gen.pick(m.rng, 512, 2048)))]
        order = m.rng.permutation(len(menu))
        m.case(cosmo=gen.params(r), options=[menu[i] for i in order])
        for i in order:
            opt = menu[i]
            amin = 10.0 ** opt.get("log10_amin", -3)
            a = query(m, amin)
            form = gen.pick(m.rng, "np", "jnp", "kw")
            q = jnp.asarray(a) if form == "jnp" else a
            if form == "kw" or np.ndim(a):
                got = m.call("evaluates", lambda: bk.radial_comoving_distance(c, q, **opt))
            else:
                got = m.call("evaluates", lambda: bk.radial_comoving_distance(c, float(a), **opt))
            observe_chi(m, "equals its integral, any table", r, a, got, **opt)
            if m.rng.random() < 0.5:
                x = m.rng.uniform(0.01, 0.99, 5) * float(r.chi(1e-3))
                ax = N(m.call("evaluates", lambda: bk.a_of_chi(c, x)))
                m.close("a_of_chi inverts the integral", r.chi(np.clip(ax, 1e-4, 1)), x,
                        atol=1.5 * chi_tol(m, r, np.clip(ax, 1e-4, 1), x) + tol(m, 0, 0.5 + 2e-4 * x))
        got = m.call("evaluates", lambda: bk.radial_comoving_distance(c, 1))
        m.close("zero today", got, np.zeros(1), atol=tol(m, 1e-6, 2e-3))
        if not N(got).shape == (1,):
            continue
        g = m.call("evaluates", lambda: bk.a_of_chi(c, 0.0))
        m.close("a_of_chi(0) is today", g, np.ones(1), atol=tol(m, 1e-9, 1e-5))


def converged(m, cases):
    """A fine table leaves only the error of the integral itself."""
    f = lambda c, a: bk.radial_comoving_distance(c, a, steps=6000)
    g = lambda c, a: bk.radial_comoving_distance(c, a, log10_amin=-4, steps=8000)
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="maybe")
        wide = m.rng.random() < 0.4
        a = gen.scale_factors(m.rng, 16, amin=1e-4 if wide else 1e-3)
        m.case(cosmo=gen.params(r), a=a, wide=wide)
        c = cosmology(r)
        got = m.call("evaluates", lambda: jit(g if wide else f, "fine%d" % wide)(c, jnp.asarray(a)))
        chi = r.chi(a)
        m.close("fine tables converge to the integral", got, chi, rtol=2e-6, atol=2e-3)


KINDS = {"jitted": jitted, "eager": eager, "converged": converged}
