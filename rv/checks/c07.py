"""C07: linear power spectrum."""
import jax
import jax.numpy as jnp
import numpy as np
from scipy import integrate

import jax_cosmo as jc
import jax_cosmo.power as power
import jax_cosmo.transfer as tklib
from rv import gen
from rv.checks.c04 import growth_tol
from rv.lib import N, cosmology, jit, tol

# transfer functions: name -> (library call keywords, reference)


def bbks(cosmo, k, shape=0.2):
    q = k / shape
    return jnp.log(1 + 2.34 * q) / (2.34 * q) * (
        1 + 3.89 * q + (16.1 * q) ** 2 + (5.46 * q) ** 3 + (6.71 * q) ** 4) ** -0.25


def bbks_ref(k, shape=0.2):
    q = np.asarray(k, float) / shape
    return np.log(1 + 2.34 * q) / (2.34 * q) * (
        1 + 3.89 * q + (16.1 * q) ** 2 + (5.46 * q) ** 3 + (6.71 * q) ** 4) ** -0.25


def transfer(name, r, shape=0.2):
    """(keywords for the library, reference T(k))"""
    return {
        "default": ({}, r.T),
        "osc": (dict(type="eisenhu_osc"), r.T),
        "nowiggle": (dict(type="eisenhu"), lambda k: r.T(k, "eisenhu")),
        "explicit": (dict(transfer_fn=tklib.Eisenstein_Hu, type="eisenhu"), lambda k: r.T(k, "eisenhu")),
        "user": (dict(transfer_fn=bbks), bbks_ref),
        "user_kw": (dict(transfer_fn=bbks, shape=shape), lambda k: bbks_ref(k, shape)),
    }[name]


NAMES = ("default", "osc", "nowiggle", "explicit", "user", "user_kw")
# the range that the library integrates the variance over (known finding KF1)
LO, HI = np.exp(-4.0), np.exp(3.0)


def norms(r, T):
    """(full, truncated) variance of k^n T^2 in 8 Mpc/h"""
    return r.sigma2_unnorm(8.0, T), r.sigma2_unnorm(8.0, T, LO, HI)


def shapes(m, n):
    """(k, a) to broadcast, and the resulting size."""
    kind = gen.pick(m.rng, "ka", "k1", "1a", "11", "k")
    k = gen.wavenumbers(m.rng, n)
    a = gen.scale_factors(m.rng, n)
    if not m.x64:
        k, a = k.astype(np.float32), np.maximum(a.astype(np.float32), np.float32(1e-3))
    if kind == "k1":
        a = a[0]
    if kind == "1a":
        k = k[0]
    if kind == "11":
        k, a = k[0], a[0]
    if kind == "k":
        a = None
    return kind, k, a


def observe(m, r, kind, k, a, P, T):
    k1 = np.atleast_1d(np.asarray(k, float))
    a1 = np.atleast_1d(np.asarray(1.0 if a is None else a, float))
    D = r.D(a1)
    base = k1**r.n_s * T(k1) ** 2 * D**2
    n = np.broadcast(k1, a1).size
    P = N(P)
    if P.size != n:
        return m.observe("one value per (k, a)", False, got=P.shape, want=n, kind=kind)
    P = P.ravel()
    m.observe("one value per (k, a)", True)
    dt = 2.2 * growth_tol(m, r, a1, D) / D + tol(m, 1e-9, 1e-4)
    full, part = norms(r, T)
    # one overall constant, either norm; the variance monitor tells which
    t = 2e-3 if m.x64 else 2.5e-3
    cand = [r.sigma8**2 / full * base, r.sigma8**2 / part * base]
    err = [np.max(np.abs(P / w - 1)) for w in cand]
    w = cand[int(np.argmin(err))]
    m.close("amplitude, shape and growth", P, w, atol=(t + dt) * w, k=k, a=a, kind=kind)


def rms(m, r, c, fn, T, what):
    """rms in 8 Mpc/h of the spectrum the library returns at a = 1."""
    x = np.linspace(np.log(1e-4), np.log(1e3), 6001)
    k = np.exp(x)
    P = N(m.call("evaluates", lambda: fn(c, jnp.asarray(k)))).astype(float)
    if P.shape != k.shape:
        return m.observe("one value per (k, a)", False, got=P.shape, want=k.shape)
    y = 8 * k
    W = 3 * (np.sin(y) - y * np.cos(y)) / y**3
    V = integrate.simpson(k**3 * P * W**2, x=x) / (2 * np.pi**2)
    dev = V / r.sigma8**2 - 1
    full, part = norms(r, T)
    ratio = full / part - 1
    # 129 quadrature points cost more when baryons make the integrand wiggle
    eps = (1.2e-3 if m.x64 else 1.5e-3) + 0.04 * abs(ratio)
    if abs(dev) <= min(eps, 2e-3):
        return m.observe("rms in 8 Mpc/h is sigma8", True)
    if abs(dev - ratio) <= eps:
        # the variance the library sees stops at k = e^-4 and e^3
        m.known_finding("KF1", "%s: variance is %.2f%% above sigma8^2" % (what, 100 * dev))
        return m.observe("rms in 8 Mpc/h is sigma8 up to the known truncation", True)
    m.observe("rms in 8 Mpc/h is sigma8", False, deviation=dev, truncation_alone=ratio, transfer=what)


_F = {}


def entry(name, with_a):
    """Module level entry points: one jitted function per transfer choice."""
    key = (name, with_a)
    if key not in _F:
        def f(c, k, a, shape):
            kw = transfer(name, None_ref, shape)[0]
            if with_a:
                return power.linear_matter_power(c, k, a, **kw)
            return power.linear_matter_power(c, k, **kw)
        _F[key] = jax.jit(f)
    return _F[key]


class _NoRef:
    T = None


None_ref = _NoRef()


def jitted(m, cases, name, size):
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="maybe")
        shape = float(m.rng.uniform(0.1, 0.4))
        kind, k, a = shapes(m, size)
        m.case(cosmo=gen.params(r), k=k, a=a, transfer=name, shape=shape)
        _, T = transfer(name, r, shape)
        c = cosmology(r)
        f = entry(name, a is not None)
        P = m.call("evaluates", lambda: f(c, jnp.asarray(k), 0.0 if a is None else jnp.asarray(a), shape))
        observe(m, r, kind, k, a, P, T)
        if m.rng.random() < 0.5:
            rms(m, r, c, lambda c, k: entry(name, False)(c, k, 0.0, shape), T, name)


def eager(m, cases):
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="maybe")
        name = NAMES[m.rng.integers(len(NAMES))]
        shape = float(m.rng.uniform(0.1, 0.4))
        m.case(cosmo=gen.params(r), transfer=name, shape=shape)
        kw, T = transfer(name, r, shape)
        c = cosmology(r, m.rng.random() < 0.5)
        for _ in range(2):
            kind, k, a = shapes(m, int(gen.pick(m.rng, 1, 2, 16)))
            if a is None:
                P = m.call("evaluates", lambda: power.linear_matter_power(c, k, **kw))
            else:
                P = m.call("evaluates", lambda: power.linear_matter_power(c, k, a, **kw))
            observe(m, r, kind, k, a, P, T)
        k = gen.wavenumbers(m.rng, 5)
        m.close("primordial spectrum is k^n_s", m.call("evaluates", lambda: power.primordial_matter_power(c, k)),
                k**r.n_s, rtol=tol(m, 1e-12, 1e-5))


def relations(m, cases, name):
    """Exact relations between outputs: sigma8^2 scaling, elementwise, shape."""
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="maybe")
        shape = float(m.rng.uniform(0.1, 0.4))
        p = gen.params(r)
        k = gen.wavenumbers(m.rng, 12)
        a = gen.scale_factors(m.rng, 12, amin=0.02)
        if not m.x64:
            k, a = k.astype(np.float32), a.astype(np.float32)
        m.case(cosmo=p, k=k, a=a, transfer=name)
        _, T = transfer(name, r, shape)
        f = lambda q, k, a: N(m.call("evaluates", lambda: entry(name, True)(
            jc.Cosmology(**q), jnp.asarray(k), jnp.asarray(a), shape)))
        P = f(p, k, a)
        s = m.rng.uniform(0.3, 3)
        m.close("proportional to sigma8^2", f(dict(p, sigma8=r.sigma8 * s), k, a), P * s**2, rtol=tol(m, 1e-11, 1e-5))
        i = m.rng.permutation(12)
        m.close("elementwise in (k, a)", f(p, k[i], a[i]), P[i], rtol=tol(m, 1e-11, 1e-5))
        P0 = f(p, k, a[0])
        if P0.shape == k.shape:
            kk = k.astype(float)
            m.close("shape is k^n T^2", P0 / P0[0], kk**r.n_s * T(kk) ** 2 / (kk[0] ** r.n_s * T(kk[0]) ** 2),
                    rtol=tol(m, 1e-9, 3e-4), atol=tol(m, 0, 1e-6))
        Pd = N(m.call("evaluates", lambda: entry(name, False)(jc.Cosmology(**p), jnp.asarray(k), 0.0, shape)))
        m.close("a defaults to today", Pd, f(p, k, 1.0), rtol=tol(m, 1e-11, 1e-5))


KINDS = {"jitted": jitted, "eager": eager, "relations": relations}
