"""C08: non-linear power spectrum."""
import functools

import jax
import jax.numpy as jnp
import numpy as np

import jax_cosmo as jc
import jax_cosmo.power as power
import jax_cosmo.transfer as tklib
from rv import gen
from rv.checks.c07 import bbks, bbks_ref
from rv.lib import N, cosmology, jit, tol


def nowiggle(cosmo, k):
    return tklib.Eisenstein_Hu(cosmo, k, type="eisenhu")


TRANSFER = {
    "default": (None, lambda r: r.T),
    "osc": (tklib.Eisenstein_Hu, lambda r: r.T),
    "nowiggle": (nowiggle, lambda r: lambda k: r.T(k, "eisenhu")),
    "user": (bbks, lambda r: bbks_ref),
}
PRESCRIPTION = {
    "default": None,
    "takahashi2012": functools.partial(power.halofit, prescription="takahashi2012"),
    "smith2003": functools.partial(power.halofit, prescription="smith2003"),
    "linear": power.linear,
    "halofit": power.halofit,
}


def evaluate(tr, pr, c, k, a):
    kw = {}
    if TRANSFER[tr][0] is not None:
        kw["transfer_fn"] = TRANSFER[tr][0]
    if PRESCRIPTION[pr] is not None:
        kw["nonlinear_fn"] = PRESCRIPTION[pr]
    return power.nonlinear_matter_power(c, k, a, **kw)


def evaluate_today(tr, pr, c, k):
    kw = {}
    if TRANSFER[tr][0] is not None:
        kw["transfer_fn"] = TRANSFER[tr][0]
    if PRESCRIPTION[pr] is not None:
        kw["nonlinear_fn"] = PRESCRIPTION[pr]
    return power.nonlinear_matter_power(c, k, **kw)


def linear(tr, c, k):
    t = TRANSFER[tr][0]
    return power.linear_matter_power(c, k, **({} if t is None else dict(transfer_fn=t)))


def reference(r, tr, amp, k, a, presc, cache={}):
    """(value, tolerance) for paired arrays k, a."""
    T = TRANSFER[tr][1](r)
    p0 = lambda q: amp * np.asarray(q, float) ** r.n_s * T(q) ** 2
    if presc == "linear":
        w = p0(k) * r.D(a) ** 2
        return w, 2.5e-3 * w
    ua, inv = np.unique(a, return_inverse=True)
    out, t = np.empty(len(k)), np.empty(len(k))
    for i, x in enumerate(ua):
        s = inv == i
        sc = r.halofit_scales(x, p0)
        if sc is None:
            out[s], t[s] = np.nan, np.inf
            continue
        w = r.halofit(k[s], x, p0, presc, sc)
        # sensitivity to the scale (found by interpolation), slope and curvature
        d = 0
        for e in ((1.5e-3, 0, 0), (0, 3e-3, 0), (0, 0, 3e-3)):
            v = r.halofit(k[s], x, p0, presc, (sc[0] * np.exp(e[0]), sc[1] + e[1], sc[2] + e[2]))
            d = d + np.abs(v - w)
        out[s], t[s] = w, 2e-3 * w + d
    return out, t


def amplitude(m, r, tr, c):
    """Amplitude of the linear spectrum the library feeds to halofit."""
    k0 = np.array([0.05])
    P = N(m.call("evaluates", lambda: jit(functools.partial(linear, tr), "lin" + tr)(c, jnp.asarray(k0)))).astype(float).ravel()
    return P[0] / (k0[0] ** r.n_s * TRANSFER[tr][1](r)(k0)[0] ** 2)


def cosmo(m):
    if m.rng.random() < 0.2:  # strongly clustered: large non-linear scales
        return gen.ref(m.rng, gamma="maybe", tame=True, sigma8=m.rng.uniform(1.0, 1.5), n_s=m.rng.uniform(0.7, 0.9))
    return gen.ref(m.rng, gamma="maybe", tame=True)


def pairs(m, size, kind):
    zmax = gen.pick(m.rng, 3.0, 5.0, p=[0.8, 0.2])
    k = gen.wavenumbers(m.rng, size, *gen.pick(m.rng, (1e-3, 30.0), (0.05, 20.0)))
    a = 1 / (1 + m.rng.uniform(0, zmax, size))
    if m.rng.random() < 0.5:
        a[m.rng.integers(size)] = 1.0
    if not m.x64:
        k, a = k.astype(np.float32), a.astype(np.float32)
    if kind == "k1":
        a = a[0]
    if kind == "11":
        k, a = k[0], a[0]
    return k, a


def observe(m, r, tr, pr, c, k, a, P, note=""):
    k1, a1 = np.broadcast_arrays(np.atleast_1d(np.asarray(k, float)), np.atleast_1d(np.asarray(a, float)))
    presc = {"default": "takahashi2012", "halofit": "takahashi2012"}.get(pr, pr)
    w, t = reference(r, tr, amplitude(m, r, tr, c), k1, a1, presc)
    ok = np.isfinite(w)
    P = N(P)
    if not m.observe("one value per (k, a)", P.size == k1.size, got=P.shape, want=k1.shape):
        return
    m.close({"linear": "linear option", "smith2003": "halofit, smith2003"}.get(presc, "halofit, takahashi2012") + note,
            P.ravel()[ok], w[ok], atol=t[ok] + tol(m, 0, 2e-3) * w[ok], k=k, a=a)


def jitted(m, cases, tr, pr, kind, size):
    f = jit(functools.partial(evaluate, tr, pr), tr + pr)
    for _ in range(cases):
        r = cosmo(m)
        k, a = pairs(m, size, kind)
        m.case(cosmo=gen.params(r), k=k, a=a, transfer=tr, prescription=pr)
        c = cosmology(r)
        P = m.call("evaluates", lambda: f(c, jnp.asarray(k), jnp.asarray(a)))
        observe(m, r, tr, pr, c, k, a, P)
        if pr != "linear" and kind != "11":
            # on large scales the correction vanishes
            kl = np.full(np.shape(k), 2e-3).astype(k.dtype)
            NLv = N(m.call("evaluates", lambda: f(c, jnp.asarray(kl), jnp.asarray(a))))
            L = N(m.call("evaluates", lambda: jit(functools.partial(evaluate, tr, "linear"), tr + "linear")(c, jnp.asarray(kl), jnp.asarray(a))))
            m.close("linear on large scales", NLv, L, rtol=1.2e-2, a=a)


def independent(m, cases, tr, pr, size):
    """Values of a pair do not depend on the company it is computed in."""
    f = jit(functools.partial(evaluate, tr, pr), tr + pr)
    for _ in range(cases):
        r = cosmo(m)
        k, a = pairs(m, size, "ka")
        m.case(cosmo=gen.params(r), k=k, a=a, transfer=tr, prescription=pr)
        c = cosmology(r)
        P = N(m.call("evaluates", lambda: f(c, jnp.asarray(k), jnp.asarray(a))))
        i = m.rng.permutation(size)
        m.close("order of the pairs does not matter", m.call("evaluates", lambda: f(c, jnp.asarray(k[i]), jnp.asarray(a[i]))),
                P[i], rtol=tol(m, 1e-9, 5e-4))
        j = int(m.rng.integers(size))
        k2, a2 = pairs(m, size, "ka")
        k2[j], a2[j] = k[j], a[j]
        P2 = N(m.call("evaluates", lambda: f(c, jnp.asarray(k2), jnp.asarray(a2))))
        if P2.shape == P.shape == (size,):
            m.close("other pairs do not matter", P2[j], P[j], rtol=tol(m, 1e-9, 5e-4))
        if m.cases % 3 == 1:
            one = N(m.call("evaluates", lambda: f(c, jnp.asarray(k[j : j + 1]), jnp.asarray(a[j : j + 1]))))
            m.close("alone or in an array", one.ravel(), P[j : j + 1], rtol=tol(m, 1e-8, 5e-4))


def eager(m, cases, tr, pr):
    for n in range(cases):
        r = cosmo(m)
        k, a = pairs(m, 4, gen.pick(m.rng, "ka", "k1"))
        m.case(cosmo=gen.params(r), k=k, a=a, transfer=tr, prescription=pr)
        c = cosmology(r)
        P = m.call("evaluates", lambda: evaluate(tr, pr, c, k, a))
        observe(m, r, tr, pr, c, k, a, P, ", eager")
        if n == 0:
            P = m.call("evaluates", lambda: evaluate_today(tr, pr, c, k))
            observe(m, r, tr, pr, c, k, 1.0, P, ", a omitted")
            m.raises("unknown prescriptions are refused", NotImplementedError, lambda: power.nonlinear_matter_power(
                c, k, a, nonlinear_fn=functools.partial(power.halofit, prescription=gen.pick(m.rng, "mead2020", "smith", ""))))


KINDS = {"jitted": jitted, "independent": independent, "eager": eager}
