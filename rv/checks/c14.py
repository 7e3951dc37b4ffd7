"""C14: Gaussian log-likelihood."""
import jax
import jax.numpy as jnp
import numpy as np

from jax_cosmo.likelihood import gaussian_log_likelihood as loglike
from rv import gen
from rv.checks.c13 import dense, f64
from rv.lib import N, jit, tol


def covariance(m, k, n):
    t = m.rng.normal(size=(n, k, k))
    lam = gen.pick(m.rng, 1.0, 0.1) if not m.x64 else gen.pick(m.rng, 1.0, 0.1, 1e-3)
    s = t @ t.transpose(0, 2, 1) / k + lam * np.eye(k)
    d = 10 ** m.rng.uniform(-1, 1, (n, k)) * 10 ** (m.rng.uniform(-6, 3) if m.x64 else m.rng.uniform(-2, 2))
    s = s * d[:, :, None] * d[:, None, :]
    s = 0.5 * (s + s.transpose(0, 2, 1))
    s = s.transpose(1, 2, 0)
    return s if m.x64 else s.astype(np.float32)


def truth(s, r):
    """(chi2, log determinant, scaled condition) block by block, in double precision"""
    k, _, n = s.shape
    b = f64(s).transpose(2, 0, 1)
    rr = f64(r).reshape(k, n).T
    x = np.linalg.solve(b, rr[:, :, None])[:, :, 0]
    return (rr * x).sum(), np.linalg.slogdet(b)[1].sum(), max(np.linalg.cond(q) for q in b)


def draw(m):
    k, n = int(gen.pick(m.rng, 1, 2, 3, 6)), int(gen.pick(m.rng, 1, 2, 5, 9))
    s = covariance(m, k, n)
    sd = np.sqrt(np.diag(dense(f64(s))))
    data = m.rng.normal(size=k * n) * sd * gen.pick(m.rng, 1.0, 10.0, 0.1)
    mu = data + m.rng.normal(size=k * n) * sd * gen.pick(m.rng, 1.0, 3.0, 0.3)
    dt = s.dtype
    return k, n, s, data.astype(dt), mu.astype(dt)


METHODS = ("sparse", "dense", "inverse", "cholesky")


def evaluate(how, data, mu, s, D, logdet):
    kw = {} if logdet is None else dict(include_logdet=logdet)
    if how == "sparse":
        return loglike(data, mu, s, **kw)
    if how in ("inverse", "cholesky"):
        kw["inverse_method"] = how
    return loglike(data, mu, D, **kw)


def tolerance(m, chi2, ld, cond, size):
    return tol(m, 1e-13, 3e-6) * cond * (chi2 + 1e-3) + tol(m, 1e-11, 2e-5) * (abs(ld) + size) + tol(m, 1e-10, 2e-4) * chi2 + tol(m, 1e-14, 2e-6) * cond * size


def values(m, cases, traced):
    for _ in range(cases):
        k, n, s, data, mu = draw(m)
        D = dense(s).astype(s.dtype)
        chi2, ld, cond = truth(s, f64(mu) - f64(data))
        t = tolerance(m, chi2, ld, cond, k * n)
        m.case(k=k, n=n, cov=s, data=data, mu=mu)
        for how in METHODS:
            for logdet in (None, True, False):
                f = lambda *a: evaluate(how, *a, logdet)
                if traced:
                    f = jax.jit(f)
                want = -0.5 * (chi2 + (0 if logdet is False else ld))
                args = [jnp.asarray(x) if traced or m.rng.random() < 0.5 else x for x in (data, mu, s, D)]
                got = m.call("evaluates", lambda: f(*args))
                rule = "%s, %s" % ("sparse covariance" if how == "sparse" else "dense covariance" + ("" if how == "dense" else ", " + how),
                                   "without determinant" if logdet is False else "with determinant")
                m.close(rule, got, want, atol=t, n=k * n)
                if logdet is None:
                    rev = m.call("evaluates", lambda: f(*([args[1], args[0]] + args[2:])))
                    m.close("symmetric in data and mean", rev, want, atol=t)
                    best = m.call("evaluates", lambda: f(*([args[0], args[0]] + args[2:])))
                    m.close("largest where they agree", best, -0.5 * ld, atol=t)
                    m.observe("largest where they agree", float(best) >= float(got) - t)
                    perm = m.rng.permutation(len(data))
                    if how != "sparse":
                        got = m.call("evaluates", lambda: f(data[perm], mu[perm], s, D[np.ix_(perm, perm)]))
                        m.close("order of the data does not matter", got, want, atol=t)
        # counts: integers on either side
        whole = np.round(f64(data) / max(np.abs(data).max(), 1e-30) * 50).astype(gen.pick(m.rng, np.int32, np.int64))
        other = (f64(whole) + np.sqrt(np.diag(f64(D))) * m.rng.normal(size=k * n)).astype(s.dtype)
        chi2 = truth(s, f64(other) - whole)[0]
        t = tolerance(m, chi2, ld, cond, k * n) + tol(m, 1e-14, 3e-6) * cond * 100 * np.sqrt(chi2 / np.diag(f64(D)).min())
        for how in METHODS:
            pair = (whole, other) if m.rng.random() < 0.7 else (other, whole)
            f = lambda *a: evaluate(how, *a, None)
            got = m.call("evaluates", lambda: (jax.jit(f) if traced else f)(jnp.asarray(pair[0]), jnp.asarray(pair[1]), jnp.asarray(s), jnp.asarray(D)))
            m.close("integers among the data", got, -0.5 * (chi2 + ld), atol=t, n=k * n)
        m.raises("other inverse methods are refused", NotImplementedError,
                 lambda: loglike(data, mu, D, inverse_method=gen.pick(m.rng, "lu", "Inverse", "")))


def derivatives(m, cases):
    """gradients with respect to mean and covariance amplitude"""
    def f(how):
        return jax.jit(jax.value_and_grad(lambda mu, q, data, s, D: evaluate(how, data, mu, q * s, q * D, None), argnums=(0, 1)))
    fs = {h: f(h) for h in METHODS}
    for _ in range(cases):
        k, n, s, data, mu = draw(m)
        D = dense(s).astype(s.dtype)
        r = f64(mu) - f64(data)
        chi2, ld, cond = truth(s, r)
        q = s.dtype.type(m.rng.uniform(0.5, 2))
        w = np.linalg.solve(f64(D), r) / q
        m.case(k=k, n=n, cov=s, data=data, mu=mu, q=float(q))
        t = tolerance(m, chi2, ld, cond, k * n) * 3
        for how in METHODS:
            v, (gm, gq) = m.call("evaluates", lambda: fs[how](mu, q, data, s, D))
            e = tol(m, 1e-13, 3e-5) * cond
            m.close("derivative with respect to the mean", gm, -w, rtol=min(e + tol(m, 1e-10, 1e-4), 0.3), atol=e * np.abs(w).max())
            m.close("derivative with respect to the amplitude of the covariance", gq, 0.5 * chi2 / q**2 - 0.5 * k * n / q, atol=t)


KINDS = {"values": values, "derivatives": derivatives}
