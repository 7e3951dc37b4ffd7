"""C12: noise spectra and Gaussian covariance."""
import jax
import jax.numpy as jnp
import numpy as np

import jax_cosmo.angular_cl as acl
import jax_cosmo.sparse as sparse
from rv import gen, models
from rv.checks import c11
from rv.lib import N, cosmology, jit, tol

pairs = c11.pairs


def draw(m, nmax=4):
    """Some probes with at most nmax tracers."""
    n, ps = int(m.rng.integers(1, nmax + 1)), []
    while n:
        k = int(m.rng.integers(1, n + 1))
        ps.append(models.probe(m.rng, None, k))
        n -= k
    return ps


def ells(m):
    n = int(gen.pick(m.rng, 2, 3, 5, 12))
    ell = gen.pick(m.rng, np.sort(m.rng.uniform(2, 5000, n)), np.arange(n) * 10 + 7, np.logspace(1, 3.3, n),
                   np.sort(m.rng.choice(3000, n, replace=False) + 2))
    return ell.astype(np.float32) if not m.x64 and ell.dtype.kind == "f" else ell


def signal(m, n, nell):
    """positive semi-definite spectra for every multipole; some rank deficient"""
    A = m.rng.normal(size=(nell, n, int(gen.pick(m.rng, n, 1, n + 2)))) * 10 ** m.rng.uniform(-6, -3, (1, n, 1))
    S = A @ A.transpose(0, 2, 1)
    return np.array([S[:, i, j] for i, j in pairs(n)])


def knox(m, total, ell, fsky, n):
    """dense covariance by explicit loops over spectra and multipoles"""
    ell = np.asarray(ell, float)
    L = len(ell)
    dl = np.empty(L)
    dl[0], dl[-1] = ell[1] - ell[0], ell[-1] - ell[-2]
    dl[1:-1] = (ell[2:] - ell[:-2]) / 2
    S = np.empty((L, n, n))
    for q, (i, j) in enumerate(pairs(n)):
        S[:, i, j] = S[:, j, i] = total[q]
    p = pairs(n)
    out = np.zeros((len(p) * L, len(p) * L))
    for a, (i, j) in enumerate(p):
        for b, (k, l) in enumerate(p):
            v = (S[:, i, k] * S[:, j, l] + S[:, i, l] * S[:, j, k]) / ((2 * ell + 1) * dl * fsky)
            out[a * L + np.arange(L), b * L + np.arange(L)] = v
    return out


def noise_reference(ps, n, nell):
    x = np.concatenate([p.noise() for p in ps])
    return np.array([(x[i] if i == j else 0.0) * np.ones(nell) for i, j in pairs(n)])


def observe_cov(m, ell, ps, fsky, sig, noise, dense, spr, note=""):
    n = sum(len(p.bins) for p in ps)
    want = knox(m, sig + noise, ell, fsky, n)
    scale = np.sqrt(np.outer(np.diag(want), np.diag(want)))
    t = tol(m, 1e-11, 1e-4)
    dense = N(dense).astype(float)
    m.close("dense covariance" + note, dense, want, atol=t * scale, ell=ell, f_sky=fsky)
    if spr is not None:
        spr = N(spr)
        k, L = len(pairs(n)), len(np.atleast_1d(ell))
        m.observe("sparse covariance holds one diagonal per block", spr.shape == (k, k, L), got=spr.shape)
        m.close("sparse covariance" + note, m.call("expands", lambda: sparse.to_dense(jnp.asarray(spr))), want, atol=t * scale)
    if dense.shape == want.shape:
        m.close("symmetric", dense, dense.T, atol=t * scale)
        d = dense / scale
        m.observe("positive semi-definite", np.linalg.eigvalsh((d + d.T) / 2).min() > -tol(m, 1e-9, 1e-3) * len(d) ** 0.5)


def covariance(m, cases):
    for _ in range(cases):
        ps = draw(m)
        n = sum(len(p.bins) for p in ps)
        ell = ells(m)
        fsky = gen.pick(m.rng, None, 0.25, 1.0, float(m.rng.uniform(0.01, 1)))
        m.case(probes=[p.describe() for p in ps], ell=ell, f_sky=fsky)
        real = m.call("builds", lambda: [p.build(m.rng.random() < 0.5) for p in ps])
        noise = N(m.call("evaluates", lambda: acl.noise_cl(ell, real)))
        ref = noise_reference(ps, n, len(ell))
        m.close("noise spectra", noise, ref, rtol=tol(m, 1e-10, 1e-5), atol=0)
        sig = signal(m, n, len(ell))
        kw = {} if fsky is None else dict(f_sky=fsky)
        q = jnp.asarray(ell) if m.rng.random() < 0.6 else ell
        a = [sig, ref] if m.rng.random() < 0.3 else [jnp.asarray(sig), jnp.asarray(ref)]
        dense = m.call("evaluates", lambda: acl.gaussian_cl_covariance(q, real, *a, sparse=False, **kw))
        spr = m.call("evaluates", lambda: acl.gaussian_cl_covariance(q, real, *a, **(dict(kw, sparse=True) if m.rng.random() < 0.5 else kw)))
        observe_cov(m, ell, ps, 0.25 if fsky is None else fsky, sig, ref, dense, spr)


def traced(m, cases):
    """everything an argument of a jitted function, sky fraction included"""
    for _ in range(cases // 3):
        sts = c11.structures(m, gen.pick(m.rng, "wl2 nc1", "nc2", "wl1 wl1d", "nc1 wl2i nc1"))
        ell = ells(m)
        f = jax.jit(lambda p, l, s, fs: (acl.noise_cl(l, p), acl.gaussian_cl_covariance(l, p, s, acl.noise_cl(l, p), fs, True),
                                         acl.gaussian_cl_covariance(l, p, s, acl.noise_cl(l, p), f_sky=fs, sparse=False)))
        for _ in range(3):
            ps = c11.draw(m, sts)
            n = sum(len(p.bins) for p in ps)
            fsky = float(m.rng.uniform(0.01, 1))
            m.case(probes=[p.describe() for p in ps], ell=ell, f_sky=fsky)
            sig = signal(m, n, len(ell))
            noise, spr, dense = m.call("evaluates", lambda: f([p.build(True) for p in ps], jnp.asarray(ell), jnp.asarray(sig), fsky))
            ref = noise_reference(ps, n, len(ell))
            m.close("noise spectra, traced", noise, ref, rtol=tol(m, 1e-10, 1e-5))
            observe_cov(m, ell, ps, fsky, sig, ref, dense, spr, ", traced")


def both_at_once(m, cases, layout, tr, pr):
    sts = c11.structures(m, layout)
    for q in range(cases):
        ps = c11.draw(m, sts)
        n = sum(len(p.bins) for p in ps)
        r = gen.ref(m.rng, tame=True)
        ell = np.sort(m.rng.choice(2000, 4, replace=False) + 2).astype(float if m.x64 else np.float32)
        fsky = gen.pick(m.rng, None, 1.0, float(m.rng.uniform(0.05, 1)))
        m.case(cosmo=gen.params(r), probes=[p.describe() for p in ps], ell=ell, f_sky=fsky, transfer=tr, nonlinear=pr)
        c, real = cosmology(r), [p.build(True) for p in ps]
        C = N(m.call("evaluates", lambda: c11.spectra(tr, pr)(c, jnp.asarray(ell), real))).astype(float)
        kw = c11.options(tr, pr)
        if fsky is not None:
            kw["f_sky"] = fsky
        for sp in (None, True) if q == 0 else (False,):
            kk = dict(kw) if sp is None else dict(kw, sparse=sp)
            f = jax.jit(lambda c, l, p: acl.gaussian_cl_covariance_and_mean(c, l, p, **kk))
            mu, cov = m.call("evaluates", lambda: f(c, jnp.asarray(ell), real))
            m.close("mean is the flattened signal", mu, C.ravel(), rtol=tol(m, 1e-9, 1e-3), atol=tol(m, 1e-9, 2e-4) * np.abs(C).max())
            if sp:
                m.observe("sparse covariance holds one diagonal per block", N(cov).shape == (len(C), len(C), 4), got=N(cov).shape)
                cov = sparse.to_dense(cov)
            observe_cov(m, ell, ps, 0.25 if fsky is None else fsky, C, noise_reference(ps, n, 4), cov, None, " with mean")


KINDS = {"covariance": covariance, "traced": traced, "both_at_once": both_at_once}
