"""C20: linear interpolation in tables."""
import jax
import jax.numpy as jnp
import numpy as np

from jax_cosmo.scipy.interpolate import interp
from rv import gen
from rv.lib import N, jit, tol


def table(m, n):
    kind = m.rng.integers(5)
    gaps = m.rng.uniform(0.2, 1.8, n)
    if kind == 1:
        gaps = 10 ** m.rng.uniform(-2, 1.0, n)
    x = np.cumsum(gaps)
    if kind == 2:
        x = np.logspace(-3, 0, n)
    if kind == 3:
        x = np.arange(n) * 1.0
    x = x + gen.pick(m.rng, 0.0, -x[n // 2], 3.0)
    y = gen.pick(m.rng, m.rng.normal(size=n), np.cumsum(m.rng.random(n)), np.full(n, 2.5), 1e3 / (1 + np.arange(n)))
    if m.rng.random() < 0.5:
        x, y = x[::-1].copy(), y[::-1].copy()
    return (x, y) if m.x64 else (x.astype(np.float32), y.astype(np.float32))


def segment(x, xp):
    """index of the left node (in table order) of the segment holding x"""
    xp = np.asarray(xp, float)
    up = xp[0] < xp[-1]
    s = xp if up else xp[::-1]
    i = np.clip(np.searchsorted(s, x, side="right") - 1, 0, len(s) - 2)
    return i if up else len(s) - 2 - i


def queries(m, xp, n):
    lo, hi = min(xp[0], xp[-1]), max(xp[0], xp[-1])
    q = m.rng.uniform(lo, hi, n)
    j = segment(q, xp)
    s = m.rng.random(n)
    k = m.rng.random(n) < 0.6  # every segment alike, however short
    jj = m.rng.integers(0, len(xp) - 1, n)
    q = np.where(k, xp[jj] + s * (xp[jj + 1] - xp[jj]), q)
    q[m.rng.integers(n)] = xp[m.rng.integers(len(xp))]
    q[m.rng.integers(n)] = 0.5 * (xp[jj[0]] + xp[jj[0] + 1])
    q = q if m.x64 else q.astype(np.float32)
    return np.clip(q, lo, hi)


def values(m, cases, n):
    f = jit(interp, "interp")
    g = jit(jax.vmap(jax.grad(lambda x, xp, fp: interp(x[None], xp, fp)[0], argnums=(0, 2)), (0, None, None)), "slopes")
    for c in range(cases):
        xp, fp = table(m, n)
        q = queries(m, xp, 12)
        m.case(n=n, xp=xp, fp=fp, q=q)
        X, Y, Q = [np.asarray(v, float) for v in (xp, fp, q)]
        i = segment(Q, X)
        a = (Y[i + 1] - Y[i]) / (X[i + 1] - X[i])
        want = Y[i] + a * (Q - X[i])
        e = tol(m, 1e-14, 6e-6) * (np.abs(a) * (np.abs(Q) + np.abs(X).max()) + np.abs(Y).max())
        d = "increasing" if X[0] < X[-1] else "decreasing"
        fn = interp if c % 4 == 0 else f
        got = N(m.call("evaluates", lambda: fn(jnp.asarray(q), jnp.asarray(xp), jnp.asarray(fp)))).astype(float)
        m.close("bracketing segment, %s table" % d, got, want, atol=e, xp=xp, q=q)
        if got.shape != want.shape:
            continue
        lo, hi = np.minimum(Y[i], Y[i + 1]), np.maximum(Y[i], Y[i + 1])
        m.observe("between its bracketing nodes", ((got >= lo - e) & (got <= hi + e)).all(), got=got)
        nodes = np.resize(xp, 12) if n <= 12 else m.rng.choice(xp, 12, replace=False)
        at = {float(x): y for x, y in zip(xp, Y)}
        got = m.call("evaluates", lambda: f(jnp.asarray(nodes), jnp.asarray(xp), jnp.asarray(fp)))
        slopes = np.abs(np.diff(Y) / np.diff(X)).max()
        m.close("reproduces the nodes", got, [at[float(v)] for v in nodes], atol=tol(m, 8e-15, 6e-6) * (slopes * np.abs(X).max() + np.abs(Y).max()))
        if m.x64:
            inner = nodes[(nodes != xp[0]) & (nodes != xp[-1])]
            if len(inner):
                inner = np.resize(inner, 12)
                dx = 1e-10 * abs(X[-1] - X[0])
                up = m.call("evaluates", lambda: f(jnp.asarray(inner + dx), jnp.asarray(xp), jnp.asarray(fp)))
                dn = m.call("evaluates", lambda: f(jnp.asarray(inner - dx), jnp.asarray(xp), jnp.asarray(fp)))
                m.close("continuous at the nodes", up, dn, atol=3 * dx * slopes + 2e-14 * slopes * np.abs(X).max() + 1e-13 * np.abs(Y).max())
        # derivatives away from the nodes
        off = np.minimum(np.abs(Q - X[i]), np.abs(Q - X[i + 1])) > tol(m, 1e-9, 1e-4) * np.abs(X[i + 1] - X[i])
        gx, gf = m.call("differentiates", lambda: g(q, xp, fp))
        gx, gf = N(gx).astype(float), N(gf).astype(float)
        rel = np.abs(X).max() / np.abs(np.diff(X)).min()
        m.close("slope of the segment", gx[off], a[off], rtol=tol(m, 1e-13, 1e-5), atol=tol(m, 1e-15, 1e-6) * rel * slopes)
        W = np.zeros((12, n))
        r = np.arange(12)
        W[r, i + 1] += (Q - X[i]) / (X[i + 1] - X[i])
        W[r, i] += 1 - (Q - X[i]) / (X[i + 1] - X[i])
        m.close("interpolation weights", gf[off], W[off], atol=tol(m, 1e-13, 1e-5) + tol(m, 1e-15, 1e-6) * 4 * rel)


KINDS = {"values": values}
