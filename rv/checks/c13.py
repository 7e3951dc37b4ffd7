"""C13: block-diagonal sparse matrices against dense numpy."""
import jax
import jax.numpy as jnp
import numpy as np

import jax_cosmo.sparse as sparse
from rv import gen
from rv.lib import N, jit, tol


def dense(s):
    """the matrix described, element by element"""
    a, b, n = s.shape
    out = np.zeros((a * n, b * n))
    for i in range(a):
        for j in range(b):
            for k in range(n):
                out[i * n + k, j * n + k] = s[i, j, k]
    return out


def rows(m):
    return int(gen.pick(m.rng, 1, 2, 3, 5))


def diag(m):
    return int(gen.pick(m.rng, 1, 2, 3, 7))


def values(m, *shape):
    x = m.rng.normal(size=shape) * 10 ** m.rng.uniform(-2, 2)
    if m.rng.random() < 0.15:
        x = np.round(x)
    if m.rng.random() < 0.1:
        x[m.rng.random(shape) < 0.4] = 0.0
    return x if m.x64 else x.astype(np.float32)


def given(m, *xs):
    """the operands as jax or numpy arrays, mixed"""
    return [jnp.asarray(x) if m.rng.random() < 0.5 else x for x in xs]


def f64(x):
    return np.asarray(x, float)


def same(m, rule, got, want, scale, **w):
    m.close(rule, got, want, atol=tol(m, 1e-12, 1e-5) * scale + 1e-300, **w)


def products(m, cases):
    for _ in range(cases):
        a, b, c, n = rows(m), rows(m), rows(m), diag(m)
        A, B = values(m, a, b, n), values(m, b, c, n)
        DA, DB = dense(f64(A)), dense(f64(B))
        p, q = int(m.rng.integers(1, 5)), int(m.rng.integers(1, 5))
        v, u = values(m, b * n), values(m, a * n)
        X, Y, L = values(m, b * n, p), values(m, q, a * n), values(m, p, b * n)
        m.case(a=a, b=b, c=c, n=n, A=A, B=B, v=v)
        s = lambda x, y: np.abs(f64(x)) @ np.abs(f64(y))
        same(m, "to_dense", m.call("expands", lambda: sparse.to_dense(given(m, A)[0])), DA, np.abs(DA))
        d = lambda *xs: m.call("multiplies", lambda: sparse.dot(*given(m, *xs)))
        same(m, "sparse . vector", d(A, v), DA @ f64(v), s(DA, v), shapes=(A.shape, v.shape))
        same(m, "vector . sparse", d(u, A), f64(u) @ DA, s(u, DA), shapes=(u.shape, A.shape))
        same(m, "sparse . dense", d(A, X), DA @ f64(X), s(DA, X), shapes=(A.shape, X.shape))
        same(m, "dense . sparse", d(Y, A), f64(Y) @ DA, s(Y, DA), shapes=(Y.shape, A.shape))
        AB = d(A, B)
        m.observe("sparse . sparse is sparse", N(AB).shape == (a, c, n), got=N(AB).shape)
        if N(AB).shape == (a, c, n):
            same(m, "sparse . sparse", dense(f64(AB)), DA @ DB, s(DA, DB), shapes=(A.shape, B.shape))
        W = values(m, c * n, q)
        same(m, "dense . sparse . dense", d(L, B, W), f64(L) @ DB @ f64(W), np.abs(f64(L)) @ s(DB, W), shapes=(L.shape, B.shape, W.shape))
        m.observe("only three dimensions are sparse", sparse.is_sparse(A) and not sparse.is_sparse(v) and not sparse.is_sparse(X))


def regular(m, k, n):
    """invertible whatever the sign of its determinant"""
    while True:
        s = values(m, k, k, n)
        if m.rng.random() < 0.3:  # a covariance
            t = f64(s).transpose(2, 0, 1)
            s = (t @ t.transpose(0, 2, 1)).transpose(1, 2, 0).astype(s.dtype)
        if m.rng.random() < 0.2:  # zero leading element, and blocks that are singular
            s[0, 0, m.rng.integers(n)] = 0
        c = [np.linalg.cond(f64(s)[:, :, i]) for i in range(n)]
        if max(c) < tol(m, 1e6, 300):
            return s, max(c)


def inverses(m, cases):
    for _ in range(cases):
        k, n = rows(m), diag(m)
        s, cond = regular(m, k, n)
        D = dense(f64(s))
        m.case(k=k, n=n, s=s)
        q = given(m, s)[0]
        I = N(m.call("inverts", lambda: sparse.inv(q)))
        m.observe("inverse is sparse", I.shape == s.shape, got=I.shape)
        if I.shape == s.shape:
            W = np.linalg.inv(D)
            eps = tol(m, 1e-15, 2e-7) * 30 * k
            m.close("inverse", dense(f64(I)), W, atol=eps * cond * np.abs(W).max())
            same(m, "inverse of inverse", m.call("inverts", lambda: sparse.inv(jnp.asarray(I))), s, 1e2 * cond * np.abs(s).max() * k)
        sg, ld = m.call("determinant", lambda: sparse.slogdet(q))
        wsg, wld = np.linalg.slogdet(D)
        m.close("sign of the determinant", sg, wsg)
        t = tol(m, 1e-14, 3e-6) * cond * k * n + tol(m, 1e-13, 1e-5) * (1 + np.abs(np.linalg.slogdet(f64(s).transpose(2, 0, 1))[1]).sum())
        m.close("log of the determinant", ld, wld, atol=t)
        if abs(wld) < tol(m, 600, 80):
            m.close("determinant", m.call("determinant", lambda: sparse.det(q)), wsg * np.exp(wld), rtol=1.1 * np.expm1(min(t + tol(m, 1e-11, 3e-5), 30)))
        # the solution of a linear system, everything traced
        v = values(m, k * n)
        f = jit(lambda s, v: sparse.dot(sparse.inv(s), v), "solve")
        x = N(m.call("multiplies", lambda: f(s, v)))
        w = np.linalg.solve(D, f64(v))
        m.close("solves linear systems", x, w, atol=tol(m, 1e-14, 3e-6) * k * cond * np.abs(w).max() * 30)


def big(m, cases):
    """sizes whose dense determinant over- or underflows"""
    for _ in range(cases):
        k, n = int(gen.pick(m.rng, 3, 10)), int(gen.pick(m.rng, 50, 200))
        t = m.rng.normal(size=(n, k, k))
        s = (t @ t.transpose(0, 2, 1) + 0.5 * np.eye(k)).transpose(1, 2, 0) * 10 ** m.rng.uniform(-10, 4)
        s = s if m.x64 else s.astype(np.float32)
        sg = m.rng.choice([-1, 1], n)
        s = s * sg.astype(s.dtype)
        m.case(k=k, n=n, s=s)
        wsg, wld = np.linalg.slogdet(f64(s).transpose(2, 0, 1))
        g, l = m.call("determinant", lambda: sparse.slogdet(s))
        m.close("sign of the determinant", g, np.prod(wsg))
        m.close("log of the determinant", l, wld.sum(), rtol=tol(m, 1e-11, 1e-4), atol=tol(m, 1e-10, 1e-2 * n / 50))
        v = values(m, k * n)
        D = np.einsum("abn,bn->an", f64(s), f64(v).reshape(k, n)).ravel()
        same(m, "sparse . vector", m.call("multiplies", lambda: sparse.dot(s, v)), D, np.abs(s).max() * np.abs(v).max() * k)


def refused(m, cases):
    for _ in range(cases):
        a, b, n = rows(m), rows(m), diag(m)
        A = values(m, a, b, n)
        m.case(a=a, b=b, n=n)
        off = int(gen.pick(m.rng, -1, 1, 2))
        if b * n + off < 1 or a * n + off < 1:
            off = 1
        bad = {
            "sparse . vector of another length": lambda: sparse.dot(*given(m, A, values(m, b * n + off))),
            "vector . sparse of another length": lambda: sparse.dot(*given(m, values(m, a * n + off), A)),
            "sparse . dense of another length": lambda: sparse.dot(*given(m, A, values(m, b * n + off, 3))),
            "dense . sparse of another length": lambda: sparse.dot(*given(m, values(m, 3, a * n + off), A)),
            "sparse . sparse of another length": lambda: sparse.dot(*given(m, A, values(m, b + 1, 2, n))),
            "bilinear form of another length, left": lambda: sparse.dot(*given(m, values(m, 2, a * n + off), A, values(m, b * n, 2))),
            "bilinear form of another length, right": lambda: sparse.dot(*given(m, values(m, 2, a * n), A, values(m, b * n + off, 2))),
            "bilinear form of vectors": lambda: sparse.dot(*given(m, values(m, a * n), A, values(m, b * n))),
            "bilinear form of sparse matrices": lambda: sparse.dot(*given(m, A, A, A)),
            "one operand": lambda: sparse.dot(A),
            "four operands": lambda: sparse.dot(A, A, A, A),
            "four dimensions": lambda: sparse.dot(*given(m, A, values(m, b * n, 1, 1, 1))),
            "inverse of another shape": lambda: sparse.inv(values(m, a, a + 1, n)),
            "determinant of another shape": lambda: sparse.det(values(m, a + 1, a, n)),
            "log determinant of another shape": lambda: sparse.slogdet(values(m, a + 1, a, n)),
            "expanding a dense matrix": lambda: sparse.to_dense(values(m, a, n)),
            "inverting a dense matrix": lambda: sparse.inv(values(m, a, a)),
        }
        if a == b:
            m.call("accepts square matrices", lambda: sparse.check_sparse(A, square=True))
        else:
            bad["check of a rectangular matrix"] = lambda: sparse.check_sparse(A, square=True)
        m.call("accepts rectangular matrices", lambda: sparse.check_sparse(A))
        for k, f in bad.items():
            m.raises("refused: " + k, ValueError, f, A=A.shape)


KINDS = {"products": products, "inverses": inverses, "big": big, "refused": refused}
