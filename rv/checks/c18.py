"""C18: spline interpolation."""
import jax
import jax.numpy as jnp
import numpy as np
from scipy import interpolate as si

from jax_cosmo.scipy.interpolate import InterpolatedUnivariateSpline as Spline
from rv import gen
from rv.lib import N, tol


def data(m, k, n=None):
    n = n or int(gen.pick(m.rng, k + 1, k + 2, 6, 9, 17))
    n = max(n, k + 1)
    x = np.cumsum(m.rng.uniform(0.3, 1.7, n)) * 10 ** m.rng.uniform(-1, 1) * (1 if m.x64 else 1)
    x = x + gen.pick(m.rng, 0.0, -x[n // 2], m.rng.uniform(-3, 3) * x[-1])
    y = gen.pick(m.rng, m.rng.normal(size=n), np.sin(np.linspace(0, m.rng.uniform(1, 9), n)), np.cumsum(m.rng.normal(size=n)),
                 m.rng.uniform(-5, 5) + m.rng.uniform(-1, 1) * np.arange(n)) * 10 ** m.rng.uniform(-2, 2)
    if m.rng.random() < 0.1:
        x, y = np.cumsum(m.rng.integers(1, 4, n)), m.rng.integers(-5, 6, n)
        return x, y
    return (x, y) if m.x64 else (x.astype(np.float32), y.astype(np.float32))


def truth(x, y, k, ends):
    x, y = np.asarray(x, float), np.asarray(y, float)
    if ends == "natural":
        c = si.CubicSpline(x, y, bc_type="natural")
        return lambda q, n=0: c(q, n), c.antiderivative()
    s = si.InterpolatedUnivariateSpline(x, y, k=k)
    # piecewise polynomial with unlimited extrapolation from the end pieces
    p = si.PPoly.from_spline(s._eval_args)
    keep = np.diff(p.x) > 0
    p = si.PPoly(p.c[:, keep], np.r_[p.x[:-1][keep], p.x[-1]])
    return lambda q, n=0: p.derivative(n)(q) if n else p(q), p.antiderivative()


def queries(m, x, out=0.25):
    x = np.asarray(x, float)
    L = x[-1] - x[0]
    q = np.concatenate([m.rng.uniform(x[0], x[-1], 9), m.rng.uniform(x[0] - out * L, x[0], 2), m.rng.uniform(x[-1], x[-1] + out * L, 2)])
    m.rng.shuffle(q)
    q = q if m.x64 else q.astype(np.float32)
    return q


def draw(m):
    k = int(m.rng.integers(1, 4))
    ends = gen.pick(m.rng, None, "natural", "not-a-knot") if k == 3 else None
    x, y = data(m, k)
    return k, ends, x, y


def make(x, y, k, ends):
    kw = {} if ends is None else dict(endpoints=ends)
    return Spline(x, y, k=k, **kw)


def knots(x, k):
    x = np.asarray(x, float)
    return (x[1:] + x[:-1]) / 2 if k == 2 else x


def observe(m, k, ends, x, y, get, q, note=""):
    """get(what, *args) runs the real spline"""
    f, F = truth(x, y, k, ends)
    xf, yf, q = np.asarray(x, float), np.asarray(y, float), np.asarray(q, float)
    h = np.diff(xf).min()
    L = xf[-1] - xf[0]
    S = max(np.abs(yf).max(), np.abs(f(q)).max())
    e = tol(m, 1e-11, 3e-5) * (1 + len(xf)) + tol(m, 1e-13, 1e-6) * np.abs(xf).max() / h
    name = "degree %d%s" % (k, ", natural" if ends == "natural" else "")
    m.close(name + ": equals scipy" + note, get("call", q), f(q), atol=e * S * (1 + 3 * k))
    m.close(name + ": passes through its points" + note, get("call", xf), yf, atol=e * S)
    # queries next to a knot may fall on either side of it for the highest derivative
    kn = knots(xf, k)
    far = np.abs(q[:, None] - kn[None]).min(1) > 1e-4 * L
    for n in range(0, k + 1):
        D = np.abs(f(q, n)).max() + S / h**n
        g = N(get("derivative", q, n))
        want = f(q, n)
        ok = far if n == k else np.ones(len(q), bool)
        if m.observe(name + ": one derivative per query", g.shape == q.shape, got=g.shape):
            m.close(name + ": derivative %d" % n + note, g[ok], want[ok], atol=e * D * (4 * k + 4) * (1 if n == 0 else 3))
    if ends == "natural":
        b = xf[[0, -1]]
        m.close("natural ends have no curvature" + note, get("derivative", b, 2), np.zeros(2), atol=e * S / h**2 * 10)
    A = N(get("antiderivative", q)).astype(float)
    W = F(q)
    T = e * (S * L * 3 + np.abs(W).max())
    if m.observe(name + ": one antiderivative per query", A.shape == q.shape, got=A.shape):
        m.close(name + ": antiderivative" + note, A - A[0], W - W[0], atol=T)
    d = 1e-9 * L
    if m.x64:
        m.close(name + ": antiderivative continuous across knots" + note, get("antiderivative", kn - d), get("antiderivative", kn + d),
                atol=T + 4 * d * S * (1 + 3 * k))
        inner = kn[1:-1] if k != 2 else kn
        for n in range(k):
            m.close(name + ": derivative %d continuous across knots" % n + note, get("derivative", inner - d, n), get("derivative", inner + d, n),
                    atol=e * S / h**n * 30 + 4 * d * (np.abs(f(q, n + 1)).max() + S / h ** (n + 1)) * 10)


def eager(m, cases):
    for _ in range(cases):
        k, ends, x, y = draw(m)
        q = queries(m, x)
        m.case(k=k, endpoints=ends, x=x, y=y, q=q)
        g = [jnp.asarray(x), jnp.asarray(y)] if m.rng.random() < 0.5 else [x, y]
        s = m.call("builds", lambda: make(*g, k, ends))

        def get(what, z, *a):
            z = z.astype(np.float32) if not m.x64 else z
            fn = s if what == "call" else getattr(s, what)
            if what == "derivative" and a == (1,) and m.rng.random() < 0.5:
                a = ()
            return m.call("evaluates", lambda: fn(jnp.asarray(z), *a))
        observe(m, k, ends, x, y, get, q)
        F = truth(x, y, k, ends)[1]
        xf = np.asarray(x, float)
        L = xf[-1] - xf[0]
        S = max(np.abs(np.asarray(y, float)).max(), 1e-300)
        e = tol(m, 1e-11, 3e-5) * (1 + len(xf)) + tol(m, 1e-13, 1e-6) * np.abs(xf).max() / np.diff(xf).min()
        for a, b in ((q[0], q[1]), (q[1], q[0]), (x[-1], x[0]), (x[0], x[1]), (q[2], q[2])):
            I = m.call("integrates", lambda: s.integral(a, b))
            w = F(float(b)) - F(float(a))
            m.close("integral between bounds%s" % (" in reverse" if b < a else ""), I, w, atol=e * (S * L * 6 + abs(F(float(a)))), shape=None)
        z = q[0]
        m.close("scalar queries", m.call("evaluates", lambda: s(float(z))), truth(x, y, k, ends)[0](float(z)),
                atol=e * S * 30 * k, shape=None)


def traced(m, cases):
    """built, queried and integrated inside jit; and over batches of ordinates"""
    for _ in range(cases):
        k, ends, x, y = draw(m)
        x, y = np.asarray(x, float), np.asarray(y, float)
        if not m.x64:
            x, y = x.astype(np.float32), y.astype(np.float32)
        q = queries(m, x)
        m.case(k=k, endpoints=ends, x=x, y=y, q=q)

        def get(what, z, *a):
            z = z.astype(np.float32) if not m.x64 else z

            def f(x, y, z):
                s = make(x, y, k, ends)
                return s(z) if what == "call" else getattr(s, what)(z, *a)
            return m.call("evaluates", lambda: jax.jit(f)(x, y, z))
        observe(m, k, ends, x, y, get, q, ", traced")
        Y = np.stack([y, y[::-1], 2 * y])
        got = m.call("evaluates", lambda: jax.vmap(lambda y: make(x, y, k, ends)(q))(Y))
        want = np.stack([truth(x, v, k, ends)[0](np.asarray(q, float)) for v in Y])
        e = tol(m, 1e-11, 3e-5) * (1 + len(x)) + tol(m, 1e-13, 1e-6) * np.abs(x).max() / np.diff(np.asarray(x, float)).min()
        m.close("degree %d: batches of ordinates" % k, got, want, atol=e * np.abs(want).max() * 30 + e * np.abs(y).max() * 30)


KINDS = {"eager": eager, "traced": traced}
