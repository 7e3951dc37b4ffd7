"""C19: quadrature and Runge-Kutta."""
import jax
import jax.numpy as jnp
import numpy as np
from scipy import integrate

from jax_cosmo.scipy.integrate import romb, simps
from jax_cosmo.scipy.ode import odeint
from rv import gen
from rv.lib import N, tol

FUNS = {
    "exp": (lambda x, p: jnp.exp(p * x), lambda x, p: np.exp(p * x)),
    "sin": (lambda x, p: jnp.sin(3 * p * x) + x, lambda x, p: np.sin(3 * p * x) + x),
    "lorentz": (lambda x, p: 1 / (1 + p * p * x * x), lambda x, p: 1 / (1 + p * p * x * x)),
    "abs": (lambda x, p: jnp.abs(x - p), lambda x, p: np.abs(x - p)),
}


def bounds(m):
    a, b = m.rng.uniform(-2, 2, 2)
    if m.rng.random() < 0.2:
        a, b = gen.pick(m.rng, (0, 1), (1, 0), (-2, 2), (1.5, 1.5))
    return a, b


def poly(c, x):
    """the polynomials, abscissa first"""
    return sum(c[j] * x.reshape(x.shape + (1,) * (np.ndim(c) - 1)) ** j for j in range(len(c)))


def poly_int(c, a, b):
    return sum(np.asarray(c[j], float) * (b ** (j + 1) - a ** (j + 1)) / (j + 1) for j in range(len(c)))


def rule(f, a, b, n):
    x = np.linspace(a, b, n + 1)
    y = f(x)
    return (b - a) / n / 3 * (y[0] + y[-1] + 4 * y[1:-1:2].sum(0) + 2 * y[2:-2:2].sum(0))


def simpson(m, cases):
    for _ in range(cases):
        a, b = bounds(m)
        n = gen.pick(m.rng, None, 2, 4, 10, 64, 256, 1000)
        shape = gen.pick(m.rng, (), (3,), (2, 3))
        c = m.rng.normal(size=(4,) + shape)
        name = gen.pick(m.rng, *FUNS)
        p = m.rng.uniform(0.2, 2)
        m.case(a=a, b=b, n=n, c=c, fun=name, p=p)
        kw = {} if n is None else dict(N=n)
        n = n or 128
        cj = jnp.asarray(c)
        big = tol(m, 1e-13, 2e-5) * (1 + np.abs(c).sum(0) * 2**5)
        W = poly_int(c, a, b)
        f = lambda x: poly(cj, x)
        m.close("Simpson: cubics exactly", m.call("integrates", lambda: simps(f, a, b, **kw)), W, atol=big)
        m.close("Simpson: reversed bounds", m.call("integrates", lambda: simps(f, b, a, **kw)), -W, atol=big)
        g = jax.jit(lambda a, b, c: simps(lambda x: poly(c, x), a, b, **kw))
        m.close("Simpson: traced bounds", m.call("integrates", lambda: g(a, b, c)), W, atol=big)
        F, R = FUNS[name]
        want = rule(lambda x: R(x, p), a, b, n)
        e = tol(m, 1e-12, 1e-4) * (1 + np.exp(p * 2.0) * abs(b - a))
        m.close("Simpson: the composite rule", m.call("integrates", lambda: simps(lambda x: F(x, p), a, b, **kw)), want, atol=e)
        # several lower bounds at once, as the lensing kernels do
        A = m.rng.uniform(-2, 2, 4)
        got = m.call("integrates", lambda: simps(lambda x: F(x, p), jnp.asarray(A), b, **kw))
        m.close("Simpson: arrays of bounds", got, [rule(lambda x: R(x, p), q, b, n) for q in A], atol=e)
        m.raises("Simpson: odd number of intervals is refused", ValueError, lambda: simps(f, a, b, int(2 * m.rng.integers(0, 100) + 1)))
        if m.x64 and abs(b - a) > 0.5 and name in ("exp", "sin"):
            ex = integrate.quad(lambda x: R(x, p), a, b, epsabs=1e-13, epsrel=1e-13)[0]
            e1, e2 = [abs(float(simps(lambda x: F(x, p), a, b, N=k)) - ex) for k in (16, 32)]
            if e2 > 1e-11:
                m.observe("Simpson: fourth order", e2 < e1 / 12, errors=[e1, e2])


def romberg_table(f, a, b, d):
    T = [[(b - a) * 0.5 * (f(np.array(a)) + f(np.array(b)))]]
    for i in range(1, d + 1):
        x = np.linspace(a, b, 2**i + 1)
        y = f(x)
        row = [(b - a) / 2**i * (y.sum() - 0.5 * (y[0] + y[-1]))]
        for k in range(1, i + 1):
            row.append((4**k * row[-1] - T[-1][k - 1]) / (4**k - 1))
        T.append(row)
    return T


def romberg(m, cases):
    for _ in range(cases):
        a, b = bounds(m)
        d = gen.pick(m.rng, None, 1, 2, 3, 5, 8)
        kw = {} if d is None else dict(divmax=d)
        d = 6 if d is None else d
        deg = 2 * d + 1
        c = m.rng.normal(size=min(deg, 13) + 1) / 2.0 ** np.arange(min(deg, 13) + 1)
        name = gen.pick(m.rng, *FUNS)
        p = m.rng.uniform(0.2, 2)
        m.case(a=a, b=b, divmax=d, c=c, fun=name, p=p)
        cj = jnp.asarray(c)
        e = tol(m, 1e-12, 2e-4) * 4 * (1 + np.abs(c * 2.0 ** np.arange(len(c))).sum())
        W = poly_int(c, a, b)
        f = lambda x: sum(cj[j] * x**j for j in range(len(c)))
        m.close("Romberg: polynomials exactly", m.call("integrates", lambda: romb(f, a, b, **kw)), W, atol=e)
        F, R = FUNS[name]
        e = tol(m, 1e-12, 2e-4) * (1 + np.exp(p * 2.0) * abs(b - a))
        T = romberg_table(lambda x: R(x, p), a, b, d)
        got = m.call("integrates", lambda: romb(F, a, b, (p,), **kw))
        m.close("Romberg: its table", got, T[-1][-1], atol=e)
        got = m.call("integrates", lambda: romb(F, b, a, args=(p,), **kw))
        m.close("Romberg: antisymmetric in its bounds", got, -T[-1][-1], atol=e)
        v, err = m.call("integrates", lambda: romb(F, a, b, args=(p,), return_error=True, **kw))
        m.close("Romberg: its table", v, T[-1][-1], atol=e)
        m.close("Romberg: last change", err, abs(T[-1][-1] - T[-2][-1]), atol=e)
        w = [float(x) for x in m.rng.normal(size=2)]
        more = lambda x, p, u=0.0, v=1.0: u * F(x, p) + v * x
        got = m.call("integrates", lambda: romb(more, a, b, args=(p, w[0], w[1]), **kw))
        m.close("Romberg: several arguments, in order", got, w[0] * T[-1][-1] + w[1] * (b * b - a * a) / 2, atol=e * (abs(w[0]) + abs(w[1]) + 1) * 4)
        got = m.call("integrates", lambda: romb(more, a, b, args=(p, w[0]), **kw))
        m.close("Romberg: several arguments, in order", got, w[0] * T[-1][-1] + (b * b - a * a) / 2, atol=e * (abs(w[0]) + 2) * 4)
        s = m.rng.normal(size=2)
        lin = m.call("integrates", lambda: romb(lambda x: s[0] * F(x, p) + s[1] * x, a, b, **kw))
        m.close("Romberg: linear in the integrand", lin, s[0] * T[-1][-1] + s[1] * (b * b - a * a) / 2, atol=e * (abs(s[0]) + 1) * 4)
        g = jax.jit(lambda a, b, p: romb(F, a, b, args=(p,), **kw))
        m.close("Romberg: traced bounds and arguments", m.call("integrates", lambda: g(a, b, p)), T[-1][-1], atol=e)
        if name == "exp" and m.x64:
            m.close("Romberg: converges with divmax", m.call("integrates", lambda: romb(F, a, b, args=(p,), divmax=7)),
                    (np.exp(p * b) - np.exp(p * a)) / p, atol=1e-10 * np.exp(2 * p))


SYSTEMS = {
    "linear": (lambda y, t: -y * 0.7 + jnp.sin(t), lambda y, t: -y * 0.7 + np.sin(t), ()),
    "riccati": (lambda y, t: y * (1 - y) * jnp.cos(t), lambda y, t: y * (1 - y) * np.cos(t), ()),
    "oscillator": (lambda y, t: jnp.stack([y[1], -4 * y[0] + t]), lambda y, t: np.stack([y[1], -4 * y[0] + t]), (2,)),
    "matrix": (lambda y, t: y.T * t - 0.3 * y, lambda y, t: y.T * t - 0.3 * y, (2, 2)),
}


def rk4(f, y, t):
    out, s = [np.array(y, float)], t[0]
    for a, b in zip(t[:-1], t[1:]):
        h, y = b - a, out[-1]
        k1 = f(y, a)
        k2 = f(y + 0.5 * h * k1, a + 0.5 * h)
        k3 = f(y + 0.5 * h * k2, a + 0.5 * h)
        k4 = f(y + h * k3, b)
        out.append(y + h * (k1 + 2 * k2 + 2 * k3 + k4) / 6)
    return np.array(out)


def runge_kutta(m, cases):
    for _ in range(cases):
        name = gen.pick(m.rng, *SYSTEMS)
        F, R, shape = SYSTEMS[name]
        n = int(gen.pick(m.rng, 1, 2, 5, 20, 64))
        t = np.cumsum(m.rng.uniform(0.2, 1.8, n)) * m.rng.uniform(0.02, 0.2)
        t = t - t[0] + m.rng.uniform(-1, 1)
        if m.rng.random() < 0.35:
            t = t[::-1].copy()
        if m.rng.random() < 0.3:
            t = np.linspace(t[0], t[-1], n)
        y0 = m.rng.uniform(-1, 1, shape)
        if not m.x64:
            t, y0 = t.astype(np.float32), np.asarray(y0, np.float32)
        with np.errstate(all="ignore"):
            want = rk4(R, np.asarray(y0, float), np.asarray(t, float))
        if not np.abs(want).max() < 50:  # diverges
            continue
        m.case(system=name, t=t, y0=y0)
        e = tol(m, 1e-11, 1e-4) * (1 + np.abs(want).max())
        got = m.call("steps", lambda: odeint(F, jnp.asarray(y0), jnp.asarray(t)))
        m.close("RK4 at every time", got, want, atol=e)
        if N(got).shape == want.shape:
            m.close("starts from y0", N(got)[0], y0, atol=tol(m, 1e-15, 1e-7))
        got = m.call("steps", lambda: jax.jit(lambda y, t: odeint(F, y, t))(y0, t))
        m.close("RK4 at every time, traced", got, want, atol=e)
        if m.x64 and n >= 5:
            ex = integrate.solve_ivp(lambda s, y: R(y.reshape(shape), s).ravel(), (t[0], t[-1]), np.ravel(y0), method="DOP853", rtol=1e-12, atol=1e-13).y[:, -1]
            er = []
            for k in (32, 64):
                er.append(np.abs(N(odeint(F, jnp.asarray(y0), jnp.linspace(t[0], t[-1], k + 1)))[-1].ravel() - ex).max())
            if er[1] > 1e-10 and abs(t[-1] - t[0]) < 3:
                m.observe("RK4: fourth order", er[1] < er[0] / 9, errors=er)


KINDS = {"simpson": simpson, "romberg": romberg, "runge_kutta": runge_kutta}
