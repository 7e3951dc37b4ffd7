"""C09: redshift distributions."""
import jax
import jax.numpy as jnp
import numpy as np
from scipy import integrate

import jax_cosmo.redshift as rds
from rv import gen, oracle
from rv.lib import N, jit, tol

STERADIAN = 11818102.86004228


class Spec:
    """A distribution described without the library: build() makes the real one."""

    def __init__(self, kind, args, zmax, gals, config=None, parent=None):
        self.kind, self.args, self.zmax, self.gals = kind, args, zmax, gals
        self.config, self.parent = config or {}, parent

    def build(self, arrays=False):
        w = (lambda x: jnp.asarray(x)) if arrays else (lambda x: x)
        kw = dict(self.config)
        if self.zmax is not None:
            kw["zmax"] = self.zmax
        if self.gals is not None:
            kw["gals_per_arcmin2"] = self.gals
        cls = {"smail": rds.smail_nz, "kde": rds.kde_nz, "shift": rds.systematic_shift, "delta": rds.delta_nz}[self.kind]
        args = [w(x) for x in self.args]
        if self.kind == "shift":
            args = [self.parent.build(arrays)] + args
        return cls(*args, **kw)

    def top(self):
        return 10.0 if self.zmax is None else self.zmax

    def density(self):
        if self.kind == "smail":
            return oracle.smail(*self.args)
        if self.kind == "kde":
            return oracle.kde(self.args[0], self.args[1], self.config["bw"])
        if self.kind == "shift":
            return oracle.shifted(self.parent.density(), self.args[0])
        z0 = self.args[0]
        return lambda z: np.where(np.asarray(z) == z0, 1.0, 0.0)

    def norm(self):
        """(norm, relative error of the documented 256-interval Simpson rule)"""
        if self.kind == "delta":
            return 1.0, 0.0
        p = self.density()
        fine = oracle.normalise(p, self.top(), 20001)
        z = np.linspace(0, self.top(), 257)
        return fine, abs(integrate.simpson(p(z), x=z) / fine - 1)

    def describe(self):
        d = dict(kind=self.kind, args=self.args, zmax=self.zmax, gals=self.gals, **self.config)
        if self.parent:
            d["parent"] = self.parent.describe()
        return d


def spec(rng, kinds=("smail", "kde", "shift"), depth=0):
    while True:
        kind = gen.pick(rng, *kinds)
        zmax = gen.pick(rng, None, float(np.round(rng.uniform(1.5, 6), 2)), 10.0, 3)
        gals = gen.pick(rng, None, float(rng.uniform(0.1, 40)), 1.0, 3)
        if kind == "smail":
            s = Spec(kind, [gen.pick(rng, 2.0, 1.0, float(rng.uniform(0.3, 4))),
                            gen.pick(rng, 1.5, 1.0, float(rng.uniform(0.6, 3))),
                            float(rng.uniform(0.15, 1.2))], zmax, gals)
        elif kind == "kde":
            n = int(gen.pick(rng, 1, 2, 5, 40))
            hi = 10.0 if zmax is None else zmax
            zc = rng.uniform(0.1, 0.8 * min(hi, 4), n)
            w = gen.pick(rng, 0, 1, 2)
            w = np.ones(n) if w == 0 else rng.uniform(0.01, 1, n) if w == 1 else rng.uniform(0.5, 30, n)
            if n > 2 and rng.random() < 0.3:
                w[rng.integers(n)] = 0.0
            s = Spec(kind, [zc, w], zmax, gals, dict(bw=float(rng.uniform(0.02, 0.08) * hi)))
        elif kind == "shift":
            # a shift evaluates the parent up to its own zmax
            parent = spec(rng, ("smail", "kde", "shift") if depth < 1 else ("smail", "kde"), depth + 1)
            s = Spec(kind, [gen.pick(rng, 0.0, float(rng.uniform(-0.15, 0.25)), float(rng.normal(0, 0.02)))],
                     zmax, gals, parent=parent)
        else:
            s = Spec("delta", [float(np.round(rng.uniform(0.05, 3), 3))], zmax, gals)
        norm, err = s.norm()
        if norm > 1e-8 and err < 0.02:
            return s


def rescaled(s, f):
    """The same distribution with its redshift axis stretched by f."""
    a = list(s.args)
    if s.kind == "smail":
        a[2] *= f
    elif s.kind == "kde":
        a[0] = a[0] * f
    else:
        a[0] *= f
    c = dict(s.config, bw=s.config["bw"] * f) if "bw" in s.config else s.config
    return Spec(s.kind, a, s.top() * f, s.gals, c, s.parent and rescaled(s.parent, f))


def any_spec(m):
    s = spec(m.rng)
    if m.rng.random() < 0.2:  # very near, or very far
        s = rescaled(s, gen.pick(m.rng, 10 ** m.rng.uniform(-2, 0), m.rng.uniform(1, 3)))
    return s


def redshifts(m, s):
    n = int(gen.pick(m.rng, 1, 2, 3, 16, 40))
    z = m.rng.uniform(0, s.top(), n)
    if n > 1:
        z[0] = 0.0
        z[-1] = s.top()
    if n > 3 and m.rng.random() < 0.3:
        z = np.sort(m.rng.uniform(0, min(s.top(), 2.0), n))
    if m.rng.random() < 0.1:
        z = np.arange(n)
    if m.rng.random() < 0.1:
        return float(z[0])
    return z if m.x64 or z.dtype.kind == "i" else z.astype(np.float32)


def observe(m, s, z, got, note=""):
    norm, err = s.norm()
    p = s.density()
    zf = np.asarray(z, float)
    want = p(zf) / norm
    # slope: single precision rounds differences of redshifts
    e = 1e-6
    slope = np.abs(p(zf + e) - p(np.maximum(zf - e, 0))) / (2 * e) / norm
    name = {"smail": "Smail", "kde": "kernel density", "shift": "shifted", "delta": "delta plane"}[s.kind]
    bad0 = (zf == 0) if s.kind != "kde" else np.zeros_like(zf, bool)
    slope = np.where(bad0, 0, slope)
    m.close(name + note, got, want, rtol=1.5 * err + tol(m, 1e-8, 4e-5),
            atol=tol(m, 1e-13, 3e-5 + 3e-6 * slope), z=z,
            shape=None if np.ndim(z) == 0 else True)


def fields(m, s, nz):
    m.observe("zmax is what it was built with", nz.zmax == s.top(), got=nz.zmax, want=s.top())
    g = 1.0 if s.gals is None else s.gals
    m.close("galaxies per arcmin^2", nz.gals_per_arcmin2, g, rtol=tol(m, 1e-14, 1e-6))
    m.close("galaxies per steradian", nz.gals_per_steradian, g * STERADIAN, rtol=tol(m, 1e-10, 1e-6))


def eager(m, cases):
    for _ in range(cases):
        s = any_spec(m)
        m.case(nz=s.describe())
        nz = m.call("builds", lambda: s.build(m.rng.random() < 0.4))
        fields(m, s, nz)
        for n in range(3):
            z = redshifts(m, s)
            q = jnp.asarray(z) if m.rng.random() < 0.5 else z
            observe(m, s, z, m.call("evaluates", lambda: nz(q)), ", call %s" % ("1" if n == 0 else "2+"))
        # unit integral, on a grid finer than that of the normalisation
        z = np.linspace(0, s.top(), 8001)
        y = N(m.call("evaluates", lambda: nz(jnp.asarray(z)))).astype(float)
        if y.shape == z.shape:
            err = s.norm()[1]
            m.close("integrates to one", integrate.simpson(y, x=z), 1.0, atol=1.5 * err + tol(m, 1e-7, 1e-4))
            m.observe("never negative", (y >= 0).all())


def jitted(m, cases):
    """The distribution is an argument of a jitted function: all parameters traced."""
    call = jit(lambda nz, z: (nz(z), nz.gals_per_steradian), "call")
    for _ in range(cases):
        s = any_spec(m)
        m.case(nz=s.describe())
        nz = s.build(m.rng.random() < 0.5)
        for _ in range(2):
            z = np.atleast_1d(redshifts(m, s))
            got, g = m.call("evaluates", lambda: call(nz, jnp.asarray(z)))
            observe(m, s, z, got, ", traced")
            m.close("galaxies per steradian", g, (1.0 if s.gals is None else s.gals) * STERADIAN, rtol=tol(m, 1e-10, 1e-6))


def delta(m, cases):
    for _ in range(cases):
        s = spec(m.rng, ("delta",))
        m.case(nz=s.describe())
        nz = s.build(m.rng.random() < 0.4)
        fields(m, s, nz)
        z0 = np.float32(s.args[0]) if not m.x64 else s.args[0]
        z = np.array([0.0, z0, z0 + 0.01, z0 - 0.01, 3.3, z0])
        if not m.x64:
            z = z.astype(np.float32)
        want = np.array([0, 1, 0, 0, 0, 1.0])
        z, want = z[:k] if (k := int(m.rng.integers(2, 7))) else z, want[:k]
        m.close("delta plane", m.call("evaluates", lambda: nz(z)), want)
        m.close("delta plane, traced", m.call("evaluates", lambda: jit(lambda n, z: n(z), "d")(nz, jnp.asarray(z))), want)


def invariances(m, cases):
    for _ in range(cases):
        s = spec(m.rng, ("kde",))
        m.case(nz=s.describe())
        zc, w = s.args
        z = np.linspace(0, s.top(), 33)
        if not m.x64:
            z = z.astype(np.float32)
        r = m.rng.permutation(len(zc))
        base = N(m.call("evaluates", lambda: s.build()(z)))
        t = tol(m, 1e-11, 2e-4)
        for what, args in (("permuting the catalogue", [zc[r], w[r]]), ("rescaling the weights", [zc, w * 3.7]),
                           ("dropping weightless galaxies", [zc[w > 0], w[w > 0]]),
                           ("doubling the catalogue", [np.r_[zc, zc], np.r_[w, w]])):
            o = Spec("kde", args, s.zmax, s.gals, s.config)
            m.close(what + " changes nothing", m.call("evaluates", lambda: o.build()(z)), base, rtol=t, atol=t * 0.1)
        sh = Spec("shift", [0.0], s.zmax, None, parent=s)
        m.close("a zero shift changes nothing", m.call("evaluates", lambda: sh.build()(z)), base, rtol=t, atol=t * 0.1)


KINDS = {"eager": eager, "jitted": jitted, "delta": delta, "invariances": invariances}
