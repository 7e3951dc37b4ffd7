"""Descriptions of biases and probes: build() makes the real ones, the rest is reference."""
import jax.numpy as jnp
import numpy as np
from scipy import integrate, interpolate

import jax_cosmo.bias as jbias
import jax_cosmo.probes as jprobes
from rv import gen, oracle
from rv.checks.c02 import chi_tol
from rv.checks.c04 import growth_tol
from rv.checks.c09 import STERADIAN, Spec, spec

BIAS = {"constant": jbias.constant_linear_bias, "inverse": jbias.inverse_growth_linear_bias, "ia": jbias.des_y1_ia_bias}


class Bias:
    def __init__(self, kind, *args):
        self.kind, self.args = kind, [float(a) for a in args]

    def build(self, arrays=False):
        return BIAS[self.kind](*[jnp.asarray(a) if arrays else a for a in self.args])

    def value(self, r, z):
        z = np.asarray(z, float)
        if self.kind == "constant":
            return self.args[0] + 0 * z
        if self.kind == "inverse":
            return self.args[0] / r.D(1 / (1 + z))
        A, eta, z0 = self.args
        return A * ((1 + z) / (1 + z0)) ** eta

    def rerr(self, m, r, z):
        """relative error allowed"""
        if self.kind == "inverse":
            a = 1 / (1 + np.asarray(z, float))
            return growth_tol(m, r, a, r.D(a)) / r.D(a)
        return 0 * np.asarray(z, float)

    def describe(self):
        return [self.kind] + self.args


def bias(rng, kinds=("constant", "inverse", "ia")):
    k = gen.pick(rng, *kinds)
    u = rng.uniform
    if k == "ia":
        return Bias(k, gen.pick(rng, u(-2, 2), 1.0, u(0.1, 4)), gen.pick(rng, 0.0, u(-3, 3)), u(0, 1))
    return Bias(k, gen.pick(rng, 1.0, u(0.3, 3)))


def one_or_list(rng, n, f, plist=0.6):
    return [f() for _ in range(n)] if rng.random() < plist else f()


def at(x, i):
    return x[i] if isinstance(x, list) else x


def built(x, arrays):
    if isinstance(x, list):
        return [b.build(arrays) for b in x]
    return x.build(arrays)


def described(x):
    return [b.describe() for b in x] if isinstance(x, list) else None if x is None else x.describe()


class Probe:
    """kind "wl" or "nc"; m, sigma, bias: one or one per bin (a list)."""

    def __init__(self, kind, bins, bias=None, m=None, sigma=None):
        self.kind, self.bins, self.bias, self.m, self.sigma = kind, bins, bias, m, sigma

    def build(self, arrays=False):
        w = (lambda x: [jnp.asarray(v) for v in x] if isinstance(x, list) else jnp.asarray(x)) if arrays else (lambda x: x)
        nz = [b.build(arrays) for b in self.bins]
        if self.kind == "nc":
            return jprobes.NumberCounts(nz, built(self.bias, arrays))
        kw = {}
        if self.bias is not None:
            kw["ia_bias"] = built(self.bias, arrays)
        if self.m is not None:
            kw["multiplicative_bias"] = w(self.m)
        if self.sigma is not None:
            kw["sigma_e"] = self.sigma
        return jprobes.WeakLensing(nz, **kw)

    def zmax(self):
        return max(b.top() for b in self.bins)

    def noise(self):
        g = np.array([1.0 if b.gals is None else b.gals for b in self.bins], float) * STERADIAN
        if self.kind == "nc":
            return 1 / g
        s = np.array([at(0.26 if self.sigma is None else self.sigma, i) for i in range(len(self.bins))], float)
        return s**2 / g

    def describe(self):
        return dict(kind=self.kind, bins=[b.describe() for b in self.bins], bias=described(self.bias), m=self.m, sigma=self.sigma)

    def kernel(self, mon, r, z, ell, fine=4097):
        """(kernel, tolerance) of shape (nbins, nz)"""
        z = np.atleast_1d(np.asarray(z, float))
        top = self.zmax()
        a = 1 / (1 + z)
        K, T = np.zeros((len(self.bins), z.size)), np.zeros((len(self.bins), z.size))
        norms = [b.norm() for b in self.bins]
        lf = np.sqrt((ell - 1.0) * ell * (ell + 1.0) * (ell + 2.0)) / (ell + 0.5) ** 2
        H = r.H(a)
        lib = 1e-10 if mon.x64 else 2e-4
        if self.kind == "nc" or self.bias is not None:
            for i, b in enumerate(self.bins):
                q = at(self.bias, i)
                n = density(b, norms[i][0], z)
                v = n * q.value(r, z) * H
                e = np.abs(v) * (1.5 * norms[i][1] + q.rerr(mon, r, z) + lib)
                if not mon.x64:  # redshifts are rounded
                    e = e + np.abs(q.value(r, z)) * H * slope(b, norms[i][0], z) * 4e-6
                if self.kind == "wl":
                    D = r.D(a)
                    f = oracle.C1 * oracle.RHOCRIT * r.Om / D * lf
                    e = f * (e + np.abs(v) * growth_tol(mon, r, a, D) / D)
                    v = -f * v
                K[i], T[i] = K[i] + v, T[i] + e
        if self.kind == "wl":
            g = np.linspace(0, top, 801)
            chi = interpolate.CubicSpline(g, r.chi(1 / (1 + g)))
            ct = lambda y: np.interp(y, g, chi_tol(mon, r, 1 / (1 + g), chi(g)))
            pre = 1.5 * 100.0**2 / oracle.C_KMS * r.Om * lf
            for i, b in enumerate(self.bins):
                for j, x in enumerate(z):
                    cx, dx = chi(x), ct(x)
                    if b.kind == "delta":
                        y = b.args[0]
                        cy, dy = max(chi(y), 1e-30), ct(y)
                        I = max(cy - cx, 0) / max(cy, 1.0)
                        e = (dx + dy) / max(cy, 1.0)
                        cut = 0.0
                    else:
                        def w(n):
                            y = np.linspace(x, top, n)
                            p = density(b, norms[i][0], y)
                            c = chi(y)
                            return y, p, c, p * np.clip(c - cx, 0, None) / np.clip(c, 1.0, None)
                        y, p, c, v = w(fine)
                        I = integrate.simpson(v, x=y) if top > x else 0.0
                        y, p, c, v = w(257)
                        S = integrate.simpson(v, x=y) if top > x else 0.0
                        cut = 1.5 * abs(I - S) + 1.5 * norms[i][1] * abs(I)
                        e = integrate.simpson(p * (dx + ct(y)) / np.clip(c, 1.0, None), x=y) if top > x else 0.0
                        e = abs(e) + 1e-7 + (0 if mon.x64 else 1e-4)
                    K[i, j] += pre * (1 + x) * cx * I
                    T[i, j] += pre * (1 + x) * (cx * (1.05 * e + cut) + I * dx + lib * cx * I)
            mm = np.array([at(0.0 if self.m is None else self.m, i) for i in range(len(self.bins))], float)[:, None]
            K, T = K * (1 + mm), T * np.abs(1 + mm) + lib * np.abs(K)
        return K, T + 1e-13 * np.abs(K)


def density(b, norm, z):
    return b.density()(z) / norm


def slope(b, norm, z, e=1e-6):
    p = b.density()
    return np.abs(p(z + e) - p(np.maximum(z - e, 0))) / (2 * e) / norm * (z > 0)


def probe(rng, kind=None, n=None, structure=None, ztop=(1.5, 4.0)):
    """structure: fixes what jit compiles anew (kinds of bins, of biases, lists)."""
    kind = kind or gen.pick(rng, "wl", "nc")
    n = n or int(gen.pick(rng, 1, 2, 3, 4))
    s = structure or Structure(rng, kind, n)
    bins = []
    for k in s.bins:
        while True:
            b = spec(rng, (k,))
            if b.kind == "shift" and b.parent.kind == "shift":
                continue
            b.zmax = s.zmax if s.zmax else float(np.round(rng.uniform(*ztop), 2))
            if b.kind == "delta":
                b.args[0] = float(np.round(rng.uniform(0.1, 0.95 * min(b.zmax, 3)), 3))
            if b.kind == "kde":
                if s.ncat:
                    b.args = [rng.uniform(0.15, 0.7 * min(b.zmax, 3), s.ncat), rng.uniform(0.2, 2, s.ncat)]
                b.config = dict(bw=s.bw or float(rng.uniform(0.04, 0.09) * b.zmax))
            nm, e = b.norm()
            if nm > 1e-8 and e < 0.01:
                break
        if s.gals:
            b.gals = float(rng.uniform(0.5, 30))
        bins.append(b)
    u = rng.uniform
    if kind == "nc":
        bs = [Bias(k, u(0.3, 3)) if k != "ia" else Bias(k, u(0.3, 3), u(-1, 2), u(0, 1)) for k in s.bias]
        return Probe(kind, bins, bs if s.bias_list else bs[0])
    ia = None
    if s.ia:
        bs = [Bias("ia", u(-2, 3), u(-2, 2), u(0, 1)) if k == "ia" else Bias(k, u(0.2, 2)) for k in s.bias]
        ia = bs if s.bias_list else bs[0]
    mm = {"none": None, "one": float(u(-0.1, 0.2)), "list": [float(x) for x in u(-0.2, 0.2, n)]}[s.m]
    sg = {"none": None, "one": float(u(0.1, 0.5)), "list": [float(x) for x in u(0.1, 0.5, n)]}[s.sigma]
    return Probe(kind, bins, ia, mm, s.sigma_value or sg)


class Structure:
    def __init__(self, rng, kind, n, delta=None, fixed=False):
        pick = gen.pick
        kinds = ["smail", "kde", "shift"]
        self.ia = kind == "wl" and rng.random() < 0.45
        if kind == "wl" and not self.ia:
            kinds += ["delta", "delta"]
        if delta is False:
            kinds = [k for k in kinds if k != "delta"]
        if delta:
            kinds, self.ia = ["delta"], False
        self.bins = [pick(rng, *kinds) for _ in range(n)]
        self.bias = [pick(rng, "constant", "inverse") if kind == "nc" and rng.random() < 0.9 else
                     pick(rng, "ia", "ia", "constant") for _ in range(n)]
        self.bias_list = rng.random() < 0.6
        self.m = pick(rng, "none", "one", "list")
        self.sigma = pick(rng, "none", "one", "list")
        self.gals = True
        self.zmax = None
        self.ncat = self.bw = self.sigma_value = None
        if fixed:  # nothing that is part of the compiled function changes
            self.zmax = float(np.round(rng.uniform(1.8, 3.5), 2))
            self.ncat = int(pick(rng, 1, 4))
            self.bw = 0.06 * self.zmax
            self.bins = [k if k != "shift" else "smail" for k in self.bins]
            if kind == "wl":
                self.sigma_value = {"none": None, "one": 0.3, "list": [0.2 + 0.05 * i for i in range(n)]}[self.sigma]
