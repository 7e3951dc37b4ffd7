"""Generators of inputs: random, biased towards the special values of each domain."""
import numpy as np

from rv.oracle import Ref


def pick(rng, *xs, p=None):
    return xs[rng.choice(len(xs), p=p)]


def ref(rng, gamma=None, tame=False, flat=None, **fixed):
    """A reference cosmology that expands all the way from a=1e-3 to today.

    gamma: None never, "maybe", "always", or "any" (exotic values as well).  tame: closer to the observed one.
    """
    while True:
        u = rng.uniform
        if tame:
            p = dict(
                Omega_c=u(0.15, 0.4), Omega_b=u(0.03, 0.07), h=u(0.55, 0.85),
                n_s=pick(rng, 1.0, u(0.88, 1.05), p=[0.1, 0.9]), sigma8=u(0.6, 1.0),
                Omega_k=pick(rng, 0.0, u(-0.1, 0.1), p=[0.5, 0.5]),
                w0=pick(rng, -1.0, u(-1.3, -0.7), p=[0.4, 0.6]),
                wa=pick(rng, 0.0, u(-0.5, 0.3), p=[0.4, 0.6]),
            )
        else:
            p = dict(
                Omega_c=pick(rng, u(0.05, 0.8), u(0.15, 0.4)), Omega_b=u(0.01, 0.15),
                h=u(0.4, 1.0), n_s=pick(rng, 1.0, u(0.8, 1.2), p=[0.15, 0.85]),
                sigma8=u(0.4, 1.2),
                Omega_k=pick(
                    rng, 0.0, u(-0.3, 0.3), pick(rng, 1, -1) * 10 ** u(-9, -2),
                    p=[0.35, 0.5, 0.15],
                ),
                w0=pick(rng, -1.0, u(-1.6, -0.5), p=[0.3, 0.7]),
                wa=pick(rng, 0.0, u(-1.0, 0.5), p=[0.3, 0.7]),
            )
        g = None
        if gamma == "always" or (gamma == "maybe" and rng.random() < 0.35):
            g = pick(rng, 0.55, 1.0, u(0.4, 0.8), p=[0.2, 0.1, 0.7])
        if gamma == "any":
            g = pick(rng, 0.55, 0.0, 1.0, u(0.3, 0.9), u(-0.3, 2.0))
        p.update(fixed)
        if flat:
            p["Omega_k"] = 0.0
        if p["w0"] + p["wa"] > -0.3 or p["Omega_b"] > 0.8 * p["Omega_c"]:
            continue
        r = Ref(gamma=g, **{k: float(v) for k, v in p.items()})
        a = np.exp(np.linspace(np.log(1e-3), 0, 400))
        e2 = r.E2(a)
        if e2.min() <= 0.1 or r.Om_a(a).max() > 1.6:
            continue
        return r


def params(r):
    d = {n: getattr(r, n) for n in r.NAMES}
    if r.gamma is not None:
        d["gamma"] = r.gamma
    return d


def scale_factors(rng, n, amin=1e-3, edges=True):
    """n scale factors in [amin, 1], log uniform or uniform in z or a."""
    kind = rng.integers(3)
    if kind == 0:
        a = np.exp(rng.uniform(np.log(amin), 0, n))
    elif kind == 1:
        a = 1 / (1 + rng.uniform(0, 4, n))
    else:
        a = rng.uniform(amin, 1, n)
    a = np.clip(a, amin, 1.0)
    if edges and n >= 3:
        a[rng.integers(n)] = 1.0
        if rng.random() < 0.5:
            a[rng.integers(n)] = amin
        if rng.random() < 0.5:
            a[rng.integers(n)] = 0.5
    if rng.random() < 0.4:
        a = np.sort(a)
        if rng.random() < 0.5:
            a = a[::-1].copy()
    return a


def wavenumbers(rng, n, kmin=1e-4, kmax=1e2):
    k = np.exp(rng.uniform(np.log(kmin), np.log(kmax), n))
    return np.sort(k) if rng.random() < 0.5 else k


def size(rng):
    return int(pick(rng, 1, 2, 3, 8, 33, 64))
