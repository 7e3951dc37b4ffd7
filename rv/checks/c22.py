"""C22: cosmological parameters and conversions."""
import re

import jax
import jax.numpy as jnp
import numpy as np

import jax_cosmo as jc
import jax_cosmo.utils as utils
from rv import gen
from rv.lib import N, cosmology, jit, tol

NAMES = ("Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa")
PLANCK = dict(Omega_c=0.2589, Omega_b=0.0486, Omega_k=0.0, h=0.6774, n_s=0.9667, sigma8=0.8159, w0=-1.0, wa=0.0)


def derived(p):
    m = p["Omega_c"] + p["Omega_b"]
    k = p["Omega_k"]
    return dict(Omega_m=m, Omega=1 - k, Omega_de=1 - k - m, k=-np.sign(k), sqrtk=np.sqrt(abs(k)))


def observe(m, c, p, note=""):
    for n in NAMES:
        m.close("reports " + n + note, getattr(c, n), p[n], rtol=tol(m, 0, 1e-6), shape=None)
    g = p.get("gamma")
    if g is None:
        m.observe("no gamma unless given" + note, c.gamma is None, got=c.gamma)
    else:
        m.close("reports gamma" + note, c.gamma, g, rtol=tol(m, 0, 1e-6), shape=None)
    for n, w in derived(p).items():
        m.close("derived " + n + note, getattr(c, n), w, atol=tol(m, 1e-14, 1e-6 if n != "sqrtk" else 1e-7), rtol=tol(m, 0, 2e-7), shape=None)


def given(m, v):
    w = m.rng.integers(4)
    f = float if m.x64 else np.float32
    return [lambda: v, lambda: np.asarray(v, f), lambda: jnp.asarray(v), lambda: f(v)][w]()


def draw(m):
    p = gen.params(gen.ref(m.rng, gamma="maybe"))
    for n in NAMES[:-3]:  # values that only a parameter object sees
        if m.rng.random() < 0.1:
            p[n] = float(m.rng.uniform(0.01, 2))
    if m.rng.random() < 0.1:
        p.update(Omega_k=0, w0=-1, wa=0)
    if "gamma" in p and m.rng.random() < 0.3:
        p["gamma"] = gen.pick(m.rng, 0.0, 1.0, float(m.rng.uniform(-0.5, 2)))
    return p


ORDER = ("Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa", "gamma")


def objects(m, cases):
    for _ in range(cases):
        p = draw(m)
        m.case(params=p)
        q = {k: given(m, v) for k, v in p.items()}
        keys = list(q)
        m.rng.shuffle(keys)
        c = m.call("builds", lambda: jc.Cosmology(**{k: q[k] for k in keys}))
        observe(m, c, p)
        # in the order of the signature
        c = m.call("builds", lambda: jc.Cosmology(*[q[k] for k in ORDER if k in q]))
        observe(m, c, p, ", by position")
        s = m.call("prints", lambda: str(c))
        for n, v in p.items():
            f = float(np.float32(v)) if not m.x64 else v
            label = r"\b(%s)\b" % ("n_s|n" if n == "n_s" else re.escape(n))
            nums = [float(t) for line in s.splitlines() if re.search(label, line)
                    for t in re.findall(r"[-+]?\d*\.?\d+(?:[eE][-+]?\d+)?", re.sub(label, "", line))]
            m.observe("printed form shows " + n, any(abs(t - f) <= 1e-5 + 1e-5 * abs(f) for t in nums), printed=s[:900], want=f)


def read(c):
    g = () if c.gamma is None else (c.gamma,)
    return [getattr(c, n) for n in NAMES], [c.Omega_m, c.Omega, c.Omega_de, c.k, c.sqrtk], g


def check(m, out, p, note):
    a, d, g = out
    m.close("reports its parameters" + note, np.array([float(x) for x in a]), [p[n] for n in NAMES], rtol=tol(m, 0, 1e-6))
    m.close("derived parameters" + note, np.array([float(x) for x in d]), list(derived(p).values()), atol=tol(m, 1e-14, 1e-6))
    m.observe("gamma" + note, (len(g) == 0) == ("gamma" not in p) and (not g or abs(float(g[0]) - p["gamma"]) < 1e-6), got=g)


def traced(m, cases):
    f, f2 = jit(read, "read"), jit(lambda p: read(jc.Cosmology(**p)), "build and read")
    v = jit(jax.vmap(lambda p: read(jc.Cosmology(**p))), "batch")
    for _ in range(cases):
        p = draw(m)
        m.case(params=p)
        q = {k: float(x) for k, x in p.items()}
        check(m, m.call("traces", lambda: f(jc.Cosmology(**q))), p, ", as an argument")
        check(m, m.call("traces", lambda: f2(q)), p, ", built inside")
        o = [draw(m) for _ in range(3)]
        o = [{**x, **({"gamma": 0.5 + 0.1 * i} if "gamma" in p else {})} for i, x in enumerate(o)]
        if "gamma" not in p:
            [x.pop("gamma", None) for x in o]
        out = m.call("traces", lambda: v({k: jnp.array([float(x[k]) for x in o]) for k in p}))
        for i, x in enumerate(o):
            check(m, jax.tree_util.tree_map(lambda y: y[i], out), x, ", in a batch")


def planck(m, cases):
    for _ in range(cases):
        ks = [k for k in NAMES if m.rng.random() < 0.4]
        new = {k: float(m.rng.uniform(0.02, 1.1)) * (1 if k not in ("Omega_k", "w0", "wa") else gen.pick(m.rng, 1, -1)) for k in ks}
        if m.rng.random() < 0.4:
            new["gamma"] = gen.pick(m.rng, float(m.rng.uniform(0.4, 0.7)), 0.0)
        m.case(overrides=new)
        observe(m, m.call("builds", lambda: jc.Planck15(**{k: given(m, v) for k, v in new.items()})), {**PLANCK, **new}, ", Planck15 overridden")
        observe(m, m.call("builds", lambda: jc.Planck15()), PLANCK, ", Planck15")
        import jax_cosmo.parameters as jp
        observe(m, m.call("builds", lambda: jp.Planck15()), PLANCK, ", Planck15")


def conversions(m, cases):
    for _ in range(cases):
        n = gen.size(m.rng)
        z = gen.pick(m.rng, m.rng.uniform(0, 10, n), 10 ** m.rng.uniform(-4, 3, n), np.zeros(n))
        if m.rng.random() < 0.2:
            z = float(z[0])
        elif m.rng.random() < 0.2:
            z = np.arange(n)
        if not m.x64 and getattr(z, "dtype", None) == float:
            z = z.astype(np.float32)
        m.case(z=z)
        zf = np.asarray(z, float)
        for note, a2z, z2a in (("", utils.a2z, utils.z2a), (", traced", jit(utils.a2z, "a2z"), jit(utils.z2a, "z2a"))):
            a = m.call("converts", lambda: z2a(jnp.asarray(z) if note or m.rng.random() < 0.5 else z))
            m.close("z2a" + note, a, 1 / (1 + zf), rtol=tol(m, 1e-14, 1e-6))
            b = m.call("converts", lambda: a2z(a))
            m.close("a2z is its inverse" + note, b, zf, rtol=tol(m, 1e-12, 1e-6), atol=tol(m, 1e-14, 3e-7) * (1 + zf.max()))
            am = np.minimum(np.asarray(1 / (1 + zf)), 1).astype(float if m.x64 else np.float32)
            m.close("a2z" + note, m.call("converts", lambda: a2z(am)), 1 / am.astype(float) - 1, rtol=tol(m, 1e-12, 1e-6), atol=tol(m, 1e-14, 3e-7))
            m.close("z2a is its inverse" + note, m.call("converts", lambda: z2a(a2z(am))), am, rtol=tol(m, 1e-12, 2e-6))


KINDS = {"objects": objects, "traced": traced, "planck": planck, "conversions": conversions}
