"""C16: objects under flattening and transformations."""
import copy

import jax
import jax.numpy as jnp
import numpy as np
from jax import tree_util as tu

import jax_cosmo as jc
import jax_cosmo.background as bk
from rv import gen, models
from rv.checks import c18
from rv.lib import N, cosmology, jit, tol

A = np.array([0.05, 0.3, 0.6, 0.9, 1.0])
Z = np.array([0.1, 0.45, 0.9, 1.3])
Q = np.array([0.2, 0.6, 1.1])


# behaviour: everything observable, as a list of arrays (traceable)
def cosmology_(c):
    out = [jnp.stack([jnp.asarray(getattr(c, n), float) for n in gen.ref.__globals__["Ref"].NAMES]),
           bk.radial_comoving_distance(c, A), bk.angular_diameter_distance(c, A), bk.growth_factor(c, A), bk.growth_rate(c, A), bk.H(c, A)]
    return out + ([] if c.gamma is None else [jnp.asarray(c.gamma, float)])


def nz_(n):
    return [n(Z), jnp.asarray(n.gals_per_arcmin2, float), jnp.asarray(n.gals_per_steradian, float), jnp.asarray(n.zmax, float)]


def bias_(b, c):
    return [b(c, Z)]


def probe_(p, c):
    return [p.kernel(c, Z, 30.0), p.noise(), jnp.asarray(p.zmax, float), jnp.asarray(p.n_tracers, float)]


def spline_(s):
    return [s(Q), s.derivative(Q), s.antiderivative(Q) - s.antiderivative(Q[:1]), jnp.asarray(float(s.k))]


# drawing: (build(values) -> object, values, change of one value)
class Item:
    """An object with the numbers it is made from."""

    def __init__(self, build, values, behave, *extra):
        self.build, self.values, self.behave, self.extra = build, [float(v) for v in values], behave, extra

    def obj(self, values=None, arrays=False):
        v = self.values if values is None else values
        return self.build([jnp.asarray(x) for x in v] if arrays else list(v))

    def siblings(self, rng, n):
        """values of other objects of the same structure"""
        return [[v + (0.02 + 0.03 * abs(v)) * rng.uniform(0.2, 1) for v in self.values] for _ in range(n)]


def cosmo_item(m):
    r = gen.ref(m.rng, gamma="maybe", tame=True)
    p = gen.params(r)
    return Item(lambda v: jc.Cosmology(**dict(zip(p, v))), p.values(), cosmology_), dict(params=p)


def cut(s):
    """numbers of a distribution, and how to rebuild it from numbers"""
    def flat(s):
        if s.kind == "kde":
            v = list(s.args[0]) + list(s.args[1])
        elif s.kind == "shift":
            v = flat(s.parent) + list(s.args)
        else:
            v = list(s.args)
        return v + ([] if s.gals is None else [s.gals])

    def build(s, v):
        kw = dict(s.config)
        if s.zmax is not None:
            kw["zmax"] = s.zmax
        if s.gals is not None:
            kw["gals_per_arcmin2"] = v.pop()
        R = jc.redshift
        if s.kind == "kde":
            n = len(s.args[0])
            w = [jnp.stack([jnp.asarray(x, float) for x in v[i : i + n]]) for i in (0, n)]
            return R.kde_nz(*w, **kw)
        if s.kind == "shift":
            b = v.pop()
            return R.systematic_shift(build(s.parent, v), b, **kw)
        return {"smail": R.smail_nz, "delta": R.delta_nz}[s.kind](*v, **kw)
    return flat(s), lambda v: build(s, list(v))


def nz_item(m):
    while True:
        s = models.spec(m.rng, ("smail", "kde", "shift", "delta"))
        if s.kind != "kde" or len(s.args[0]) < 10:
            if s.kind != "shift" or s.parent.kind != "kde" or len(s.parent.args[0]) < 10:
                if s.kind == "delta":
                    s.args = [0.45]
                v, b = cut(s)
                return Item(b, v, nz_), dict(nz=s.describe())


def bias_item(m):
    b = models.bias(m.rng)
    return Item(lambda v: models.BIAS[b.kind](*v), b.args, bias_, cosmology(gen.ref(m.rng, gamma="maybe", tame=True))), dict(bias=b.describe())


def probe_item(m):
    kind = gen.pick(m.rng, "wl", "wl", "nc")
    n = int(m.rng.integers(1, 4))
    p = models.probe(m.rng, kind, n, models.Structure(m.rng, kind, n, fixed=True))
    parts = [cut(s) for s in p.bins]
    values = sum([x[0] for x in parts], [])
    bs = p.bias if isinstance(p.bias, list) else [] if p.bias is None else [p.bias]
    ms = p.m if isinstance(p.m, list) else [] if p.m is None else [p.m]
    values = values + sum([b.args for b in bs], []) + list(ms)

    def build(v):
        v = list(v)
        take = lambda k: [v.pop(0) for _ in range(k)]
        bins = [b(take(len(x))) for x, b in parts]
        real = [models.BIAS[b.kind](*take(len(b.args))) for b in bs]
        mm = take(len(ms))
        bias = real if isinstance(p.bias, list) else real[0] if real else None
        if kind == "nc":
            return jc.probes.NumberCounts(bins, bias)
        kw = {}
        if bias is not None:
            kw["ia_bias"] = bias
        if p.m is not None:
            kw["multiplicative_bias"] = mm if isinstance(p.m, list) else mm[0]
        if p.sigma is not None:
            kw["sigma_e"] = p.sigma
        return jc.probes.WeakLensing(bins, **kw)
    return Item(build, values, probe_, cosmology(gen.ref(m.rng, gamma="maybe", tame=True))), dict(probe=p.describe())


def spline_item(m):
    k = int(m.rng.integers(1, 4))
    ends = gen.pick(m.rng, None, "natural", "not-a-knot") if k == 3 else None
    x = np.cumsum(m.rng.uniform(0.2, 0.4, 6))
    x = x - x[0]
    y = m.rng.normal(size=6)

    def build(v):
        kw = {} if ends is None else dict(endpoints=ends)
        return c18.Spline(jnp.asarray(x), jnp.stack([jnp.asarray(t, float) for t in v]), k=k, **kw)
    return Item(build, y, spline_), dict(k=k, endpoints=ends, x=x, y=y)


ITEMS = {"cosmology": cosmo_item, "nz": nz_item, "bias": bias_item, "probe": probe_item, "spline": spline_item}


def same(m, rule, got, want, **w):
    if not m.observe(rule, len(got) == len(want), got=len(got), want=len(want), **w):
        return
    for g, x in zip(got, want):
        s = np.abs(N(x).astype(float)).max() if N(x).size else 0.0
        m.close(rule, g, x, rtol=tol(m, 1e-9, 1e-4), atol=tol(m, 1e-10, 3e-5) * s, **w)


def transform(m, cases, what):
    for _ in range(cases):
        it, desc = ITEMS[what](m)
        m.case(**desc)
        # traced functions take the object; their name must tell what else they do
        f = jit(it.behave, what)
        f2 = jit(lambda o, *e: (o, jax.tree_util.tree_map(lambda x: x, o)), what + " back")
        o = m.call("builds", lambda: it.obj(arrays=m.rng.random() < 0.4))
        ask = lambda x: m.call("behaves", lambda: it.behave(x, *it.extra))
        want = ask(it.obj())
        same(m, what + ": eager, seen twice", ask(o), want)
        leaves, tree = m.call("flattens", lambda: tu.tree_flatten(o))
        m.observe(what + ": one leaf or more", len(leaves) >= 1, leaves=len(leaves))
        u = lambda ls: m.call("unflattens", lambda: tu.tree_unflatten(tree, ls))
        same(m, what + ": flattened and rebuilt", ask(u(leaves)), want)
        again = u(leaves)
        m.observe(what + ": same type and structure", type(again) is type(o) and tu.tree_structure(again) == tree)
        m.observe(what + ": structure can be hashed or compared", tree == tu.tree_structure(it.obj(arrays=True)))
        u([object()] * len(leaves))
        u([None] * len(leaves))
        same(m, what + ": argument of jit", m.call("jits", lambda: f(o, *it.extra)), want)
        back, back2 = m.call("jits", lambda: f2(o))
        same(m, what + ": returned from jit", ask(back), want)
        same(m, what + ": original after jit", ask(o), want)
        # another object of the same structure in the compiled function, then leaves exchanged
        v, v2 = it.siblings(m.rng, 2)
        o2 = it.obj(v)
        want2 = ask(it.obj(v))
        same(m, what + ": second argument of the same jit", m.call("jits", lambda: f(o2, *it.extra)), want2)
        mix = m.call("maps", lambda: tu.tree_map(lambda a, b: b, o, o2))
        same(m, what + ": leaves replaced", ask(mix), want2)
        # batches
        stack = m.call("maps", lambda: tu.tree_map(lambda *x: jnp.stack([jnp.asarray(t, float) for t in x]), o, o2, it.obj(v2)))
        axes = (0,) + (None,) * len(it.extra)
        out = m.call("vmaps", lambda: jax.vmap(it.behave, axes)(stack, *it.extra))
        for i, vv in enumerate((None, v, v2)):
            w = want if i == 0 else want2 if i == 1 else ask(it.obj(vv))
            same(m, what + ": batched", [N(x)[i] for x in out], w)
        if m.rng.random() < 0.5:
            ba = m.call("vmaps", lambda: jax.vmap(lambda *v: it.obj(list(v)))(*[jnp.array(x) for x in zip(it.values, v, v2)]))
            out = m.call("vmaps", lambda: jax.vmap(it.behave, axes)(ba, *it.extra))
            same(m, what + ": built in a batch", [N(x)[1] for x in out], want2)
        # derivatives along each number, through the flattened object
        if m.x64:
            w = [m.rng.normal(size=np.shape(x)) for x in want]
            loss = lambda q: sum(jnp.sum(a * b) for a, b in zip(it.behave(q, *it.extra), w))
            o = it.obj(arrays=True)
            base = tu.tree_map(lambda x: jnp.asarray(x, float), o)
            g = m.call("differentiates", lambda: jax.grad(loss)(base))
            m.observe(what + ": gradient has the structure of the object", tu.tree_structure(g) == tree and type(g) is type(o))
            for j in m.rng.choice(len(it.values), min(3, len(it.values)), replace=False):
                if what == "nz" and desc["nz"]["kind"] == "delta" and j == 0:
                    continue
                if what == "probe" and any(b["kind"] == "delta" for b in desc["probe"]["bins"]):
                    continue
                h = 2e-5 * max(abs(it.values[j]), 0.05)
                up, dn = list(it.values), list(it.values)
                up[j] += h
                dn[j] -= h
                fd = (float(loss(it.obj(up))) - float(loss(it.obj(dn)))) / (2 * h)
                t = tu.tree_map(lambda a, b: (jnp.asarray(a, float) - jnp.asarray(b, float)) / (2 * h), it.obj(up), it.obj(dn))
                ad = sum(float(jnp.sum(x * y)) for x, y in zip(tu.tree_leaves(g), tu.tree_leaves(t)))
                mag = abs(float(loss(base))) + sum(np.abs(N(a) * b).sum() for a, b in zip(want, w))
                m.close(what + ": gradient in the right place", ad, fd, rtol=2e-4, atol=1e-9 * mag / h + 2e-5 * mag / max(abs(it.values[j]), 0.05), j=int(j))


def distinct(m, cases):
    """Objects that differ in configuration are not confused by one compiled function."""
    for _ in range(cases):
        r = gen.ref(m.rng, tame=True)
        p = gen.params(r)
        c = cosmology(r)
        s = models.spec(m.rng, ("smail",))
        s.gals = 2.0
        mk = lambda **kw: jc.redshift.smail_nz(*s.args, gals_per_arcmin2=2.0, **kw)
        kd = lambda bw: jc.redshift.kde_nz(np.array([0.4, 0.8]), np.array([1.0, 2.0]), zmax=2.0, bw=bw)
        W, B = jc.probes.WeakLensing, models.BIAS
        nz = mk(zmax=3.0)
        x, y = np.linspace(0, 2, 6), m.rng.normal(size=6)
        S = c18.Spline
        m.case(cosmo=p, nz=s.describe(), y=y)
        groups = {
            "gamma or not": (cosmology_, (), [jc.Cosmology(**p), jc.Cosmology(**p, gamma=0.55), jc.Cosmology(**p, gamma=0.0)]),
            "zmax": (nz_, (), [mk(zmax=1.0), mk(zmax=3.0), mk()]),
            "bandwidth": (nz_, (), [kd(0.1), kd(0.2)]),
            "sigma_e": (probe_, (c,), [W([nz], sigma_e=0.2), W([nz], sigma_e=0.4), W([nz], sigma_e=[0.4])]),
            "alignments": (probe_, (c,), [W([nz]), W([nz], ia_bias=B["ia"](1.0, 0.0, 0.5)), W([nz], ia_bias=B["constant"](1.0)), W([nz], ia_bias=[B["constant"](2.0)])]),
            "shear bias": (probe_, (c,), [W([nz, nz], multiplicative_bias=[0.1, 0.2]), W([nz, nz], multiplicative_bias=0.1), W([nz, nz], multiplicative_bias=[0.2, 0.1])]),
            "degree and ends": (spline_, (), [S(x, y, k=1), S(x, y, k=2), S(x, y, k=3), S(x, y, k=3, endpoints="natural")]),
        }
        for name, (f, extra, objs) in groups.items():
            g = jit(f, "distinct " + name)
            wants = [m.call("behaves", lambda: f(o, *extra)) for o in objs]
            order = m.rng.permutation(len(objs))
            for i in list(order) + [order[0]]:
                same(m, "distinct: " + name, m.call("jits", lambda: g(objs[i], *extra)), wants[i], which=int(i))
            if name not in ("shear bias",):
                for i in range(1, len(objs)):
                    d = any(N(a).shape != N(b).shape or not np.allclose(N(a), N(b), rtol=1e-6, atol=0) for a, b in zip(wants[0], wants[i])) or len(wants[0]) != len(wants[i])
                    if not d and name == "sigma_e":
                        continue
                    m.observe("distinct: %s makes a difference" % name, d, which=i)


def parameters(m, cases):
    """The gradient with respect to a cosmology is a cosmology of derivatives."""
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="maybe", tame=True)
        p = gen.params(r)
        a = m.rng.uniform(0.2, 0.9)
        m.case(cosmo=p, a=a)
        w = m.rng.normal(size=4)

        def f(c, a, w):
            q = jnp.atleast_1d(a)
            return jnp.sum(w[0] * bk.radial_comoving_distance(c, q) / 1000 + w[1] * bk.growth_factor(c, q) + w[2] * bk.growth_rate(c, q)
                           + w[3] * bk.Esqr(c, q) / 10 + c.n_s * 0.3 - c.sigma8**2 * 0.7 + c.h**3)
        g = m.call("differentiates", lambda: jit(jax.grad(f), "grad of cosmology")(jc.Cosmology(**{k: jnp.asarray(v) for k, v in p.items()}), a, w))
        e = jit(f, "value of cosmology")
        for n in p:
            h = 1e-4
            fd = (float(e(jc.Cosmology(**dict(p, **{n: p[n] + h})), a, w)) - float(e(jc.Cosmology(**dict(p, **{n: p[n] - h})), a, w))) / (2 * h)
            m.close("gradient reports the derivative as " + n, getattr(g, n), fd, rtol=1e-4, atol=3e-5, shape=None)


KINDS = {"transform": transform, "distinct": distinct, "parameters": parameters}
