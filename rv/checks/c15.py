"""C15: derivatives."""
import jax
import jax.numpy as jnp
import numpy as np

import jax_cosmo as jc
import jax_cosmo.angular_cl as acl
import jax_cosmo.background as bk
import jax_cosmo.likelihood as lk
import jax_cosmo.power as power
import jax_cosmo.redshift as rds
import jax_cosmo.sparse as sparse
from rv import gen
from rv.checks.c08 import PRESCRIPTION, TRANSFER
from rv.checks.c11 import options
from rv.lib import N, jit, tol

NAMES = gen.ref.__globals__["Ref"].NAMES
FLOOR = dict(Omega_k=0.05, wa=0.3)


def fiducial(rng, gamma):
    """Parameters with special values more often than not."""
    r = gen.ref(rng, gamma="always" if gamma else None, tame=True)
    p = gen.params(r)
    if rng.random() < 0.5:
        for n, v in (("Omega_k", 0.0), ("w0", -1.0), ("wa", 0.0)):
            if rng.random() < 0.7:
                p[n] = v
        if rng.random() < 0.3:
            p["Omega_k"] = float(gen.pick(rng, 1e-9, -1e-6, 5e-4, -9.9e-4, 1.2e-3))
    if rng.random() < 0.2:
        p["n_s"] = 1.0
    return p


class Numbers:
    """Named numbers as one vector; take(vector) gives them back by name."""

    def __init__(self):
        self.names, self.values, self.floors = [], [], []

    def add(self, name, value, floor=0.1):
        self.names.append(name)
        self.values.append(float(value))
        self.floors.append(floor)

    def cosmology(self, p):
        for n, v in p.items():
            self.add(n, v, FLOOR.get(n, 0.1))

    def vector(self):
        return np.array(self.values)

    def steps(self, rel):
        return rel * np.maximum(np.abs(self.vector()), self.floors)


def cosmo(q):
    return jc.Cosmology(**{n: q[n] for n in NAMES}, gamma=q.get("gamma"))


def named(names, f):
    """f of a dictionary -> f of a vector"""
    return lambda x, *a: f({n: x[i] for i, n in enumerate(names)}, *a)


def examine(m, rule, f, key, num, extra, rtol, noise, second=False, reverse=True, forward=True, singly=False):
    """f: vector -> array of any shape; compares forward, reverse and finite differences."""
    x = num.vector()
    flat = lambda v, *e: jnp.ravel(f(v, *e))
    value = jit(jax.vmap(flat, (0,) + (None,) * len(extra)), key + " values")
    base = m.call("evaluates", lambda: N(value(x[None], *extra))[0]).astype(float)
    m.finite(rule + ": values are finite", base)
    jac = {}
    if forward and (m.x64 or not reverse):
        jac["forward"] = m.call("differentiates", lambda: N(jit(jax.jacfwd(flat), key + " fwd")(jnp.asarray(x, float), *extra)))
    if reverse:
        jac["reverse"] = m.call("differentiates", lambda: N(jit(jax.jacrev(flat), key + " rev")(jnp.asarray(x, float), *extra)))
    scale = np.abs(base)
    h = num.steps(1e-5)
    for k, j in jac.items():
        m.finite("%s: %s derivatives are finite" % (rule, k), j, parameters=num.names)
    if not m.x64:
        # the same derivatives in double precision
        with jax.enable_x64(True):
            v = N(value(x[None], *extra))[0]
            want = N(jit(jax.jacfwd(flat) if forward else jax.jacrev(flat), key + (" fwd" if forward else " rev"))(jnp.asarray(x, float), *extra))
        for k, j in jac.items():
            for i, n in enumerate(num.names):
                s = np.abs(v) / max(abs(x[i]), num.floors[i])
                m.close("%s: %s derivatives, single precision" % (rule, k), j[:, i], want[:, i], rtol=rtol[1],
                        atol=noise[1] * (s + np.abs(v).max() * 1e-3), parameter=n)
        return
    pts = np.concatenate([x[None] + s * np.diag(h) for s in (1, -1)])
    if singly:
        vals = np.concatenate([N(value(p[None], *extra)) for p in pts])
    else:
        vals = N(value(pts, *extra))
    up, dn = vals[: x.size], vals[x.size :]
    for i, n in enumerate(num.names):
        right, left = (up[i] - base) / h[i], (base - dn[i]) / h[i]
        fd = (up[i] - dn[i]) / (2 * h[i])
        for k, j in jac.items():
            m.close("%s: %s against differences" % (rule, k), j[:, i], fd, rtol=rtol[0],
                    atol=np.abs(right - left) + noise[0] * scale / h[i] + 1e-14 * scale.max() / h[i], parameter=n)
    if len(jac) == 2:
        mag = np.abs(jac["forward"]).max(axis=1, keepdims=True)
        m.close(rule + ": forward and reverse agree", jac["reverse"], jac["forward"], rtol=1e-6,
                atol=1e-9 * mag + 1e-12 * scale[:, None] + 1e-14 * scale.max())
    if second:
        J = jit(jax.jacfwd(flat), key + " fwd")
        H = m.call("differentiates", lambda: N(jit(jax.jacfwd(jax.jacrev(flat)), key + " second")(jnp.asarray(x, float), *extra)))
        m.finite(rule + ": second derivatives are finite", H, parameters=num.names)
        for i, n in enumerate(num.names):
            e = np.zeros(x.size)
            e[i] = h[i]
            a, b = N(J(jnp.asarray(x + e), *extra)), N(J(jnp.asarray(x - e), *extra))
            j0 = jac["forward"]
            if n.endswith("shift") and x[i] == 0:
                continue  # the first derivative jumps: nodes at z = 0 start to be cut
            fd = (a - b) / (2 * h[i])
            m.close(rule + ": second derivatives against differences", H[:, :, i], fd, rtol=10 * rtol[0],
                    atol=np.abs(a + b - 2 * j0) / h[i] + noise[0] * (np.abs(j0) + scale[:, None]) / h[i] + 1e-5 * scale[:, None] + 1e-12 * scale.max(), parameter=n)
        m.close(rule + ": second derivatives are symmetric", H, np.swapaxes(H, 1, 2), rtol=1e-5,
                atol=1e-8 * np.abs(H).max(axis=(1, 2), keepdims=True) + 1e-10 * scale[:, None, None] + 1e-12 * scale.max())


def background(m, cases, gamma, second=False):
    def f(q, a):
        c = cosmo(q)
        return jnp.stack([bk.radial_comoving_distance(c, a), bk.transverse_comoving_distance(c, a), bk.angular_diameter_distance(c, a),
                          bk.growth_factor(c, a), bk.growth_rate(c, a), bk.H(c, a), bk.Esqr(c, a), bk.Omega_m_a(c, a),
                          bk.Omega_de_a(c, a), bk.f_de(c, a), bk.w(c, a), bk.dchioverda(c, a)])
    for _ in range(cases):
        num = Numbers()
        num.cosmology(fiducial(m.rng, gamma))
        a = gen.scale_factors(m.rng, 6, amin=2e-3)
        if m.rng.random() < 0.5:
            a[0] = 1.0
        m.case(p=dict(zip(num.names, num.values)), a=a)
        examine(m, "background", named(num.names, f), "bg%d" % gamma, num, (jnp.asarray(a),), (3e-6, 1e-3), (1e-12, 3e-5), second=second)


def inverse_distance(m, cases):
    def f(q, chi):
        return bk.a_of_chi(cosmo(q), chi)
    for _ in range(cases):
        num = Numbers()
        num.cosmology(fiducial(m.rng, False))
        chi = m.rng.uniform(20, 4000, 5)
        m.case(p=dict(zip(num.names, num.values)), chi=chi)
        examine(m, "a of chi", named(num.names, f), "aofchi", num, (jnp.asarray(chi),), (3e-6, 1e-2), (1e-12, 3e-4))


def spectrum(m, cases, gamma, tr, pr, second=False, reverse=True):
    kw = options(tr, pr)

    def f(q, k, a):
        c = cosmo(q)
        if pr == "linear":
            kk = {x: v for x, v in kw.items() if x == "transfer_fn"}
            return power.linear_matter_power(c, k, a, **kk)
        return power.nonlinear_matter_power(c, k, a, **kw)
    for _ in range(cases):
        num = Numbers()
        num.cosmology(fiducial(m.rng, gamma))
        n = 4
        k = gen.wavenumbers(m.rng, n, 1e-3, 10.0)
        a = 1 / (1 + m.rng.uniform(0, 2.5, n))
        if m.rng.random() < 0.5:
            a[1] = 1.0
        m.case(p=dict(zip(num.names, num.values)), k=k, a=a, tr=tr, pr=pr)
        t = (3e-6, 2e-3) if pr == "linear" else (3e-5, 1e-2)
        e = (1e-12, 2e-4) if pr == "linear" else (1e-11, 2e-3)
        examine(m, "power " + pr, named(num.names, f), "power%d%s%s" % (gamma, tr, pr), num, (jnp.asarray(k), jnp.asarray(a)), t, e,
                second=second, reverse=reverse)


class Survey:
    """Probes whose every number is in the vector."""

    def __init__(self, rng, layout):
        # e.g. "smail shift kde | wl ia m | nc inverse"
        self.layout = layout
        bins, *probes = [p.split() for p in layout.split("|")]
        self.bins, self.probes = bins, [(p[0], p[1:]) for p in probes]

    def numbers(self, rng, num):
        u = rng.uniform
        special = rng.random() < 0.5
        sp = lambda x, v: v if special and rng.random() < 0.7 else x
        for i, b in enumerate(self.bins):
            n = "n%d " % i
            num.add(n + "gals", u(1, 30), 1)
            if b in ("smail", "shift"):
                num.add(n + "a", sp(u(1.02, 2.5), 2.0) if rng.random() < 0.8 else u(0.6, 1.0))
                num.add(n + "b", u(0.6, 2.2))
                num.add(n + "z0", u(0.2, 0.7))
            if b in ("shift", "kshift"):
                num.add(n + "shift", sp(u(-0.1, 0.1), 0.0), 0.02)
            if b in ("kde", "kshift"):
                for j in range(2):
                    num.add(n + "cat%d" % j, u(0.3, 1.4))
                    num.add(n + "w%d" % j, u(0.3, 1.0))
            if b == "delta":
                num.add(n + "z", u(0.3, 1.5))
        for j, (kind, opts) in enumerate(self.probes):
            n = "p%d " % j
            if "m" in opts:
                num.add(n + "m", sp(u(-0.1, 0.1), 0.0))
            if "mm" in opts:
                for i in range(len(self.bins)):
                    num.add(n + "m%d" % i, sp(u(-0.1, 0.1), 0.0))
            if "ia" in opts:
                num.add(n + "A", sp(u(-1, 3), 0.0))
                num.add(n + "eta", sp(u(-1, 2), 0.0))
                num.add(n + "pivot", u(0.1, 0.8))
            if kind == "nc":
                for i in range(len(self.bins) if "list" in opts else 1):
                    num.add(n + "b%d" % i, sp(u(0.5, 2.5), 1.0))

    def build(self, q):
        nz = []
        for i, b in enumerate(self.bins):
            g = lambda s: q["n%d %s" % (i, s)]
            kw = dict(zmax=2.5, gals_per_arcmin2=g("gals"))
            if b in ("smail", "shift"):
                x = rds.smail_nz(g("a"), g("b"), g("z0"), **kw)
            if b in ("kde", "kshift"):
                x = rds.kde_nz(jnp.stack([g("cat0"), g("cat1")]), jnp.stack([g("w0"), g("w1")]), bw=0.15, **kw)
            if b == "delta":
                x = rds.delta_nz(g("z"), **kw)
            if b in ("shift", "kshift"):
                x = rds.systematic_shift(x, g("shift"), **kw)
            nz.append(x)
        out = []
        for j, (kind, opts) in enumerate(self.probes):
            g = lambda s: q["p%d %s" % (j, s)]
            if kind == "nc":
                mk = jc.bias.inverse_growth_linear_bias if "inverse" in opts else jc.bias.constant_linear_bias
                out.append(jc.probes.NumberCounts(nz, [mk(g("b%d" % i)) for i in range(len(nz))] if "list" in opts else mk(g("b0"))))
                continue
            kw = {}
            if "m" in opts:
                kw["multiplicative_bias"] = g("m")
            if "mm" in opts:
                kw["multiplicative_bias"] = [g("m%d" % i) for i in range(len(nz))]
            if "ia" in opts:
                kw["ia_bias"] = jc.bias.des_y1_ia_bias(g("A"), g("eta"), g("pivot"))
            out.append(jc.probes.WeakLensing(nz, sigma_e=0.3, **kw))
        return out


def kernels(m, cases, layout, gamma=False, reverse=True):
    sv = Survey(m.rng, layout)

    def f(q, z, ell):
        c, ps = cosmo(q), sv.build(q)
        k = jnp.concatenate([p.kernel(c, z, ell) for p in ps])
        n = jnp.concatenate([p.noise() for p in ps])
        return jnp.concatenate([k.ravel(), 1e9 * n])
    for _ in range(cases):
        num = Numbers()
        num.cosmology(fiducial(m.rng, gamma))
        sv.numbers(m.rng, num)
        z = m.rng.uniform(0.01, 2.0, 5)
        if m.rng.random() < 0.5:
            z[m.rng.integers(5)] = 0.0
        if m.rng.random() < 0.5:
            z[m.rng.integers(5)] = 2.5
        ell = float(np.exp(m.rng.uniform(np.log(2), np.log(3000))))
        m.case(p=dict(zip(num.names, num.values)), z=z, layout=layout, ell=ell)
        examine(m, "kernels", named(num.names, f), "ker%d%s" % (gamma, layout), num, (jnp.asarray(z), ell), (1e-5, 3e-3), (2e-12, 3e-4),
                reverse=reverse)


def distributions(m, cases, kind):
    sv = Survey(m.rng, kind + " | nc")

    def f(q, z):
        n = sv.build(q)[0].params[0][0]
        return jnp.concatenate([n(z), jnp.ravel(n.gals_per_arcmin2), 1e-8 * jnp.ravel(n.gals_per_steradian)])
    for _ in range(cases):
        num = Numbers()
        sv.numbers(m.rng, num)
        z = m.rng.uniform(0.01, 2.0, 6)
        z[0], z[1] = 0.0, 2.5
        m.case(p=dict(zip(num.names, num.values)), z=z, kind=kind)
        examine(m, "n(z)", named(num.names, f), "nz" + kind, num, (jnp.asarray(z),), (1e-5, 1e-3), (1e-12, 3e-4), second=True)


def spectra(m, cases, layout, tr, pr, which, gamma=False, mode="forward"):
    """which: mean, noise, covariance or likelihood"""
    sv = Survey(m.rng, layout)
    ell = np.array([30.0, 120.0, 700.0])

    def f(q, data, ell):
        c, ps = cosmo(q), sv.build(q)
        if which == "mean":
            return acl.angular_cl(c, ell, ps, **options(tr, pr)) * 1e8
        mu, cov = acl.gaussian_cl_covariance_and_mean(c, ell, ps, sparse=which != "dense", f_sky=0.2, **options(tr, pr))
        if which == "covariance":
            return 1e16 * cov
        if which == "dense":
            return lk.gaussian_log_likelihood(data, mu, cov, include_logdet=True, inverse_method="cholesky")
        return lk.gaussian_log_likelihood(data, mu, cov, include_logdet=True)
    for _ in range(cases):
        num = Numbers()
        num.cosmology(fiducial(m.rng, gamma))
        sv.numbers(m.rng, num)
        m.case(p=dict(zip(num.names, num.values)), layout=layout, tr=tr, pr=pr, which=which)
        nt = len(sv.bins) * len(sv.probes)
        if which in ("likelihood", "dense"):
            e = jit(lambda x: acl.angular_cl(cosmo(dict(zip(num.names, x))), ell, sv.build(dict(zip(num.names, x))), **options(tr, pr)).ravel(), "mock" + layout)
            data = N(m.call("evaluates", lambda: e(num.vector()))) * (1 + 0.05 * m.rng.normal(size=nt * (nt + 1) // 2 * 3))
        else:
            data = np.zeros(1)
        lin = pr == "linear"
        examine(m, "spectra: " + which, named(num.names, f), "cl" + layout + tr + pr + which + str(gamma), num, (jnp.asarray(data), jnp.asarray(ell)),
                (2e-5 if lin else 1e-4, 1e-2), (1e-11 if which in ("mean", "covariance") else 3e-10, 2e-3),
                forward=mode != "reverse", reverse=mode != "forward", singly=True)


def algebra(m, cases):
    """Derivatives of sparse matrix functions with respect to their elements."""
    for _ in range(cases):
        nb, n = int(m.rng.integers(1, 4)), int(m.rng.integers(1, 4))
        g = m.rng.normal(size=(nb, nb, n))
        s = np.einsum("iln,jln->ijn", g, g) + 0.5 * np.eye(nb)[:, :, None]
        v, w = m.rng.normal(size=nb * n), m.rng.normal(size=nb * n)
        num = Numbers()
        for i, x in enumerate(s.ravel()):
            num.add(str(i), x)
        for i, x in enumerate(v):
            num.add("v%d" % i, x, 0.3)
        m.case(s=s, v=v)
        k = s.size

        def f(x, w):
            M, y = x[:k].reshape(s.shape), x[k:]
            sg, ld = sparse.slogdet(M)
            return jnp.concatenate([jnp.ravel(sparse.inv(M)), jnp.ravel(ld), jnp.ravel(sparse.det(M)), jnp.ravel(sparse.dot(M, y)),
                                    jnp.ravel(sparse.dot(y, M)), jnp.ravel(sparse.dot(w[None], sparse.inv(M), y[:, None])), jnp.ravel(sparse.dot(M, M))])
        examine(m, "sparse", f, "sparse%d %d" % (nb, n), num, (jnp.asarray(w),), (2e-5, 0.1), (1e-11, 1e-2))


KINDS = dict(background=background, inverse_distance=inverse_distance, spectrum=spectrum, kernels=kernels, distributions=distributions,
             spectra=spectra, algebra=algebra)
