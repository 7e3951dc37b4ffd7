"""C21: finite everywhere in the domain, single precision agrees with double."""
import jax
import jax.numpy as jnp
import numpy as np
from jax.experimental import checkify

import jax_cosmo as jc
import jax_cosmo.angular_cl as acl
import jax_cosmo.background as bk
import jax_cosmo.likelihood as lk
import jax_cosmo.power as power
import jax_cosmo.transfer as tk
from rv import gen, models
from rv.checks import c11
from rv.checks.c08 import PRESCRIPTION, TRANSFER
from rv.checks.c11 import options
from rv.lib import N, cosmology, jit, tol

BACKGROUND = {
    "w": bk.w, "f_de": bk.f_de, "Esqr": bk.Esqr, "H": bk.H, "Omega_m_a": bk.Omega_m_a, "Omega_de_a": bk.Omega_de_a,
    "chi": bk.radial_comoving_distance, "dchioverda": bk.dchioverda, "transverse": bk.transverse_comoving_distance,
    "angular": bk.angular_diameter_distance, "growth": bk.growth_factor, "rate": bk.growth_rate,
}
# relative agreement of single precision, and what part of the largest value is lost at worst
SINGLE = {"chi": (5e-5, 5e-5), "transverse": (5e-5, 5e-5), "angular": (5e-5, 5e-5), "Omega_de_a": (2e-4, 1e-5), "f_de": (1e-5, 1e-5), "w": (1e-5, 1e-5)}


def nodes(rng, x64):
    """scale factors at and next to every kind of edge"""
    t256, t128 = np.logspace(-3, 0, 256), np.logspace(-3, 0, 128)
    a = np.concatenate([[1.0, 1.0, 1e-3], rng.choice(t256, 4), rng.choice(t128, 4), np.nextafter(rng.choice(t256, 2), 0),
                        np.nextafter(rng.choice(t128, 2), 2), [1 - 1e-7, 1 - 1e-9, 0.5], np.exp(rng.uniform(np.log(1e-3), 0, 6))])
    a = np.clip(a, 1e-3, 1.0)
    return rng.permutation(a)


def kind(m, rule, x):
    """the type of floating point numbers follows the mode"""
    m.observe(rule + ": of the precision in use", str(x.dtype) == ("float64" if m.x64 else "float32"), dtype=str(x.dtype))


def agree(m, rule, f, key, args, rtol, lost, mag=None):
    """f evaluated in the worker's precision, finite, and agreeing with the other precision"""
    g = jit(f, key)
    got = m.call(rule + ": evaluates", lambda: g(*args()))
    for x in jax.tree_util.tree_leaves(got):
        kind(m, rule, x)
        m.finite(rule + ": finite", x)
    got = [N(x).astype(float) for x in jax.tree_util.tree_leaves(got)]
    if not m.x64:
        with jax.enable_x64(True):
            want = [N(x) for x in jax.tree_util.tree_leaves(g(*args()))]
        for x, w in zip(got, want):
            s = np.abs(w).max(axis=-1, keepdims=True) if w.ndim and w.size else np.abs(w)
            m.close(rule + ": single agrees with double", x, w, rtol=rtol, atol=lost * s)
    return got


def background(m, cases):
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="maybe", tame=m.rng.random() < 0.3)
        p = gen.params(r)
        a = nodes(m.rng, m.x64)
        m.case(p=p, a=a)
        for n, f in BACKGROUND.items():
            rt, lost = SINGLE.get(n, (5e-5, 0))
            agree(m, n, f, "%s%d" % (n, "gamma" in p), lambda: (jc.Cosmology(**p), jnp.asarray(a)), rt, lost)
        top = float(r.chi(1e-3))
        chi = np.concatenate([[0.0, 0.0], m.rng.uniform(0, top, 6), [top * (1 - 1e-4), 1e-3, 1.0]])
        agree(m, "a of chi", bk.a_of_chi, "aofchi%d" % ("gamma" in p), lambda: (jc.Cosmology(**p), jnp.asarray(chi)), 1e-3, 1e-5)
        k = np.concatenate([[1e-4, 1e2, 1e-3, 1.0], gen.wavenumbers(m.rng, 6)])
        for t in ("eisenhu", "eisenhu_osc"):
            agree(m, "transfer", lambda c, k, t=t: tk.Eisenstein_Hu(c, k, type=t), "eh" + t, lambda: (jc.Cosmology(**dict(p, gamma=0.5)), jnp.asarray(k)), 3e-4, 1e-6)
        agree(m, "primordial", power.primordial_matter_power, "prim", lambda: (jc.Cosmology(**dict(p, gamma=0.5)), jnp.asarray(k)), 1e-4, 0)


def integers(m, cases):
    """Integers mean what the same floating point numbers mean."""
    for _ in range(cases):
        p = gen.params(gen.ref(m.rng, gamma="maybe", tame=True))
        c = jc.Cosmology(**p)
        m.case(p=p)
        i, x = np.array([1, 1]), np.array([1.0, 1.0])
        for n, f in BACKGROUND.items():
            for a, b in ((i, x), (jnp.asarray(i), jnp.asarray(x)), (1, 1.0)):
                got = m.call("integers: evaluates", lambda: f(c, a), which=n)
                want = f(c, b)
                m.finite("integers: finite", got)
                s = np.abs(N(want)).max()
                m.close("integers: same as floating point", got, want, rtol=1e-5, atol=1e-5 * s, which=n)
        k, kf = np.array([1, 2, 10]), np.array([1.0, 2.0, 10.0])
        f = lambda q: [tk.Eisenstein_Hu(c, q), power.primordial_matter_power(c, q), bk.a_of_chi(c, 100 * q)]
        for g, w in zip(m.call("integers: evaluates", lambda: f(k)), f(kf)):
            m.close("integers: same as floating point", g, w, rtol=1e-5)
        z, zf = np.array([0, 1, 2]), np.array([0.0, 1.0, 2.0])
        st = models.Structure(m.rng, "wl", 2, fixed=True)
        pr = [models.probe(m.rng, "wl", 2, st).build(), models.probe(m.rng, "nc", 1).build()]
        ell = int(m.rng.integers(2, 5000))
        for q in pr:
            g = m.call("integers: evaluates", lambda: q.kernel(c, z, ell))
            w = q.kernel(c, zf, float(ell))
            m.finite("integers: finite", g)
            m.close("integers: same as floating point", g, w, rtol=2e-5, atol=2e-6 * np.abs(N(w)).max(axis=-1, keepdims=True), ell=ell)
            for b in q.params[0]:
                if not isinstance(b, jc.redshift.delta_nz):
                    m.close("integers: same as floating point", m.call("integers: evaluates", lambda: b(z)), b(zf), rtol=1e-5, atol=1e-7)
        el = np.array([10, 30, 90])
        g, w = [acl.gaussian_cl_covariance(e, pr[1:], np.ones((1, 3)), np.ones((1, 3))) for e in (el, el.astype(float))]
        m.close("integers: same as floating point", g, w, rtol=1e-5)
        g, w = [acl.noise_cl(e, pr) for e in (el, el.astype(float))]
        m.close("integers: same as floating point", g, w, rtol=1e-5)


def spectrum(m, cases, tr, pr):
    def f(c, k, a):
        if pr == "linear":
            t = TRANSFER[tr][0]
            return power.linear_matter_power(c, k, a, **({} if t is None else dict(transfer_fn=t)))
        return power.nonlinear_matter_power(c, k, a, **options(tr, pr))
    for _ in range(cases):
        p = gen.params(gen.ref(m.rng, gamma="maybe" if pr == "linear" else None, tame=pr != "linear"))
        k = np.concatenate([[1e-4, 1e2, 1e-4, 1e2, 1.0], gen.wavenumbers(m.rng, 5)])
        lo = 1e-3 if pr == "linear" else 0.2
        a = np.concatenate([[1.0, 1.0, lo, lo, 1.0], m.rng.uniform(lo, 1, 5)])
        m.case(p=p, k=k, a=a, tr=tr, pr=pr)
        agree(m, "power " + pr, f, "pk%s%s%d" % (tr, pr, "gamma" in p), lambda: (jc.Cosmology(**p), jnp.asarray(k), jnp.asarray(a)),
              *((5e-4, 0) if pr == "linear" else (2e-3, 0)))


def kernels(m, cases, kind, n):
    st = models.Structure(m.rng, kind, n, fixed=True)

    def f(c, p, z, ell):
        return p.kernel(c, z, ell)

    def g(p):
        return p.noise(), [b.gals_per_arcmin2 + 0.0 for b in p.params[0]]
    for _ in range(cases):
        d = models.probe(m.rng, kind, n, st)
        r = gen.params(gen.ref(m.rng, gamma="always", tame=True))
        top = d.zmax()
        z = np.concatenate([[0.0, top, 1e-3, top * (1 - 1e-6)], [b.args[0] for b in d.bins if b.kind == "delta"], m.rng.uniform(0, top, 6)])
        ell = float(gen.pick(m.rng, 2.0, 5000.0, 216.0, np.exp(m.rng.uniform(np.log(2), np.log(5000)))))
        m.case(p=r, probe=d.describe(), z=z, ell=ell)
        if z.size < 14:
            z = np.concatenate([z, m.rng.uniform(0, top, 14 - z.size)])
        key = "%s%d" % (kind, n)
        agree(m, "kernel " + kind, f, "k" + key, lambda: (jc.Cosmology(**r), d.build(True), jnp.asarray(z), jnp.asarray(ell)), 3e-4, 1e-4)
        agree(m, "noise " + kind, g, "n" + key, lambda: (d.build(True),), 1e-5, 0)
        for b in d.bins:
            if b.kind != "delta":
                agree(m, "n(z)", lambda q, z: q(z), "nz", lambda: (b.build(True), jnp.asarray(z)), 3e-4, 1e-4)


def spectra(m, cases, layout, tr, pr):
    sts = c11.structures(m, layout)

    def f(c, ell, probes):
        cl = acl.angular_cl(c, ell, probes, **options(tr, pr))
        nl = acl.noise_cl(ell, probes)
        # in units of their own: products of bare spectra are below the range of single precision
        return cl, nl, acl.gaussian_cl_covariance(ell, probes, 1e6 * cl, 1e6 * nl, 0.3), acl.gaussian_cl_covariance(ell, probes, 1e6 * cl, 1e6 * nl, 0.3, sparse=False)
    for _ in range(cases):
        ps = c11.draw(m, sts)
        p = gen.params(gen.ref(m.rng, tame=True))
        ell = np.array([2.0, 5000.0, 216.0, np.exp(m.rng.uniform(np.log(2), np.log(5000)))])
        ell = np.sort(ell)
        m.case(p=p, probes=[q.describe() for q in ps], ell=ell)
        a = jit(f, "cl" + layout + tr + pr)
        get = lambda: [N(x).astype(float) for x in a(jc.Cosmology(**p), jnp.asarray(ell), [q.build(True) for q in ps])]
        got = m.call("spectra: evaluates", get)
        for x in got:
            m.finite("spectra: finite", x, ell=ell)
        if m.x64:
            continue
        with jax.enable_x64(True):
            want = get()
        # a cross spectrum can vanish: errors are relative to the two spectra it crosses
        n = sum(len(q.bins) for q in ps)
        i = {x: k for k, x in enumerate(c11.pairs(n))}
        auto = np.array([np.sqrt(np.abs(want[0][i[x, x]] * want[0][i[y, y]])) for x, y in c11.pairs(n)])
        m.close("spectra: single agrees with double", got[0], want[0], rtol=1e-3, atol=3e-4 * auto)
        m.close("noise spectra: single agrees with double", got[1], want[1], rtol=1e-5)
        d = np.abs(want[2])
        q = np.sqrt(np.einsum("iin->in", d))
        m.close("covariance: single agrees with double", got[2], want[2], rtol=2e-3, atol=6e-4 * q[:, None] * q[None])
        m.close("covariance: dense is as finite as sparse", [np.abs(got[3]).max()], [np.abs(got[2]).max()], rtol=1e-5)


def indexing(m, cases, what):
    """No access outside of the tables, checked inside the compiled functions."""
    calls = {
        "background": lambda c, a: [bk.radial_comoving_distance(c, a), bk.growth_factor(c, a), bk.growth_rate(c, a), bk.transverse_comoving_distance(c, a),
                                    bk.a_of_chi(c, 3000.0 * a)],
        "power": lambda c, a: [power.linear_matter_power(c, a, a)],
        "nonlinear": lambda c, a: [power.nonlinear_matter_power(c, a, 0.2 + 0.8 * a)],
        "kernels": lambda c, a: [jc.probes.WeakLensing([jc.redshift.smail_nz(1.0, 2.0, 1.0, zmax=3.0), jc.redshift.delta_nz(1.0, zmax=3.0)], multiplicative_bias=[0.1, 0.2]).kernel(c, 1 / a - 1, 10.0),
                                 jc.probes.NumberCounts([jc.redshift.kde_nz(jnp.array([0.4, 1.0]), jnp.array([1.0, 2.0]), bw=0.1, zmax=3.0)] * 2, jc.bias.inverse_growth_linear_bias(1.0)).kernel(c, 1 / a - 1, 10.0)],
        "spectra": lambda c, a: [acl.gaussian_cl_covariance_and_mean(c, 10 + 90 * a, [jc.probes.WeakLensing([jc.redshift.smail_nz(1.0, 2.0, 1.0, zmax=3.0)] * 2), jc.probes.NumberCounts([jc.redshift.smail_nz(1.0, 2.0, 0.5, zmax=3.0)], jc.bias.constant_linear_bias(1.0))],
                                                                     transfer_fn=TRANSFER["nowiggle"][0], nonlinear_fn=power.linear, sparse=True)],
        "splines": lambda c, a: [jc.scipy.interpolate.InterpolatedUnivariateSpline(jnp.linspace(0.1, 1, 9), jnp.arange(9.0) ** 2, k=k)(a * 1.3) for k in (1, 2, 3)]
        + [jc.scipy.interpolate.interp(a * 2 - 0.5, jnp.linspace(0, 1, 5), jnp.arange(5.0) * c.h)],
    }
    g = jit(checkify.checkify(calls[what], errors=checkify.index_checks), "index " + what)
    for _ in range(cases):
        p = gen.params(gen.ref(m.rng, tame=True))
        a = nodes(m.rng, m.x64)[:4] if what != "background" else nodes(m.rng, m.x64)
        if what in ("nonlinear", "spectra"):
            a = np.sort(m.rng.uniform(0.01, 1, 4))
            a[-1] = 1.0
        elif m.rng.random() < 0.5:
            a[: 2] = m.rng.uniform(1e-5, 9e-4, 2)  # before the tables begin
        m.case(p=p, a=a, what=what)
        err, out = m.call("indexing: evaluates", lambda: g(jc.Cosmology(**p), jnp.asarray(a)))
        e = err.get()
        m.observe("indexing: inside of the arrays", e is None, error=str(e)[:400], what=what)
        if a.min() >= 1e-3:
            for x in jax.tree_util.tree_leaves(out):
                m.finite("indexing: finite", x)


def likelihood(m, cases):
    """Finite with covariances of any overall size that single precision can hold."""
    for _ in range(cases):
        n, k = int(m.rng.integers(1, 5)), int(m.rng.integers(1, 5))
        L = m.rng.normal(size=(n, n, k))
        C = (np.einsum("iak,jak->ijk", L, L) + 0.3 * np.eye(n)[:, :, None]) * 10 ** m.rng.uniform(-4, 4)
        d, mu = m.rng.normal(size=(2, n * k))
        m.case(C=C, d=d, mu=mu)
        for ld in (True, False):
            agree(m, "likelihood", lambda d, mu, C, ld=ld: lk.gaussian_log_likelihood(d, mu, C, include_logdet=ld), "like%d %d %d" % (n, k, ld),
                  lambda: (jnp.asarray(d), jnp.asarray(mu), jnp.asarray(C)), 3e-3, 0)


KINDS = dict(background=background, integers=integers, spectrum=spectrum, kernels=kernels, spectra=spectra, indexing=indexing, likelihood=likelihood)
