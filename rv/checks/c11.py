"""C11: angular power spectra."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from scipy import integrate, interpolate

import jax_cosmo.angular_cl as acl
import jax_cosmo.background as bk
import jax_cosmo.power as power
from rv import gen, models
from rv.checks.c08 import PRESCRIPTION, TRANSFER, amplitude
from rv.lib import N, cosmology, jit, tol


def options(tr, pr):
    kw = {}
    if TRANSFER[tr][0] is not None:
        kw["transfer_fn"] = TRANSFER[tr][0]
    if PRESCRIPTION[pr] is not None:
        kw["nonlinear_fn"] = PRESCRIPTION[pr]
    return kw


def spectra(tr, pr):
    def f(c, ell, probes):
        return acl.angular_cl(c, ell, probes, **options(tr, pr))
    return jit(f, "cl" + tr + pr)


def parts(tr, pr):
    def f(c, a, ell, probes):
        chi = bk.radial_comoving_distance(c, a)
        P = power.nonlinear_matter_power(c, (ell + 0.5) / jnp.clip(chi, 1.0), a, **options(tr, pr))
        K = [p.kernel(c, 1.0 / a - 1.0, ell) for p in probes]
        return P, jnp.concatenate(K), chi, bk.dchioverda(c, a)
    return jit(f, "parts" + tr + pr)


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i, n)]


def combined(m, c, ell, probes, top, tr, pr):
    """Limber integrals put together here from the library's own ingredients."""
    out, err = [], []
    amin = 1.0 / (1.0 + top)
    for l in ell:
        a = np.linspace(amin, 1.0, 1025)
        P, K, chi, d = [N(x).astype(float) for x in m.call("evaluates", lambda: parts(tr, pr)(c, jnp.asarray(a), float(l), probes))]
        w = P * d / np.clip(chi**2, 1.0, None) / 299792.458**2
        y = np.array([w * K[i] * K[j] for i, j in pairs(len(K))])
        fine = integrate.simpson(y, x=a, axis=-1)
        coarse = integrate.simpson(y[:, ::2], x=a[::2], axis=-1)
        mag = integrate.simpson(np.abs(y), x=a, axis=-1)
        out.append(fine)
        err.append(1.5 * np.abs(fine - coarse) + tol(m, 1e-7, 1e-3) * mag)
    return np.array(out).T, np.array(err).T


def reference(m, r, tr, pr, amp, ell, ps, top):
    """Limber integrals from rv/oracle.py alone (linear amplitude given)."""
    T = TRANSFER[tr][1](r)
    p0 = lambda q: amp * np.asarray(q, float) ** r.n_s * T(q) ** 2
    presc = {"default": "takahashi2012", "halofit": "takahashi2012"}.get(pr, pr)
    a = np.linspace(1 / (1 + top), 1.0, 257)
    chi, D = r.chi(a), r.D(a)
    g = models.growth_tol(m, r, a, D) / D
    if presc != "linear":
        n = np.linspace(a[0], 1.0, 13)
        sc = [r.halofit_scales(x, p0, n=2001) for x in n]
        if any(s is None for s in sc):
            return None
        sc = np.array(sc)
        sc[:, 0] = np.log(sc[:, 0])
        sc = interpolate.CubicSpline(n, sc)(a)
    out, err = [], []
    for l in ell:
        k = (l + 0.5) / np.clip(chi, 1.0, None)
        if presc == "linear":
            P = p0(k) * D**2
            t = (2.5e-3 + 2.2 * g) * P
        else:
            def hf(e):
                return np.array([r.halofit(k[i : i + 1], x, p0, presc, (np.exp(sc[i, 0] + e[0]), sc[i, 1] + e[1], sc[i, 2] + e[2]))[0]
                                 for i, x in enumerate(a)])
            P = hf((0, 0, 0))
            t = 4e-3 * P + sum(np.abs(hf(e) - P) for e in ((3e-3, 0, 0), (0, 4e-3, 0), (0, 0, 4e-3)))
        Ks = [p.kernel(m, r, 1 / a - 1, float(l), fine=1025) for p in ps]
        K, dK = np.concatenate([x[0] for x in Ks]), np.concatenate([x[1] for x in Ks])
        w = r.dchida(a) / np.clip(chi**2, 1.0, None) / 299792.458**2
        y = np.array([w * P * K[i] * K[j] for i, j in pairs(len(K))])
        dy = np.array([w * (t * np.abs(K[i] * K[j]) + P * (dK[i] * np.abs(K[j]) + np.abs(K[i]) * dK[j])) for i, j in pairs(len(K))])
        fine, coarse = integrate.simpson(y, x=a, axis=-1), integrate.simpson(y[:, ::2], x=a[::2], axis=-1)
        out.append(fine)
        err.append(0.5 * np.abs(fine - coarse) + integrate.simpson(dy, x=a, axis=-1)
                   + tol(m, 2e-3, 4e-3) * integrate.simpson(np.abs(y), x=a, axis=-1))
    return np.array(out).T, np.array(err).T


def multipoles(m, n):
    l = gen.pick(m.rng, np.exp(m.rng.uniform(np.log(2), np.log(5000), n)), np.floor(m.rng.uniform(2, 3000, n)),
                 np.exp(np.linspace(np.log(10), np.log(2000), n)))
    if m.rng.random() < 0.3:
        l[0], l[-1] = 2.0, 5000.0
    if m.rng.random() < 0.4:
        m.rng.shuffle(l)
    return l if m.x64 else l.astype(np.float32)


def structures(m, layout):
    """layout: "wl2 nc2": probes with their number of bins; d: delta planes, i: alignments"""
    out = []
    zmax = float(np.round(m.rng.uniform(1.8, 3.2), 2))
    for w in layout.split():
        kind, n = w[:2], int(w[2])
        while True:
            s = models.Structure(m.rng, kind, n, delta=True if "d" in w[3:] else False, fixed=True)
            if kind == "nc" or s.ia == ("i" in w[3:]):
                break
        s.zmax = zmax
        s.bw = 0.06 * zmax
        out.append((kind, n, s))
    return out


def draw(m, sts):
    return [models.probe(m.rng, k, n, s) for k, n, s in sts]


def cauchy_schwarz(m, C, n):
    d = {p: C[i] for i, p in enumerate(pairs(n))}
    ok, worst = True, 0.0
    for (i, j), v in d.items():
        lim = d[i, i] * d[j, j]
        ok &= bool((v**2 <= lim * (1 + tol(m, 1e-9, 1e-4))).all()) and bool((d[i, i] >= 0).all())
    m.observe("Cauchy-Schwarz", ok, C=C)


def cosmo(m, gamma):
    return gen.ref(m.rng, gamma="always" if gamma else None, tame=True)


def assembly(m, cases, layout, tr, pr, nell=3, independent=1):
    sts = structures(m, layout)
    n = sum(s[1] for s in sts)
    gamma = m.rng.random() < 0.3
    if m.rng.random() < 0.5:  # probes may reach different redshifts
        for _, _, s in sts:
            s.zmax = float(np.round(m.rng.uniform(1.8, 3.2), 2))
    for q in range(cases):
        ps = draw(m, sts)
        r = cosmo(m, gamma)
        ell = multipoles(m, nell)
        m.case(cosmo=gen.params(r), probes=[p.describe() for p in ps], ell=ell, transfer=tr, nonlinear=pr)
        c, real = cosmology(r), [p.build(True) for p in ps]
        C = N(m.call("evaluates", lambda: spectra(tr, pr)(c, jnp.asarray(ell), real))).astype(float)
        top = max(p.zmax() for p in ps)
        if not m.observe("one row per pair of tracers", C.shape == (n * (n + 1) // 2, nell), got=C.shape, tracers=n):
            continue
        want, err = combined(m, c, ell, real, top, tr, pr)
        m.close("Limber integral of its ingredients", C, want, atol=err, ell=ell)
        cauchy_schwarz(m, C, n)
        if q < independent:
            ref = reference(m, r, tr, pr, amplitude(m, r, tr, c), ell, ps, top)
            if ref is not None:
                m.close("Limber integral, " + ("linear" if pr == "linear" else "halofit"), C, ref[0], atol=ref[1], ell=ell)


def relations(m, cases, layout, tr, pr):
    sts = structures(m, layout)
    n = sum(s[1] for s in sts)
    idx = {p: i for i, p in enumerate(pairs(n))}
    at = lambda i, j: idx[min(i, j), max(i, j)]
    starts = np.cumsum([0] + [s[1] for s in sts])
    gamma = m.rng.random() < 0.3
    f = spectra(tr, pr)
    t = tol(m, 1e-10, 2e-4)
    for q in range(cases):
        ps = draw(m, sts)
        r = cosmo(m, gamma)
        ell = np.unique(np.floor(multipoles(m, 4))).astype(float if m.x64 else np.float32)
        while len(ell) < 4:
            ell = np.append(ell, ell[-1] + 7)
        m.case(cosmo=gen.params(r), probes=[p.describe() for p in ps], ell=ell, transfer=tr, nonlinear=pr)
        c, real = cosmology(r), [p.build(True) for p in ps]
        get = lambda ell, probes: N(m.call("evaluates", lambda: f(c, jnp.asarray(ell), probes))).astype(float)
        C = get(ell, real)
        if not m.observe("one row per pair of tracers", C.shape == (n * (n + 1) // 2, 4), got=C.shape, tracers=n):
            continue
        # crosses of signed kernels may cancel: errors scale with the autos
        mag = np.array([np.sqrt(C[at(i, i)] * C[at(j, j)]) for i, j in pairs(n)])
        # order of multipoles, their number and type
        o = m.rng.permutation(4)
        m.close("order of multipoles", get(ell[o], real), C[:, o], atol=t * mag[:, o])
        m.close("number of multipoles", get(ell[1:3], real), C[:, 1:3], atol=t * mag[:, 1:3])
        m.close("integer multipoles", get(ell.astype(np.int32), real), C, atol=t * mag, ell=ell)
        # scaling with linear biases, bin by bin
        new, fac = [], []
        for p in ps:
            if p.kind == "nc":
                s = m.rng.uniform(0.4, 2.5, len(p.bins)) if isinstance(p.bias, list) else m.rng.uniform(0.4, 2.5) * np.ones(len(p.bins))
                sc = lambda b, x: models.Bias(b.kind, b.args[0] * x, *b.args[1:])
                nb = [sc(b, x) for b, x in zip(p.bias, s)] if isinstance(p.bias, list) else sc(p.bias, s[0])
                new.append(models.Probe("nc", p.bins, nb))
            elif p.m is not None:
                mm = m.rng.uniform(-0.3, 0.3, len(p.bins)) if isinstance(p.m, list) else np.full(len(p.bins), m.rng.uniform(-0.3, 0.3))
                s = (1 + mm) / (1 + np.asarray(p.m))
                new.append(models.Probe("wl", p.bins, p.bias, mm.tolist() if isinstance(p.m, list) else float(mm[0]), p.sigma))
            else:
                s = np.ones(len(p.bins))
                new.append(p)
            fac.append(s)
        fac = np.concatenate(fac)
        F = np.array([fac[i] * fac[j] for i, j in pairs(n)])[:, None]
        m.close("scales with galaxy and multiplicative biases", get(ell, [p.build(True) for p in new]), C * F, atol=t * mag * F)
        # order of the probes, and each probe alone
        if len(ps) > 1:
            o = m.rng.permutation(len(ps))[:: 1]
            if (o == np.arange(len(ps))).all():
                o = o[::-1]
            tr_o = np.concatenate([np.arange(starts[i], starts[i + 1]) for i in o])
            rows = [at(tr_o[i], tr_o[j]) for i, j in pairs(n)]
            m.close("order of the probes", get(ell, [real[i] for i in o]), C[rows], atol=t * mag[rows])
            i = q % len(ps)
            tr_i = np.arange(starts[i], starts[i + 1])
            rows = [at(tr_i[a], tr_i[b]) for a, b in pairs(len(tr_i))]
            m.close("probe alone", get(ell, [real[i]]), C[rows], atol=t * mag[rows])


def eager(m, cases, layout, tr, pr):
    sts = structures(m, layout)
    for q in range(cases):
        ps = draw(m, sts)
        r = cosmo(m, False)
        ell = multipoles(m, 3)
        if q % 2:
            ell = np.floor(ell).astype(int)
        m.case(cosmo=gen.params(r), probes=[p.describe() for p in ps], ell=ell, transfer=tr, nonlinear=pr)
        c = cosmology(r)
        got = m.call("evaluates", lambda: acl.angular_cl(c, jnp.asarray(ell), [p.build() for p in ps], **options(tr, pr)))
        want = N(m.call("evaluates", lambda: spectra(tr, pr)(c, jnp.asarray(ell, dtype=float), [p.build(True) for p in ps]))).astype(float)
        m.close("eager equals jitted", got, want, rtol=tol(m, 1e-8, 1e-3), atol=tol(m, 1e-9, 2e-4) * np.abs(want).max(0))


KINDS = {"assembly": assembly, "relations": relations, "eager": eager}
