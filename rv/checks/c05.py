"""C05: growth with a growth index."""
import jax
import jax.numpy as jnp
import numpy as np

import jax_cosmo as jc
import jax_cosmo.background as bk
import jax_cosmo.bias as bias
import jax_cosmo.power as power
import jax_cosmo.probes as probes
import jax_cosmo.redshift as rds
import jax_cosmo.transfer as tklib
from rv import gen
from rv.checks.c02 import query
from rv.checks.c04 import growth_tol
from rv.lib import N, cosmology, jit, tol
from rv.oracle import Ref


def observe(m, r, a, D, f, note=""):
    a1 = np.atleast_1d(np.asarray(a, float))
    ref = r.D(a1)
    if D is not None:
        m.close("growth factor" + note, D, ref, atol=growth_tol(m, r, a1, ref), a=a)
    if f is not None:
        m.close("growth rate is Omega_m^gamma" + note, f, r.f(np.asarray(a, float)),
                rtol=tol(m, 1e-11, 3e-5), a=a, shape=None)


def jitted(m, cases):
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="any")
        a = query(m)
        m.case(cosmo=gen.params(r), a=a)
        c = cosmology(r)
        q = jnp.asarray(a)
        observe(m, r, a, m.call("evaluates", lambda: jit(bk.growth_factor, "D")(c, q)),
                m.call("evaluates", lambda: jit(bk.growth_rate, "f")(c, q)))


def eager(m, cases):
    """Objects with different gamma, and one without, used alternately."""
    for _ in range(cases):
        r1 = gen.ref(m.rng, gamma=gen.pick(m.rng, "always", "any"))
        p = gen.params(r1)
        r2 = Ref(**dict(p, gamma=gen.pick(m.rng, float(m.rng.uniform(0.3, 1.0)), 0.0, 1.4)))
        r3 = Ref(**dict(p, gamma=None))
        rs = [r1, r2, r3]
        cs = [cosmology(r, m.rng.random() < 0.5) for r in rs]
        order = [int(i) for i in m.rng.permutation([0, 1, 2, 0, 1, 2])]
        m.case(cosmo=p, gamma2=r2.gamma, order=order)
        for i in order:
            a = query(m)
            q = [a, jnp.asarray(a)][m.rng.integers(2)]
            r, c = rs[i], cs[i]
            if m.rng.random() < 0.6:
                D, f = m.call("evaluates", lambda: bk.growth_factor(c, q)), None
            else:
                D, f = None, m.call("evaluates", lambda: bk.growth_rate(c, q))
            if i < 2:
                observe(m, r, a, D, f, ", objects used alternately")
            else:
                a1 = np.atleast_1d(np.asarray(a, float))
                if D is not None:
                    m.close("without gamma the growth equation is solved", D, r.D(a1),
                            atol=growth_tol(m, r, a1, r.D(a1)), a=a)
                else:
                    m.close("without gamma the growth equation is solved (rate)", f, r.f(a1), atol=3e-3, a=a)


def derived(m, cases):
    """Spectra, growth-based bias and alignments use the same growth."""
    lin = lambda c, k, a: power.linear_matter_power(c, k, a)
    inv = lambda c, z: bias.inverse_growth_linear_bias(1.7)(c, z)

    def nla(c, z, ia):
        nz = rds.smail_nz(1.0, 2.0, 0.8, zmax=3.0)
        k1 = probes.WeakLensing([nz], ia_bias=bias.des_y1_ia_bias(1.0, 0.5, 0.6)).kernel(c, z, 40.0)
        k0 = probes.WeakLensing([nz]).kernel(c, z, 40.0)
        return k1 - k0

    for _ in range(cases):
        r = gen.ref(m.rng, gamma="always", tame=True)
        p = gen.params(r)
        g2 = float(m.rng.uniform(0.35, 0.95))
        r2 = Ref(**dict(p, gamma=g2))
        a = gen.scale_factors(m.rng, 6, amin=0.2)
        if not m.x64:
            a = a.astype(np.float32)
        k = float(np.exp(m.rng.uniform(-5, 1)))
        m.case(cosmo=p, gamma2=g2, a=a, k=k)
        c1, c2 = cosmology(r), cosmology(r2)
        ratio = r2.D(a.astype(float)) / r.D(a.astype(float))
        t = (growth_tol(m, r, a.astype(float), r.D(a.astype(float))) / r.D(a.astype(float))
             + growth_tol(m, r2, a.astype(float), r2.D(a.astype(float))) / r2.D(a.astype(float)))
        q = jnp.asarray(a)
        P1 = N(m.call("evaluates", lambda: jit(lin, "lin")(c1, k, q)))
        P2 = N(m.call("evaluates", lambda: jit(lin, "lin")(c2, k, q)))
        m.close("linear power grows as D^2 of that gamma", P2 / P1, ratio**2, atol=2.5 * t * ratio**2 + tol(m, 0, 2e-5))
        z = 1 / q - 1
        b1, b2 = N(m.call("evaluates", lambda: jit(inv, "inv")(c1, z))), N(m.call("evaluates", lambda: jit(inv, "inv")(c2, z)))
        m.close("growth bias uses that gamma", b1 / b2, ratio, atol=1.5 * t * ratio + tol(m, 0, 2e-5))
        n1, n2 = N(m.call("evaluates", lambda: jit(nla, "nla")(c1, z, 0))), N(m.call("evaluates", lambda: jit(nla, "nla")(c2, z, 0)))
        ok = np.abs(n2[0]) > 1e-2 * np.abs(n2[0]).max()
        if n1.shape == (1, 6) and ok.any():
            m.close("alignments use that gamma", (n1[0] / n2[0])[ok], ratio[ok], atol=(1.5 * t * ratio + tol(m, 1e-9, 5e-3))[ok])


nowiggle = lambda c, k: tklib.Eisenstein_Hu(c, k, type="eisenhu")


def nonlinear(m, cases, pr):
    """Halofit knows the growth of the cosmology only through the amplitude of the
    spectrum: another gamma with sigma8 rescaled to the same amplitude is the same."""
    fn = lambda c, k, a: power.nonlinear_matter_power(
        c, k, a, transfer_fn=nowiggle, nonlinear_fn=lambda *x, **y: power.halofit(*x, prescription=pr, **y))
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="always", tame=True)
        p = gen.params(r)
        p["sigma8"] = float(m.rng.uniform(0.7, 1.0))
        p["gamma"] = float(m.rng.uniform(0.4, 0.7))
        g2 = float(gen.pick(m.rng, m.rng.uniform(0.35, 0.95), 0.55, 1.0, 0.2))
        a = float(m.rng.uniform(0.35, 1.0))
        k = np.exp(m.rng.uniform(-2, 3, 5)).astype(np.float64 if m.x64 else np.float32)
        m.case(cosmo=p, gamma2=g2, a=a, k=k)
        x = np.array([a])
        D1, D2 = (Ref(**dict(p, gamma=g)).D(x)[0] for g in (p["gamma"], g2))
        t = sum(growth_tol(m, q, x, q.D(x))[0] / q.D(x)[0] for q in (Ref(**p), Ref(**dict(p, gamma=g2))))
        c1 = jc.Cosmology(**p)
        c2 = jc.Cosmology(**dict(p, gamma=g2, sigma8=p["sigma8"] * D1 / D2))
        q = jnp.asarray(a, k.dtype)
        P1 = N(m.call("evaluates", lambda: jit(fn, "nl" + pr)(c1, jnp.asarray(k), q)))
        P2 = N(m.call("evaluates", lambda: jit(fn, "nl" + pr)(c2, jnp.asarray(k), q)))
        m.close("non-linear power takes growth from that gamma", P2 / P1, np.ones(5), atol=6 * t + tol(m, 1e-6, 2e-2), a=a)


def derivative(m, cases):
    D = lambda g, p, a: bk.growth_factor(jc.Cosmology(**dict(p, gamma=g)), a)
    f = lambda g, p, a: bk.growth_rate(jc.Cosmology(**dict(p, gamma=g)), a)
    for _ in range(cases):
        r = gen.ref(m.rng, gamma="always", tame=True)
        p = gen.params(r)
        p.pop("gamma")
        a = np.minimum(gen.scale_factors(m.rng, 5, amin=0.05, edges=False), 0.97)
        if not m.x64:
            a = a.astype(np.float32)
        m.case(cosmo=p, gamma=r.gamma, a=a)
        x = a.astype(float)
        Om = r.Om_a(x)
        mode = gen.pick(m.rng, "fwd", "rev")
        J = {"fwd": jax.jacfwd, "rev": jax.jacrev}[mode]
        g = jnp.asarray(r.gamma)
        d = m.call("evaluates", lambda: jit(J(f), "df" + mode)(g, p, jnp.asarray(a)))
        m.close("d f / d gamma", d, Om**r.gamma * np.log(Om), rtol=tol(m, 1e-9, 1e-4), atol=tol(m, 1e-12, 1e-5), a=a)
        e = 1e-4
        up, dn = Ref(**dict(p, gamma=r.gamma + e)), Ref(**dict(p, gamma=r.gamma - e))
        want = (up.D(x) - dn.D(x)) / (2 * e)
        d = m.call("evaluates", lambda: jit(J(D), "dD" + mode)(g, p, jnp.asarray(a)))
        m.close("d D / d gamma", d, want, rtol=1e-2, atol=1e-3, a=a)


KINDS = {"jitted": jitted, "eager": eager, "derived": derived, "derivative": derivative, "nonlinear": nonlinear}
