"""C17: results do not depend on earlier calls, transformations or threads."""
import copy
import gc
import pickle
import sys
import threading
import types

import jax
import jax.numpy as jnp
import numpy as np
from jax import tree_util as tu

import jax_cosmo as jc
import jax_cosmo.angular_cl as acl
import jax_cosmo.background as bk
import jax_cosmo.power as power
import jax_cosmo.redshift as rds
import jax_cosmo.transfer as tk
from rv import gen, models
from rv.checks.c16 import cosmo_item, nz_item, probe_item
from rv.lib import N, cosmology, jit, tol

A = np.array([0.02, 0.31, 0.6, 0.93, 1.0])
Z = np.array([0.12, 0.45, 0.9, 1.3])
K = np.array([3e-3, 0.05, 0.7])
CHI = np.array([10.0, 800.0, 2500.0])

# what can be asked of an object; every entry is traceable
COSMO = {
    "chi": lambda c: bk.radial_comoving_distance(c, A),
    "chi fine": lambda c: bk.radial_comoving_distance(c, A, steps=777),
    "chi coarse": lambda c: bk.radial_comoving_distance(c, A, steps=24),
    "chi late": lambda c: bk.radial_comoving_distance(c, A[1:], log10_amin=-0.6),
    "chi one": lambda c: bk.radial_comoving_distance(c, 0.5),
    "a of chi": lambda c: bk.a_of_chi(c, CHI),
    "transverse": lambda c: bk.transverse_comoving_distance(c, A),
    "angular": lambda c: bk.angular_diameter_distance(c, A),
    "growth": lambda c: bk.growth_factor(c, A),
    "growth one": lambda c: bk.growth_factor(c, jnp.asarray([0.7])),
    "rate": lambda c: bk.growth_rate(c, A),
    "H": lambda c: bk.H(c, A),
    "densities": lambda c: jnp.stack([bk.Omega_m_a(c, A), bk.Omega_de_a(c, A), bk.Esqr(c, A)]),
    "jacobian": lambda c: bk.dchioverda(c, A),
    "linear": lambda c: power.linear_matter_power(c, K, A[1:2]),
    "linear nowiggle": lambda c: power.linear_matter_power(c, K, A[1:2], transfer_fn=nowiggle),
    "sigma": lambda c: power.sigmasqr(c, 8.0, tk.Eisenstein_Hu),
    "transfer": lambda c: tk.Eisenstein_Hu(c, K),
    "str": lambda c: str(c),
}
HEAVY = ("linear", "linear nowiggle", "sigma")


def nowiggle(c, k, **kw):
    return tk.Eisenstein_Hu(c, k, type="eisenhu")


NZ = {
    "n(z)": lambda n: n(Z),
    "n at one": lambda n: n(0.45),
    "unnormalised": lambda n: n.pz_fn(Z),
    "more": lambda n: n(np.linspace(0, 2, 17)),
    "density": lambda n: jnp.asarray([n.gals_per_arcmin2, n.gals_per_steradian, n.zmax]),
}


def probes_(c):
    return {
        "kernel": lambda p: p.kernel(c, Z, 30.0),
        "kernel elsewhere": lambda p: p.kernel(c, Z[1:], 300.0),
        "noise": lambda p: p.noise(),
        "noise spectra": lambda p: acl.noise_cl(np.array([10.0, 20.0]), [p]),
        "size": lambda p: jnp.asarray([p.n_tracers, p.zmax]),
    }


def tracers(root):
    """paths to tracers reachable from an object"""
    found, seen, todo = [], set(), [(root, "")]
    while todo:
        x, path = todo.pop()
        if isinstance(x, jax.core.Tracer):
            found.append(path)
            continue
        if id(x) in seen or len(seen) > 20000:
            continue
        seen.add(id(x))
        if isinstance(x, dict):
            todo += [(v, "%s[%s]" % (path, str(k)[:40])) for k, v in list(x.items())]
            todo += [(k, path + "{key}") for k in list(x) if not isinstance(k, (str, int, float))]
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo += [(v, "%s[%d]" % (path, i)) for i, v in enumerate(x)]
        elif isinstance(x, types.FunctionType):
            todo += [(v, path + ".default") for v in (x.__defaults__ or ())]
            for cell in x.__closure__ or ():
                try:
                    todo.append((cell.cell_contents, path + ".cell"))
                except ValueError:
                    pass
            todo.append((vars(x), path))
        elif type(x).__module__.startswith("jax_cosmo") or (isinstance(x, type) and x.__module__.startswith("jax_cosmo")):
            if hasattr(x, "__dict__"):
                todo.append((dict(vars(x)), path + "." + getattr(type(x), "__name__", "")))
    return found


def modules():
    return {n: {k: v for k, v in vars(mod).items() if not isinstance(v, types.ModuleType) and not k.startswith("__")}
            for n, mod in list(sys.modules.items()) if n.split(".")[0] == "jax_cosmo" and mod is not None}


def clean(m, what, *objs, **w):
    f = []
    for o in objs:
        f += tracers(o)
    m.observe("no tracer is kept: " + what, not f, where=f[:5], **w)


def equal(m, rule, got, want, **w):
    if isinstance(want, str):
        x, y = [[l.split() for l in t.splitlines()] for t in (got, want)]
        same = [l[:1] for l in x] == [l[:1] for l in y] and all(np.isclose(float(p[1]), float(q[1]), rtol=2e-7) for p, q in zip(x[1:], y[1:]))
        m.observe(rule, same, got=got, want=want, **w)
        return
    g = N(got).astype(float)
    s = np.abs(N(want).astype(float)).max() if N(want).size else 0.0
    m.close(rule, g, N(want), rtol=tol(m, 2e-10, 1e-4), atol=tol(m, 2e-11, 3e-5) * s, **w)


# ways of asking a shared object; all give the value of f(o)
def eager(m, f, o):
    return f(o)


def closed_jit(m, f, o):
    return jax.jit(lambda s: s * f(o))(1.0)


def passed_jit(m, f, o):
    return jax.jit(f)(o)


def closed_vmap(m, f, o):
    return jax.vmap(lambda s: s * f(o))(jnp.array([2.0, 1.0]))[1]


def closed_grad(m, f, o):
    return jax.jacfwd(lambda s: s * f(o))(3.0)


def closed_rev(m, f, o):
    return jax.linear_transpose(lambda s: s * f(o), 0.0) and jax.vjp(lambda s: s * f(o), 1.0)[0]


def closed_scan(m, f, o):
    return jax.lax.scan(lambda q, s: (q, s * f(o)), 0.0, jnp.array([1.0, 0.5]))[1][0]


def closed_cond(m, f, o):
    return jax.jit(lambda s: jax.lax.cond(s > 0, lambda t: t * f(o), lambda t: 3 * t * f(o), s))(1.0)


def aborted(m, f, o):
    """a transformation that does not finish"""
    class Stop(Exception):
        pass

    def g(s):
        f(o)
        raise Stop
    try:
        jax.jit(g)(1.0)
    except Stop:
        pass
    return f(o)


def shape_only(m, f, o):
    jax.eval_shape(lambda s: s * f(o), 1.0)
    jax.eval_shape(f, o)
    return f(o)


def copied(m, f, o):
    return f(copy.copy(o))


def deep(m, f, o):
    return f(copy.deepcopy(o))


def pickled(m, f, o):
    return f(pickle.loads(pickle.dumps(o)))


def mapped(m, f, o):
    return f(tu.tree_map(lambda x: x * 1.0, o))


def rev_object(m, f, o):
    """differentiates through the object itself, then asks"""
    jax.grad(lambda q: jnp.sum(f(q)))(tu.tree_map(lambda x: jnp.asarray(x, float), o))
    return f(o)


WAYS = {w.__name__: w for w in (eager, closed_jit, passed_jit, closed_vmap, closed_grad, closed_rev, closed_scan, closed_cond,
                                aborted, shape_only, copied, deep, pickled, mapped, rev_object)}
WEIGHTS = np.array([6, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0.5, 1, 0.5])
WEIGHTS = WEIGHTS / WEIGHTS.sum()


def history(m, cases, what, length):
    """Random sequences of requests on a few shared objects."""
    for _ in range(cases):
        if what == "cosmology":
            items = [cosmo_item(m) for _ in range(2)]
            fns = COSMO
        elif what == "nz":
            items, fns = [nz_item(m) for _ in range(3)], NZ
        else:
            items = [probe_item(m) for _ in range(2)]
            fns = probes_(cosmology(gen.ref(m.rng, tame=True)))
        m.case(objects=[d for _, d in items], length=length)
        names = [n for n in fns if n not in HEAVY or m.rng.random() < 0.35]
        objs = [m.call("builds", lambda: it.obj(arrays=m.rng.random() < 0.3)) for it, _ in items]
        want, log = {}, []
        for step in range(length):
            i, n = int(m.rng.integers(len(objs))), str(gen.pick(m.rng, *names))
            way = WAYS[str(m.rng.choice(list(WAYS), p=WEIGHTS))]
            if n == "str" or (n in HEAVY and way not in (eager, closed_jit, copied, mapped)):
                way = eager
            if way is closed_grad and what == "nz" and n == "n at one":
                way = closed_jit
            key = (i, n)
            if key not in want:  # what a fresh object gives
                want[key] = m.call("fresh object answers", lambda: fns[n](items[i][0].obj()))
            log.append("%d %s %s" % (i, way.__name__, n))
            got = m.call("answers", lambda: way(m, fns[n], objs[i]), history=log[-12:])
            if way is closed_rev:
                x, back = want[key], None
                got = N(got)
            equal(m, "%s: same as a fresh object" % what, N(got).reshape(N(want[key]).shape) if not isinstance(got, str) else got,
                  want[key], history=log[-12:])
            m.states.add("%s|%s" % (what, ">".join(l.split(" ", 1)[1] for l in log[-2:])))
            if way is not eager:
                clean(m, what, *objs, history=log[-6:])
            if m.rng.random() < 0.06:
                # a sibling made from the used object has its own parameters
                v = items[i][0].siblings(m.rng, 1)[0]
                new = items[i][0].obj(v)
                sib = m.call("maps", lambda: tu.tree_map(lambda a, b: b, objs[i], new))
                equal(m, "%s: new parameters in a used object" % what, m.call("answers", lambda: fns[n](sib)), fns[n](items[i][0].obj(v)),
                      history=log[-12:])
            if m.rng.random() < 0.05:
                v = items[i][0].siblings(m.rng, 1)[0]
                m.call("answers", lambda: jax.vmap(lambda *p: fns[n](items[i][0].obj(list(p))) if n != "str" else 0.0)(
                    *[jnp.array([a, b]) for a, b in zip(items[i][0].values, v)]))
        # nothing was lost on the way
        for (i, n), w in want.items():
            equal(m, "%s: same at the end" % what, m.call("answers", lambda: fns[n](objs[i])), w, history=log[-12:])
        clean(m, what + " modules", modules())


def parts(m, cases):
    """An object that is part of others, some of them traced."""
    for _ in range(cases):
        u = m.rng.uniform
        n = rds.smail_nz(u(1, 2.5), u(0.7, 2), u(0.3, 0.8), zmax=3.0, gals_per_arcmin2=u(1, 20))
        f = lambda: rds.smail_nz(*n.params, zmax=3.0, gals_per_arcmin2=n.gals_per_arcmin2)
        c = cosmology(gen.ref(m.rng, gamma="maybe", tame=True))
        r = gen.params(gen.ref(m.rng, gamma="maybe", tame=True))
        c2 = jc.Cosmology(**r)
        m.case(nz=n.params, cosmo=r)
        s = u(-0.05, 0.1)
        ask = {
            "shift traced": lambda n, c: jax.jacfwd(lambda t: rds.systematic_shift(n, t, zmax=3.0)(Z))(s),
            "shift batched": lambda n, c: jax.vmap(lambda t: rds.systematic_shift(n, t, zmax=3.0)(Z))(jnp.array([s, 2 * s])),
            "alone": lambda n, c: n(Z),
            "kernel": lambda n, c: jc.probes.WeakLensing([n]).kernel(c, Z, 40.0),
            "kernel, m traced": lambda n, c: jax.jacfwd(lambda t: jc.probes.WeakLensing([n], multiplicative_bias=t).kernel(c, Z, 40.0))(0.1),
            "counts, b traced": lambda n, c: jax.jit(lambda t: jc.probes.NumberCounts([n, n], jc.bias.inverse_growth_linear_bias(t)).kernel(c, Z, 4.0))(1.3),
            "alignment traced": lambda n, c: jax.jacrev(lambda t: jc.probes.WeakLensing([n], ia_bias=jc.bias.des_y1_ia_bias(t, 0.3, 0.6)).kernel(c, Z, 40.0))(0.7),
            "cosmology traced": lambda n, c: jax.jit(lambda t: jc.probes.WeakLensing([n]).kernel(jc.Planck15(h=t), Z, 40.0))(0.7),
            "bias on its own": lambda n, c: jc.bias.inverse_growth_linear_bias(1.2)(c, Z),
            "shift eager": lambda n, c: rds.systematic_shift(n, s, zmax=3.0)(Z),
            "density of shift": lambda n, c: jnp.asarray(rds.systematic_shift(n, s, zmax=3.0, gals_per_arcmin2=7.0).gals_per_arcmin2),
        }
        order = list(m.rng.permutation(list(ask))) + list(m.rng.permutation(list(ask)))[:5]
        for k, a in enumerate(order):
            got = m.call("answers", lambda: ask[a](n, c2), order=order[:k])
            want = m.call("fresh object answers", lambda: ask[a](f(), jc.Cosmology(**r)))
            equal(m, "shared parts: same as fresh ones", got, want, what=a, order=order[:k])
            clean(m, "shared parts", n, c, c2, order=order[: k + 1])
            m.states.add("parts|" + ">".join(order[max(0, k - 1) : k + 1]))


def many(m, cases, n):
    """Many short-lived objects, made and dropped: nothing of one shows up in another."""
    vc = jit(lambda v: jnp.concatenate([f(jc.Cosmology(*v)) for f in (COSMO["chi"], COSMO["growth"], COSMO["rate"], COSMO["transverse"], COSMO["H"])]), "many c")
    vg = jit(lambda v: jnp.concatenate([f(jc.Cosmology(*v)) for f in (COSMO["chi"], COSMO["growth"], COSMO["rate"], COSMO["transverse"], COSMO["H"])]), "many g")
    vn = jit(lambda v: rds.smail_nz(*v, zmax=2.5)(Z), "many n")
    vk = jit(lambda c, w: rds.kde_nz(c, w, bw=0.15, zmax=2.5)(Z), "many k")
    for _ in range(cases):
        m.case(n=n, seed=int(m.rng.integers(1 << 30)))
        base = gen.ref(m.rng, tame=True)
        ids, reused = set(), 0
        for i in range(n):
            kind = int(m.rng.integers(4))
            if kind < 2:
                p = gen.params(base if m.rng.random() < 0.5 else gen.ref(m.rng, tame=True))
                one = str(gen.pick(m.rng, *gen.ref.__globals__["Ref"].NAMES))
                p[one] = p[one] * 1.02 + 0.003  # differs in a single parameter from its neighbours
                v = list(p.values()) + ([0.5 + 0.1 * m.rng.random()] if kind else [])
                o = jc.Cosmology(*v)
                reused += id(o) in ids
                ids.add(id(o))
                fs = [COSMO[x] for x in ("chi", "growth", "rate", "transverse", "H")]
                got = m.call("answers", lambda: [f(o) for f in fs])
                got, want = np.concatenate([N(x) for x in got]), (vg if kind else vc)(v)
            elif kind == 2:
                v = [m.rng.uniform(1, 2), m.rng.uniform(0.8, 2), m.rng.uniform(0.3, 0.8)]
                o = rds.smail_nz(*v, zmax=2.5)
                got, want = m.call("answers", lambda: o(Z)), vn(v)
            else:
                zc, w = m.rng.uniform(0.3, 1.5, 6), m.rng.uniform(0.1, 1, 6)
                o = rds.kde_nz(zc, w, bw=0.15, zmax=2.5)
                got, want = m.call("answers", lambda: o(Z)), vk(zc, w)
            equal(m, "objects do not influence each other", got, want, kind=kind, i=i)
            if m.rng.random() < 0.7:
                del o
            if i % 16 == 0:
                gc.collect()
        m.observe("objects were made anew", True, reused_addresses=reused)


def neighbours(m, cases):
    """Objects whose parameters nearly agree, asked eagerly in turn, each have results of their own."""
    lin = lambda c, k, a, transfer_fn=None: power.linear_matter_power(c, k, a, transfer_fn)
    ops = {
        "background": lambda c, n, b: jnp.concatenate([COSMO[x](c) for x in ("chi", "growth", "rate", "transverse", "H")]),
        "linear": lambda c, n, b: power.linear_matter_power(c, K, A[1:2]),
        "linear, no-wiggle": lambda c, n, b: power.linear_matter_power(c, K, A[1:2], transfer_fn=nowiggle),
        "variance": lambda c, n, b: power.sigmasqr(c, 8.0, tk.Eisenstein_Hu),
        "transfer": lambda c, n, b: tk.Eisenstein_Hu(c, K),
        "n(z)": lambda c, n, b: n(Z),
        "shifted": lambda c, n, b: rds.systematic_shift(n, 0.03, zmax=2.5)(Z),
        "lensing": lambda c, n, b: jc.probes.WeakLensing([n], ia_bias=b).kernel(c, Z, 30.0),
        "counts": lambda c, n, b: jc.probes.NumberCounts([n, n], b).kernel(c, Z, 30.0),
        "noise": lambda c, n, b: jc.probes.NumberCounts([n], b).noise(),
        "bias": lambda c, n, b: b(c, Z),
        "covariance": lambda c, n, b: acl.gaussian_cl_covariance(np.array([10.0, 20.0, 40.0]), [jc.probes.NumberCounts([n], b)], np.ones((1, 3)) * 1e-7,
                                                                 acl.noise_cl(np.array([10.0, 20.0, 40.0]), [jc.probes.NumberCounts([n], b)])),
    }
    heavy = {
        "nonlinear": lambda c, n, b: power.nonlinear_matter_power(c, K, A[1:2]),
        "spectra": lambda c, n, b: acl.angular_cl(c, np.array([20.0, 300.0]), [jc.probes.WeakLensing([n])], nonlinear_fn=lin),
    }
    for _ in range(cases):
        p, kind = gen.params(gen.ref(m.rng, gamma="maybe", tame=True)), gen.pick(m.rng, "constant", "inverse", "ia")
        v = [m.rng.uniform(1, 2), m.rng.uniform(0.8, 2), m.rng.uniform(0.3, 0.8), m.rng.uniform(1, 10)]
        b = [m.rng.uniform(0.5, 2)] + ([0.4, 0.6] if kind == "ia" else [])
        slow = ("linear", "linear, no-wiggle", "variance")
        names = [str(x) for x in m.rng.permutation([q for q in ops if q not in slow])[:6]] + [slow[m.cases % 3]]
        names += [str(gen.pick(m.rng, *heavy))] if m.rng.random() < 0.12 else []
        make = lambda p, v, b: (jc.Cosmology(**p), rds.smail_nz(*v[:3], zmax=2.5, gals_per_arcmin2=v[3]), models.BIAS[kind](*b))
        m.case(cosmo=p, nz=v, bias=b, kind=kind, ops=names)
        variants = [(p, v, b)]
        for _ in range(3):
            p2, v2, b2 = dict(p), list(v), list(b)
            e = 10 ** m.rng.uniform(*((-7, -3) if m.x64 else (-3, -1.7))) * gen.pick(m.rng, -1, 1)
            for q in m.rng.permutation(list(p2))[: gen.pick(m.rng, 1, 2)]:
                p2[str(q)] = p2[str(q)] + e
            j = int(m.rng.integers(4))
            v2[j] = v2[j] * (1 + e)
            j = int(m.rng.integers(len(b)))
            b2[j] = b2[j] * (1 - e)
            variants.append((p2, v2, b2))
        order = [0, 1, 2, 3, 0]
        for i in order:
            t = make(*variants[i])
            for n in names:
                if n in heavy and i > 1:
                    continue
                f = ops[n] if n in ops else heavy[n]
                got = m.call("answers", lambda: f(*t))
                want = jit(lambda p, v, b: f(*make(p, v, b)), "neighbours %s %s %s" % (n, kind, "gamma" in p))(*variants[i])
                equal(m, "neighbours: " + n, got, want, which=i)


def unchanged(m, cases):
    """What the caller passes in is left alone, and what is handed out is not tied to it."""
    for _ in range(cases):
        u = m.rng.uniform
        p = gen.params(gen.ref(m.rng, gamma="maybe", tame=True))
        c = jc.Cosmology(**p)
        zc, w = u(0.3, 1.2, 5), u(0.2, 1, 5)
        bins = [rds.smail_nz(1.2, 1.5, 0.5, zmax=2.5, gals_per_arcmin2=4.0), rds.kde_nz(zc, w, bw=0.15, zmax=2.0)]
        mb, sg = [0.1, -0.05], [0.3, 0.2]
        bs = [jc.bias.constant_linear_bias(1.5), jc.bias.inverse_growth_linear_bias(1.1)]
        a, z, k, ell = A.copy(), Z.copy(), K.copy(), np.array([10.0, 40.0, 200.0])
        sig = u(0.5, 2, (10, 3))
        m.case(cosmo=p, zcat=zc, weights=w)
        probes = m.call("builds", lambda: [jc.probes.WeakLensing(bins, multiplicative_bias=mb, sigma_e=sg), jc.probes.NumberCounts(bins, bs)])
        lists = [bins, mb, sg, bs, probes]
        before = [list(x) for x in lists]
        arrays = dict(zc=zc, w=w, a=a, z=z, k=k, ell=ell, sig=sig)
        saved = {n: x.copy() for n, x in arrays.items()}
        pd = dict(p)

        def run():
            return [bk.radial_comoving_distance(c, a), bk.angular_diameter_distance(c, a), bk.growth_factor(c, a), bk.growth_rate(c, a),
                    tk.Eisenstein_Hu(c, k), bins[1](z), probes[0].kernel(c, z, 30.0), probes[1].kernel(c, z, 30.0), acl.noise_cl(ell, probes),
                    acl.gaussian_cl_covariance(ell, probes, sig, 0.1 * sig), probes[0].noise(), bk.a_of_chi(c, CHI)]
        first = m.call("answers", run)
        kept = [N(x).copy() for x in first]
        for n, x in arrays.items():
            m.observe("inputs are left alone", np.array_equal(x, saved[n]) and x.dtype == saved[n].dtype, which=n)
        m.observe("lists are left alone", all(len(x) == len(y) and all(p is q for p, q in zip(x, y)) for x, y in zip(lists, before)))
        m.observe("parameters are left alone", p == pd)
        for x in first:  # a caller may write on what it got
            x = np.array(x)
            x += 1.0
        a *= 0.5
        a[:] = saved["a"]
        for q, x in zip(m.call("answers", run), kept):
            equal(m, "asking again gives the same", q, x)


def threads(m, cases, n, steps):
    """Threads share objects; the log of who ran when shows what interleavings were seen."""
    old = sys.getswitchinterval()
    for _ in range(cases):
        items = [cosmo_item(m), cosmo_item(m), nz_item(m)]
        bins = [rds.smail_nz(1.2, 1.5, 0.5, zmax=2.5), rds.smail_nz(1.5, 1.1, 0.4, zmax=2.5)]
        m.case(objects=[d for _, d in items], threads=n)
        fns = [{k: v for k, v in COSMO.items() if k not in HEAVY}] * 2 + [NZ]
        want = [{k: f(it.obj()) for k, f in fs.items()} for (it, _), fs in zip(items, fns)]
        pr = lambda b: jc.probes.WeakLensing(b).kernel(jc.Planck15(), Z, 20.0)
        wantp = pr([rds.smail_nz(1.2, 1.5, 0.5, zmax=2.5), rds.smail_nz(1.5, 1.1, 0.4, zmax=2.5)])
        objs = [it.obj() for it, _ in items]
        ways = (eager, eager, eager, closed_jit, closed_vmap, closed_grad, passed_jit)
        seeds = [int(s) for s in m.rng.integers(1 << 30, size=n)]
        out, log, gate = [[] for _ in range(n)], [], threading.Barrier(n)

        def work(t):
            rng = np.random.default_rng(seeds[t])
            gate.wait()
            for _ in range(steps):
                i = int(rng.integers(4))
                log.append(t)
                try:
                    if i == 3:
                        out[t].append(("probe", "", "", N(pr(bins))))
                        continue
                    k = str(rng.choice(list(fns[i])))
                    way = eager if k == "str" else ways[int(rng.integers(len(ways)))]
                    r = way(None, fns[i][k], objs[i])
                    out[t].append((i, k, way.__name__, r if isinstance(r, str) else N(r)))
                except Exception as e:
                    out[t].append(("error", i, "", repr(e)[:300]))
                finally:
                    log.append(t)
        try:
            sys.setswitchinterval(float(10 ** m.rng.uniform(-6, -4)))
            ts = [threading.Thread(target=work, args=(t,)) for t in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        for t in range(n):
            for i, k, way, r in out[t]:
                if i == "error":
                    m.observe("threads: calls return", False, raised=r)
                    continue
                m.observe("threads: calls return", True)
                w = wantp if i == "probe" else want[i][k]
                equal(m, "threads: same as alone", r if isinstance(r, str) else r.reshape(N(w).shape), w, what=k, way=way)
        switches = sum(x != y for x, y in zip(log, log[1:]))
        m.observe("threads: requests interleaved", switches > len(log) // 20, switches=switches, events=len(log))
        m.states.add("interleaving|" + "".join(map(str, log)))
        clean(m, "threads", *objs, *bins)


def wiggly(c, k, **kw):
    return tk.Eisenstein_Hu(c, k) * (1.0 + 0.2 * jnp.sin(9.0 * k))


def options(m, cases, spectra=False):
    """One object asked with different options in turn: each answer is of the options of its own call."""
    ref_ = lambda: gen.ref(m.rng, gamma="maybe", tame=True, Omega_b=m.rng.uniform(0.07, 0.12))
    lin = lambda c, k, a, transfer_fn=None: power.linear_matter_power(c, k, a, transfer_fn)
    smith = lambda c, k, a, transfer_fn=None: power.halofit(c, k, a, transfer_fn, prescription="smith2003")
    for _ in range(cases):
        r = gen.params(ref_())
        u = m.rng.uniform
        x = dict(a1=np.array([u(0.3, 0.6)]), a2=np.array([u(0.7, 1.0), u(0.2, 0.6)]), k1=np.exp(u(-6, 1, 3)), k2=np.exp(u(-6, 1, 2)))
        bins = lambda: [rds.smail_nz(1.4, 1.6, 0.5, zmax=2.0, gals_per_arcmin2=5.0), rds.kde_nz(np.array([0.5, 0.7]), np.array([1.0, 2.0]), bw=0.2, zmax=1.8)]
        if spectra:
            e1, e2 = np.array([20.0, 150.0]), np.array([35.0, 600.0])
            one = lambda n: [jc.probes.WeakLensing(n), jc.probes.NumberCounts(n[:1], jc.bias.constant_linear_bias(1.3))]
            two = lambda n: [jc.probes.NumberCounts(n[1:], jc.bias.inverse_growth_linear_bias(0.9)), jc.probes.WeakLensing(n[::-1])]
            cl = lambda e, p, tr, nl: lambda c, n, q: jax.jit(lambda ell: acl.angular_cl(c, ell, p(n), transfer_fn=tr, nonlinear_fn=nl))(e)
            ask = {
                "linear": cl(e1, one, tk.Eisenstein_Hu, lin), "linear, other probes": cl(e1, two, tk.Eisenstein_Hu, lin),
                "linear, other multipoles": cl(e2, one, tk.Eisenstein_Hu, lin), "no-wiggle": cl(e1, one, nowiggle, lin),
                "wiggly": cl(e2, two, wiggly, lin), "halofit": cl(e2, one, tk.Eisenstein_Hu, power.halofit),
                "smith": cl(e2, two, tk.Eisenstein_Hu, smith),
            }
        else:
            P, Q, EH = power.linear_matter_power, power.nonlinear_matter_power, tk.Eisenstein_Hu
            ask = {
                "linear": lambda c, n, q: P(c, q["k1"], q["a1"]), "linear elsewhere": lambda c, n, q: P(c, q["k2"], q["a2"]),
                "linear today": lambda c, n, q: P(c, q["k2"]), "linear, type": lambda c, n, q: P(c, q["k1"], q["a1"], type="eisenhu"),
                "linear, no-wiggle": lambda c, n, q: P(c, q["k2"], q["a2"], transfer_fn=nowiggle), "linear, wiggly": lambda c, n, q: P(c, q["k2"], q["a2"], wiggly),
                "sigma": lambda c, n, q: power.sigmasqr(c, 8.0, EH), "sigma, other radius": lambda c, n, q: power.sigmasqr(c, 3.0, EH),
                "sigma, no-wiggle": lambda c, n, q: power.sigmasqr(c, 8.0, nowiggle), "sigma, type": lambda c, n, q: power.sigmasqr(c, 8.0, EH, type="eisenhu"),
                "sigma, other range": lambda c, n, q: power.sigmasqr(c, 8.0, EH, kmin=0.1, kmax=10.0),
                "transfer": lambda c, n, q: EH(c, q["k1"]), "transfer, type": lambda c, n, q: EH(c, q["k1"], type="eisenhu"),
                "nonlinear": lambda c, n, q: Q(c, q["k1"], q["a1"]), "nonlinear elsewhere": lambda c, n, q: Q(c, q["k2"][:1], q["a2"]),
                "nonlinear, no-wiggle": lambda c, n, q: Q(c, q["k1"], q["a1"], transfer_fn=nowiggle), "smith": lambda c, n, q: Q(c, q["k1"], q["a1"], nonlinear_fn=smith),
                "linear as nonlinear": lambda c, n, q: Q(c, q["k1"], q["a1"], nonlinear_fn=lin),
                "lensing": lambda c, n, q: jc.probes.WeakLensing(n).kernel(c, Z, 20.0),
                "lensing, other order": lambda c, n, q: jc.probes.WeakLensing(n[::-1], multiplicative_bias=0.1).kernel(c, Z[:3], 200.0),
                "lensing and alignments": lambda c, n, q: jc.probes.WeakLensing(n, ia_bias=jc.bias.des_y1_ia_bias(1.5, 0.3, 0.6)).kernel(c, Z, 20.0),
                "counts": lambda c, n, q: jc.probes.NumberCounts(n, jc.bias.constant_linear_bias(1.3)).kernel(c, Z, 20.0),
                "counts, other bias": lambda c, n, q: jc.probes.NumberCounts(n, jc.bias.inverse_growth_linear_bias(1.3)).kernel(c, Z, 20.0),
                "chi": lambda c, n, q: bk.radial_comoving_distance(c, q["a2"]), "chi, other table": lambda c, n, q: bk.radial_comoving_distance(c, q["a2"], steps=64),
                "growth": lambda c, n, q: bk.growth_factor(c, q["a2"]), "rate": lambda c, n, q: bk.growth_rate(c, q["a1"]),
            }
        c, n = jc.Cosmology(**r), bins()
        m.case(cosmo=r, spectra=spectra)
        slow = [q for q in ask if spectra or "nonlinear" in q or q == "smith"]
        quick = [q for q in ask if q not in slow]
        chosen = list(m.rng.permutation(slow)[: 4 if spectra else 2]) + list(m.rng.permutation(quick)[:13])
        order = list(m.rng.permutation(chosen)) + list(m.rng.permutation(chosen))[: len(chosen) // 3]
        want = {}
        for i, q in enumerate(order):
            got = m.call("answers", lambda: ask[q](c, n, x), order=order[: i + 1])
            if q not in want:
                # inside jit, where nothing of an earlier call can be found
                want[q] = N(m.call("fresh object answers", lambda: jit(ask[q], "options %s %s" % (spectra, q))(jc.Cosmology(**r), bins(), x)))
            equal(m, "options: same as a fresh object", got, want[q], what=q, order=order[max(0, i - 12) : i + 1])
            m.states.add("options|" + ">".join(order[max(0, i - 1) : i + 1]))
        clean(m, "options", c, *n)


KINDS = {"neighbours": neighbours, "options": options, "history": history, "parts": parts, "many": many, "unchanged": unchanged, "threads": threads}
