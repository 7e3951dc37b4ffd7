"""What each check runs: tasks per tier, the rule behind the case counts."""

Q, T = "quick", "thorough"


def tasks(kind, n, x64, /, cost=1.0, **args):
    return [dict(kind=kind, i=i, x64=x64, cost=cost, args=args) for i in range(n)]


def both(kind, n, n32=None, /, cost=1.0, **args):
    n32 = max(1, n // 4) if n32 is None else int(n32)
    a = tasks(kind, n, True, cost=cost, **args)
    b = tasks(kind, n32, False, cost=cost, **args)
    for t in b:
        t["i"] += 100000
    return a + b


def vary(ts, j):
    """Other random inputs than the same kind with another j."""
    for t in ts:
        t["i"] += 1000 * (j + 1)
    return ts


PLAN = {}


def plan(prop, rule, assumptions=()):
    def deco(fn):
        PLAN[prop] = dict(tasks=fn, rule=rule, assumptions=list(assumptions))
        return fn
    return deco


GENERIC = ("A case is one generated cosmology (edge-biased: flat, tiny and large curvature, "
           "w=-1 and not, with and without gamma) with its inputs; distinct = distinct by hash of "
           "all generated inputs, precision and workload; ")


@plan("C01", GENERIC + "non-trivial as every case compares values against the Friedmann equation.",
      ["the reference closed forms of rv/oracle.py, cross-checked by quadrature"])
def _(tier):
    s = 1 if tier == Q else 20
    return both("jitted", 4 * s, cases=120) + both("eager", 4 * s, cases=40, cost=1.5) + \
        both("invariances", 4 * s, cases=25)


@plan("C02", GENERIC + "queries are sorted, reversed or random, with a=1, the table end and scalars; "
      "every case compares distances against an independent quadrature.",
      ["Gauss-Legendre quadrature of rv/oracle.py (4 x 96 points)",
       "error bound of linear interpolation on the documented table"])
def _(tier):
    s = 1 if tier == Q else 20
    return both("jitted", 4 * s, cases=60) + both("eager", 4 * s, 2 * s, cases=4, cost=2) + \
        tasks("converged", 2 * s, True, cases=20)


@plan("C03", GENERIC + "curvature is zero, tiny, open or closed in comparable shares; batches mix all.",
      ["quadrature and sin/sinh of rv/oracle.py"])
def _(tier):
    s = 1 if tier == Q else 20
    return both("jitted", 4 * s, 2 * s, cases=60) + both("eager", 4 * s, 2 * s, cases=8, cost=2) + \
        both("batched", s, s, cases=15) + both("derivative", 3 * s, s, cases=14, cost=2)


@plan("C04", GENERIC + "every case compares growth against an adaptive 8th order solution of the growth equation.",
      ["DOP853 solution (rtol 1e-9) of rv/oracle.py", "interpolation error bound of the 128-node table"])
def _(tier):
    s = 1 if tier == Q else 20
    return both("jitted", 4 * s, 2 * s, cases=60) + both("eager", 4 * s, 2 * s, cases=6, cost=2) + \
        both("invariances", 2 * s, s, cases=30)


@plan("C05", GENERIC + "every cosmology here has a gamma; objects with other gammas and without are interleaved.",
      ["quadrature of Omega_m^gamma in rv/oracle.py"])
def _(tier):
    s = 1 if tier == Q else 20
    return both("jitted", 3 * s, s, cases=60) + both("eager", 4 * s, 2 * s, cases=4, cost=2) + \
        both("derived", 3 * s, s, cases=12, cost=2) + both("derivative", 2 * s, s, cases=20) + \
        both("nonlinear", s, s, cases=20, pr="takahashi2012", cost=2) + vary(both("nonlinear", s, 0, cases=20, pr="smith2003", cost=2), 1)


@plan("C06", GENERIC + "wavenumbers span 1e-5 to 1e3 h/Mpc; both shapes, the default and refused types.",
      ["independent transcription of Eisenstein & Hu (1998) in rv/oracle.py"])
def _(tier):
    s = 1 if tier == Q else 20
    return both("jitted", 4 * s, 2 * s, cases=80) + both("eager", 3 * s, s, cases=12, cost=1.5) + \
        both("invariances", 2 * s, s, cases=30)


@plan("C07", GENERIC + "default, oscillating, no-wiggle and user supplied transfer functions with and "
      "without keyword options; k and a are paired, one of them scalar, or a omitted.",
      ["rv/oracle.py transfer, growth and fine Simpson variance",
       "KF1 in known_findings.json: variance truncated to e^-4 < k < e^3"])
def _(tier):
    s = 1 if tier == Q else 20
    names = ("default", "osc", "nowiggle", "explicit", "user", "user_kw")
    out = both("eager", 4 * s, 2 * s, cases=3, cost=2)
    for j, name in enumerate(names):
        out += vary(both("jitted", s, s if j % 3 == 0 else 0, cases=25, name=name, size=(1, 2, 7, 16)[j % 4]), j)
        out += vary(both("relations", s, s if j % 3 == 1 else 0, cases=12, name=name), j)
    return out


@plan("C08", "A case is one generated cosmology near LCDM (curvature, w0, wa, gamma) with wavenumbers and "
      "redshifts paired, one redshift, or scalars, for one prescription and transfer function; distinct by "
      "hash of all generated inputs; non-trivial as values are compared against an independent halofit.",
      ["rv/oracle.py: halofit with the scales found by root finding on a fine grid",
       "the linear amplitude is taken from the library (decided by C07)"])
def _(tier):
    s = 1 if tier == Q else 15
    out = []
    combos = [("default", "default", "ka", 12), ("osc", "smith2003", "ka", 12), ("nowiggle", "takahashi2012", "k1", 8),
              ("user", "smith2003", "k1", 8), ("default", "halofit", "11", 1), ("nowiggle", "linear", "ka", 6),
              ("user", "default", "ka", 5), ("nowiggle", "smith2003", "11", 1)]
    for j, (tr, pr, kind, size) in enumerate(combos):
        out += vary(both("jitted", s, s * (j in (0, 3)), cases=14, tr=tr, pr=pr, kind=kind, size=size), j)
    for j, (tr, pr) in enumerate([("default", "default"), ("nowiggle", "smith2003")]):
        out += vary(both("independent", s, s * (j == 1), cases=12, tr=tr, pr=pr, size=6), j)
    for j, (tr, pr) in enumerate([("default", "default"), ("nowiggle", "smith2003"), ("user", "takahashi2012"), ("osc", "linear")]):
        out += vary(both("eager", s, s * (j == 2), cases=1 + (j > 1), tr=tr, pr=pr, cost=1.5), j)
    return out


@plan("C09", "A case is one generated distribution (Smail, KDE with catalogue and weights, shift of those "
      "or of a shift, delta) with zmax, density and several redshift arrays; distinct by hash of its "
      "parameters; non-trivial as its values are compared with the density and norm computed apart.",
      ["Simpson rule on 20000 intervals for norms; distributions that 256 intervals resolve to 2%"])
def _(tier):
    s = 1 if tier == Q else 20
    return both("eager", 5 * s, 2 * s, cases=15) + both("jitted", 4 * s, 2 * s, cases=15) + \
        both("delta", s, s, cases=12) + both("invariances", 2 * s, s, cases=12)


PROBES = ("A case is one generated cosmology with probes of 1 to 4 bins (Smail, KDE, shifted, delta planes), "
          "biases, alignments and multiplicative biases given once or per bin; distinct by hash of all generated inputs; ")


@plan("C10", PROBES + "non-trivial as every kernel value is compared with its formula.",
      ["Simpson rule on 4096 intervals for the lensing efficiency", "error bounds of the distance and growth tables"])
def _(tier):
    s = 1 if tier == Q else 20
    out = both("refused", s, s, cases=3) + both("bins", s, s, cases=8) + both("near", 2 * s, s, cases=10)
    for j, k in enumerate(("wl", "nc")):
        out += vary(both("eager", 3 * s, s, cases=7, kind=k), j)
        for n in (1, 2, 3, 4):
            out += vary(both("jitted", 2 * s, s if n % 2 else 0, cases=25, kind=k, n=n), 10 * j + n)
    out += vary(both("jitted", s, s, cases=25, kind="wl", n=2, delta=True), 30)
    return out


@plan("C11", PROBES + "1 to 4 tracers in one to three probes with multipoles from 2 to 5000; non-trivial as "
      "every spectrum is compared with its Limber integral.",
      ["Simpson rule on 1024 intervals over ingredients decided by C02, C08 and C10",
       "rv/oracle.py: Limber integral with independent distances, growth, transfer, halofit and kernels"])
def _(tier):
    s = 1 if tier == Q else 12
    out = []
    combos = [("wl2 nc2", "default", "default"), ("nc1 wl2i", "nowiggle", "linear"), ("wl1d wl2", "osc", "linear"),
              ("nc3", "nowiggle", "smith2003"), ("wl1i nc1 wl1d", "user", "linear"), ("wl1", "default", "linear"),
              ("nc2 wl1", "user", "takahashi2012")]
    for j, (la, tr, pr) in enumerate(combos):
        out += vary(both("assembly", s, s * (j in (0, 4)), cases=8 if pr != "linear" else 12, layout=la, tr=tr, pr=pr,
                         independent=2, cost=2), j)
    for j, (la, tr, pr) in enumerate([("wl2 nc2", "default", "linear"), ("nc1 wl1i wl1d", "nowiggle", "default"), ("wl1 nc2", "user", "linear")]):
        out += vary(both("relations", s, s * (j == 0), cases=6, layout=la, tr=tr, pr=pr, cost=3), j)
    for j, (la, tr, pr) in enumerate([("wl1 nc1", "default", "default"), ("nc1 wl2i", "nowiggle", "linear")]):
        out += vary(both("eager", s, s * (j == 1), cases=2, layout=la, tr=tr, pr=pr, cost=3), j)
    return out


@plan("C12", PROBES + "random positive semi-definite signals (some rank deficient) of up to 4 tracers, multipoles "
      "evenly and unevenly spaced, integer and not; every covariance element is compared with the Knox formula.",
      ["the Knox covariance by explicit loops in rv/checks/c12.py"])
def _(tier):
    s = 1 if tier == Q else 15
    return both("covariance", 4 * s, 2 * s, cases=20) + both("traced", 3 * s, s, cases=15) + \
        both("both_at_once", s, s, cases=2, layout="nc1 wl2i", tr="nowiggle", pr="linear", cost=3) + \
        vary(both("both_at_once", s, 0, cases=2, layout="wl1 nc1", tr="user", pr="default", cost=3), 1)


@plan("C13", "A case is a set of random block-diagonal matrices (1 to 5 blocks a side, 1 to 200 elements per "
      "diagonal, rectangular for products, any sign of determinant) with dense operands; distinct by hash; "
      "non-trivial as every result is compared with dense numpy.",
      ["numpy dense linear algebra in double precision"])
def _(tier):
    s = 1 if tier == Q else 25
    return both("products", 3 * s, 2 * s, cases=20) + both("inverses", 3 * s, 2 * s, cases=25) + \
        both("big", s, s, cases=6) + both("refused", s, s, cases=15)


@plan("C14", "A case is a random positive definite block-diagonal covariance (1 to 54 data) with data and mean; "
      "each is evaluated sparse and dense, by every method, with and without determinant.",
      ["numpy solve and slogdet, block by block in double precision"])
def _(tier):
    s = 1 if tier == Q else 25
    return both("values", 2 * s, s, cases=15, traced=False) + vary(both("values", s, s, cases=4, traced=True), 1) + \
        both("derivatives", s, s, cases=15)


@plan("C18", "A case is one spline (degree 1 to 3, natural or not-a-knot ends, 2 to 17 uneven points, also integers) "
      "queried inside, outside and at its points; distinct by hash of data and queries.",
      ["scipy InterpolatedUnivariateSpline and CubicSpline"])
def _(tier):
    s = 1 if tier == Q else 25
    return both("eager", 4 * s, 2 * s, cases=15) + both("traced", 3 * s, s, cases=6)


@plan("C19", "A case is one integrand (polynomial at the degree of exactness, exponential, oscillating, peaked, kinked; "
      "scalar, vector and matrix valued) with bounds, or one system of equations with its time grid.",
      ["numpy transcriptions of the three methods; exact integrals; DOP853"])
def _(tier):
    s = 1 if tier == Q else 25
    return both("simpson", 2 * s, s, cases=25) + both("romberg", 3 * s, s, cases=12) + both("runge_kutta", 2 * s, s, cases=20)


@plan("C20", "A case is one table (2 to 256 nodes; even, uneven, logarithmic; increasing or decreasing) with 12 queries "
      "over all segments; distinct by hash.", ["numpy searchsorted and linear interpolation"])
def _(tier):
    s = 1 if tier == Q else 25
    out = []
    for j, n in enumerate((2, 3, 4, 7, 30, 256)):
        out += vary(both("values", s, s, cases=60, n=n), j)
    return out


@plan("C22", "A case is one set of parameters (Python, numpy or jax numbers in any order, traced, batched) or "
      "one array of redshifts.", ["the definitions, in numpy"])
def _(tier):
    s = 1 if tier == Q else 25
    return both("objects", 2 * s, s, cases=40) + both("traced", s, s, cases=40) + both("planck", s, s, cases=40) + \
        both("conversions", s, s, cases=60)


@plan("C23", GENERIC + "each with a bias model, its amplitude and redshifts, compared with the formula.",
      ["rv/oracle.py growth for the inverse growth bias"])
def _(tier):
    s = 1 if tier == Q else 20
    return both("eager", 4 * s, 2 * s, cases=12) + both("traced", 2 * s, s, cases=60)


@plan("C16", "A case is one object (cosmology, distribution, bias, probe, spline) with two siblings of the same structure, "
      "flattened, rebuilt, jitted, returned, batched and differentiated; every observable is compared with the eager original.",
      ["the eager evaluation of a fresh object, itself decided by the other properties"])
def _(tier):
    s = 1 if tier == Q else 20
    out = []
    for j, (w, n) in enumerate((("cosmology", 3), ("nz", 6), ("bias", 8), ("probe", 3), ("spline", 5))):
        k = 2 if w == "probe" else 1
        out += vary(both("transform", k * s, s, cases=n, what=w, cost=2), j)
    return out + both("distinct", s, s, cases=2, cost=2) + tasks("parameters", s, True, cases=15)


@plan("C17", "A case is a random history of requests (function, options, way: eager, inside jit, vmap, grad, scan, cond, aborted "
      "traces, copies, pickles, several threads) on shared objects; every answer is compared with that of a fresh object; "
      "distinct counts case hashes, pairs of consecutive requests seen, and distinct thread interleavings.",
      ["a fresh object's eager answer, itself decided by the other properties"])
def _(tier):
    s = 1 if tier == Q else 20
    out = []
    for j, (w, n, l) in enumerate((("cosmology", 2, 40), ("nz", 3, 30), ("probe", 2, 18))):
        out += vary(both("history", (2 if j == 0 else 1) * s, s, cases=n, what=w, length=l, cost=2), j)
    return out + both("parts", s, s, cases=3) + both("many", s, s, cases=1, n=150) + both("unchanged", s, s, cases=2) + \
        both("threads", s, s, cases=3, n=6, steps=25) + both("options", 2 * s, s, cases=3, cost=6) + \
        vary(both("options", s, s, cases=1, spectra=True, cost=4), 1) + both("neighbours", s, s, cases=3, cost=4)


@plan("C15", "A case is one point in parameter space (half of them at fiducial special values) for one function; every derivative "
      "with respect to every number, forward and reverse, is compared with differences of the same compiled function, "
      "in single precision with the double precision derivative.",
      ["central differences (step 1e-5) in double precision, tolerance widened by the difference of the one-sided ones"])
def _(tier):
    s = 1 if tier == Q else 12
    out = []
    for j, g in enumerate((False, True)):
        out += vary(both("background", s, s, cases=12, gamma=g, second=not g, cost=2), j)
    out += both("inverse_distance", s, 0, cases=8)
    for j, (g, tr, pr, rev) in enumerate([(False, "default", "linear", None), (True, "nowiggle", "linear", True), (False, "user", "linear", False),
                                          (False, "default", "default", False), (True, "nowiggle", "smith2003", True)]):
        out += vary(both("spectrum", s, s * (j in (0, 4)), cases=8 if pr == "linear" else 5, gamma=g, tr=tr, pr=pr, reverse=rev,
                         second=j == 1, cost=3), j)
    for t in out:
        if t["args"].get("reverse", 0) is None:
            t["args"]["reverse"] = tier != Q or not t["x64"]
    for j, (la, g) in enumerate([("smail shift | wl ia m | nc", False), ("kde smail | wl mm | nc list inverse", False),
                                 ("delta smail delta | wl m", False), ("kshift | wl ia mm | nc inverse", True)]):
        out += vary(both("kernels", s, s * (j in (0, 2)), cases=8, layout=la, gamma=g, reverse=j != 1, cost=2), j)
    for j, k in enumerate(("smail", "shift", "kde", "kshift")):
        out += vary(both("distributions", s, s * (j == 1), cases=12, kind=k), j)
    out += both("algebra", s, s, cases=8)
    for j, (la, tr, pr, w, g, mo) in enumerate([
            ("smail | wl ia m | nc", "default", "linear", "mean", False, "forward"),
            ("shift smail | wl m", "nowiggle", "linear", "likelihood", False, "reverse"),
            ("smail shift | nc inverse", "nowiggle", "linear", "covariance", True, "forward"),
            ("delta smail | wl", "nowiggle", "linear", "dense", False, "reverse"),
            ("smail | nc list", "default", "default", "mean", False, "forward")]):
        out += vary(both("spectra", s, s * (j == 2), cases=2 if pr == "linear" else 1, layout=la, tr=tr, pr=pr, which=w, gamma=g, mode=mo, cost=6), j)
    return out


@plan("C21", GENERIC + "or a set of probes or matrices; inputs sit on the edges of the domain (a=1, a=1e-3, table nodes and their "
      "neighbours, z=0, z=zmax, chi=0, multipoles 2 and 5000, integers); outputs are checked to be finite, single precision "
      "against double, and indices by jax.experimental.checkify inside the compiled code.",
      ["the double precision values, decided by the other properties", "checkify.index_checks sees every gather, scatter and dynamic slice"])
def _(tier):
    s = 1 if tier == Q else 20
    out = both("background", 2 * s, 3 * s, cases=25) + both("integers", s, s, cases=3) + both("likelihood", s, s, cases=8)
    for j, (tr, pr) in enumerate((("default", "linear"), ("nowiggle", "linear"), ("default", "default"), ("nowiggle", "smith2003"))):
        out += vary(both("spectrum", s, s, cases=12, tr=tr, pr=pr, cost=2), j)
    for j, (k, n) in enumerate((("wl", 1), ("wl", 3), ("nc", 2))):
        out += vary(both("kernels", s, 2 * s, cases=10, kind=k, n=n), j)
    for j, (la, tr, pr) in enumerate((("wl2 nc1", "default", "linear"), ("wl1i nc1 wl1d", "nowiggle", "default"))):
        out += vary(both("spectra", s * (j == 1), s, cases=4, layout=la, tr=tr, pr=pr, cost=4), j)
    for j, w in enumerate(("background", "power", "nonlinear", "kernels", "spectra", "splines")):
        out += vary(both("indexing", s, s * (j in (0, 3)), cases=8, what=w, cost=2), j)
    return out
