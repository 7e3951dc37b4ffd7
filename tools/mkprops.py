"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), s)) for s in mechanism],
            "observe_at": list(observe), "hook_needed": None,
        },
    })


B = "jax_cosmo/background.py"
PW = "jax_cosmo/power.py"
RD = "jax_cosmo/redshift.py"
PR = "jax_cosmo/probes.py"
CL = "jax_cosmo/angular_cl.py"
SP = "jax_cosmo/sparse.py"
IT = "jax_cosmo/scipy/interpolate.py"
QD = "jax_cosmo/scipy/integrate.py"

prop("C01", "Expansion history obeys the Friedmann equation for every cosmology",
     "For every cosmology with matter, curvature and w0-wa dark energy, E^2(a) equals Omega_m a^-3 + Omega_k a^-2 + Omega_de exp(f(a)), where f(a) is -3 times the integral of 1+w(a') over ln a' and w(a) = w0 + wa(1-a), and H(a) is 100 E(a) in km/s/(Mpc/h). The fractions Omega_m(a) and Omega_de(a) are those terms divided by E^2(a), so that with curvature they add up to one. All of these work elementwise, keep the shape of a, and do not depend on h, sigma8 or n_s.",
     ["inputs"], "All cosmologies with E^2>0 (any curvature sign, any w0, wa), all a in (0,1], scalars or arrays of any shape, floats or integers, single and double precision, eager or jitted.",
     "The tests compare H on one flat LCDM cosmology; curvature, wa, fractions, scalars and single precision are never evaluated.",
     [B], [("w, f_de, Esqr, H, Omega_m_a, Omega_de_a", B)],
     observe=["jax_cosmo.background.w/f_de/Esqr/H/Omega_m_a/Omega_de_a"])
prop("C02", "Radial comoving distance is the integral of c/H and inverts with a_of_chi",
     "radial_comoving_distance(cosmo, a) equals R_H times the integral of da'/(a'^2 E(a')) from a to 1 within the linear-interpolation error of its table (log10_amin, steps), is zero today, never negative and never increases with a. dchioverda is the integrand at a, and a_of_chi returns the scale factor at a given distance, inverting it. Finer tables (more steps) converge to the integral, a wider log10_amin extends the range, and asking for one table never changes what another returns.",
     ["inputs", "histories"], "All cosmologies, all a in [1e-3,1] (or down to 10^log10_amin), any order and shape (scalar or 1-D) of queries, any steps/log10_amin and any sequence of calls with different options.",
     "The tests compare one flat cosmology at one set of redshifts, with the default table; a_of_chi and the table options are never called.",
     [B, "jax_cosmo/scipy/ode.py", IT], [("radial_comoving_distance, a_of_chi, dchioverda", B), ("interp", IT), ("odeint", "jax_cosmo/scipy/ode.py")],
     state=[("_workspace", "tables kept on the cosmology between calls", "jax_cosmo/core.py")],
     observe=["jax_cosmo.background.radial_comoving_distance/a_of_chi/dchioverda"])
prop("C03", "Curvature turns radial into transverse and angular diameter distances",
     "The transverse comoving distance is R_H/sqrt(Omega_k) sinh(sqrt(Omega_k) chi/R_H) in an open universe (Omega_k>0), R_H/sqrt|Omega_k| sin(sqrt|Omega_k| chi/R_H) in a closed one and chi in a flat one, and the angular diameter distance is a times it. Both are continuous in Omega_k across zero, and their derivative with respect to Omega_k is finite and right on both sides of zero and at zero.",
     ["inputs"], "All cosmologies with Omega_k negative, tiny, zero or positive, all a in [1e-3,1], eager, jitted, vmapped over cosmologies of mixed curvature.",
     "The tests only use Omega_k = 0, so two of the three branches never run, and no derivative is taken.",
     [B, "jax_cosmo/core.py"], [("transverse_comoving_distance, angular_diameter_distance", B), ("Cosmology.k, Cosmology.sqrtk", "jax_cosmo/core.py")],
     observe=["jax_cosmo.background.transverse_comoving_distance/angular_diameter_distance"])
prop("C04", "Linear growth solves the growth equation, normalised to D(1)=1",
     "Without gamma, growth_factor(a) is the growing solution of D'' + (2 - (Omega_m(a) + (1+3w(a)) Omega_de(a))/2) D'/a = 3/2 Omega_m(a) D/a^2 divided by its value today, and growth_rate(a) is dlnD/dlna of the same solution, within the error of their table. D lies in [0,1] and D(1)=1; both hold for any w0, wa and curvature, whichever of the two is called first, and are independent of h, sigma8 and n_s.",
     ["inputs", "histories"], "All cosmologies, a in [1e-3,1], scalar or 1-D, growth_factor and growth_rate called in any order.",
     "The tests compare one LCDM cosmology above a=0.01 with a 1e-2-class tolerance, always in the same call order.",
     [B, "jax_cosmo/scipy/ode.py"], [("growth_factor, growth_rate", B)],
     state=[("_workspace", "growth table shared by the two functions", "jax_cosmo/core.py")],
     observe=["jax_cosmo.background.growth_factor/growth_rate"])
prop("C05", "Growth with a growth index gamma follows f = Omega_m(a)^gamma",
     "When a cosmology has gamma, growth_rate(a) is Omega_m(a)^gamma and growth_factor(a) is exp of minus the integral of Omega_m^gamma over ln a from a to 1, for every gamma including traced ones. Everything built on growth (power spectra, growth-based bias, intrinsic alignments) uses that growth; without gamma the ODE solution is used.",
     ["inputs", "histories"], "All cosmologies with any gamma in [0.3,1], a in [1e-3,1], values and derivatives with respect to gamma.",
     "The tests use one gamma on one cosmology.",
     [B, "jax_cosmo/core.py"], [("growth_factor, growth_rate", B), ("gamma flag", "jax_cosmo/core.py")],
     observe=["jax_cosmo.background.growth_factor/growth_rate", "jax_cosmo.power.linear_matter_power"])
prop("C06", "Transfer function is the Eisenstein & Hu (1998) fit with k in h/Mpc",
     "Eisenstein_Hu(cosmo, k) is the Eisenstein & Hu (1998) fitting formula for T_CMB = 2.726 K: with baryon oscillations by default (type 'eisenhu_osc'), the no-wiggle shape for type 'eisenhu', and NotImplementedError for any other type. It works elementwise on k, tends to 1 on large scales and depends only on Omega_m, Omega_b and h (not on sigma8, n_s, curvature or dark energy at fixed Omega_m).",
     ["inputs"], "All Omega_c, Omega_b>0, h, all k in [1e-5,1e3] h/Mpc, scalar or array.",
     "The tests check the linear spectrum of one cosmology; the no-wiggle branch and other densities are not evaluated.",
     ["jax_cosmo/transfer.py"], [("Eisenstein_Hu", "jax_cosmo/transfer.py")],
     observe=["jax_cosmo.transfer.Eisenstein_Hu"])
prop("C07", "Linear power: shape k^n T(k)^2, growth D(a)^2, normalised by sigma8",
     "linear_matter_power(cosmo, k, a) is proportional to k^n_s T(k)^2 D(a)^2 with the given transfer function and its keyword options, and its normalisation makes the rms of the spectrum in spheres of 8 Mpc/h today equal to sigma8 for whichever transfer function is used. k and a broadcast against each other elementwise (equal lengths, or either a scalar), a defaults to 1, and the primordial spectrum is k^n_s.",
     ["inputs", "configurations"], "All cosmologies, k in [1e-4,1e2] h/Mpc, a in [1e-3,1], both built-in transfer functions and any user supplied one, scalars and arrays.",
     "The tests compare one cosmology at a=1 with a tolerance of a percent, default transfer function only.",
     [PW, "jax_cosmo/transfer.py", QD], [("linear_matter_power, sigmasqr, primordial_matter_power", PW), ("romb", QD)],
     observe=["jax_cosmo.power.linear_matter_power/primordial_matter_power/sigmasqr"])
prop("C08", "Non-linear power is halofit, of the prescription asked for",
     "nonlinear_matter_power(cosmo, k, a) applies nonlinear_fn (default: halofit with the Takahashi et al. 2012 coefficients; Smith et al. 2003 with prescription='smith2003'; any other prescription raises NotImplementedError; power.linear gives the linear spectrum) to the linear spectrum of the given transfer function. Halofit uses the non-linear scale where the Gaussian-smoothed variance at that a is one, the slope and curvature there, and the Omega_m(a), Omega_de(a), w(a) of the cosmology; it approaches the linear spectrum on large scales, and each (k,a) pair is computed independently of the other pairs.",
     ["inputs", "configurations"], "All cosmologies close enough to LCDM for halofit (curvature, w0, wa, gamma included), k in [1e-4,50] h/Mpc, redshifts 0 to 4, both prescriptions and transfer functions, scalars, k arrays with one a, and paired arrays.",
     "The tests use one LCDM cosmology; w != -1, curvature and pairing are never evaluated.",
     [PW], [("halofit, linear, nonlinear_matter_power", PW)],
     observe=["jax_cosmo.power.nonlinear_matter_power/halofit/linear"])
prop("C09", "Redshift distributions are normalised densities of the documented shape",
     "Calling a redshift distribution at z gives its density normalised to integrate to one over [0, zmax]: Smail z^a exp(-(z/z0)^b), a Gaussian KDE of a (weighted) catalogue with bandwidth bw, or a systematic shift that evaluates its parent at z - bias; a delta distribution is one at its plane and zero elsewhere. The densities of galaxies per arcmin^2 and per steradian agree (conversion 11818102.86), zmax is what the distribution was built with, and adding weights that are all equal, permuting the catalogue or rescaling the weights changes nothing.",
     ["inputs", "configurations"], "All Smail parameters, catalogues, weights, bandwidths, shifts of any parent (including shifts of shifts) and zmax for which n(z) is resolved by 256 Simpson intervals, any z array or scalar.",
     "No test checks a redshift distribution on its own; spectra tests use one Smail shape with the default zmax.",
     [RD, QD], [("smail_nz, kde_nz, delta_nz, systematic_shift", RD), ("simps", QD)],
     state=[("_norm", "normalisation kept between calls", RD)],
     observe=["jax_cosmo.redshift.*.__call__/zmax/gals_per_arcmin2/gals_per_steradian"])
prop("C10", "Probe kernels follow the lensing, alignment and clustering formulae",
     "WeakLensing.kernel(cosmo,z,ell) has, per bin, 3/2 (H0^2/c) Omega_m (1+z) chi(z) times the integral from z to zmax of n(z')(chi'-chi)/chi', where a delta plane replaces the integral by its value at the plane, times sqrt((l-1)l(l+1)(l+2))/(l+1/2)^2; with ia_bias it adds -5e-14 rho_crit Omega_m/D n(z) A(z) H(z) times the same l factor, and the result is multiplied by (1+m). NumberCounts.kernel is n(z) b(z) H(z). Multiplicative and galaxy/IA biases may be given once or per bin, bins may come in any order and mix delta and extended distributions (each row belongs to its own bin), and NumberCounts and alignments of delta planes raise NotImplementedError.",
     ["inputs", "configurations"], "All cosmologies, numbers of bins, orders and mixes of distribution types, zmax values, m / sigma_e / bias given as scalar or list, z arrays, scalars, ell integer or float >= 2.",
     "Tests only see kernels through a handful of spectra with one or two Smail bins, m=0 and mostly a single shared bias.",
     [PR, "jax_cosmo/bias.py", RD], [("WeakLensing.kernel, NumberCounts.kernel", PR)],
     observe=["jax_cosmo.probes.WeakLensing.kernel/NumberCounts.kernel/n_tracers/zmax"])
prop("C11", "Angular spectra are the Limber integrals of all tracer pairs, in order",
     "angular_cl(cosmo, ell, probes) returns one row per pair (i<=j) of the tracers of all probes taken in sequence, in the order (0,0),(0,1),...,(1,1),..., each being 1/c^2 times the integral over a of P((l+1/2)/chi, a) K_i K_j (dchi/da)/chi^2 from a(zmax) to 1, with zmax the largest of all probes and the given transfer and non-linear functions. A spectrum of two tracers does not depend on which other tracers or multipoles are computed with it or on their order; spectra scale with the square of linear bias and with (1+m_i)(1+m_j), and satisfy the Cauchy-Schwarz inequality. Integer and float multipoles, in any order and number, give the same.",
     ["inputs", "configurations"], "All cosmologies, mixes of probes (lensing with and without alignments, clustering, delta planes), numbers of bins, multipoles 2..5000, transfer and non-linear options, eager or jitted.",
     "Tests compute single-bin or two-bin auto spectra of one cosmology at float multipoles; ordering across probes and cross spectra of several probes are not examined.",
     [CL, PR, PW, B], [("angular_cl, cl ordering", CL), ("simps", QD)],
     observe=["jax_cosmo.angular_cl.angular_cl"])
prop("C12", "Noise spectra and Gaussian (Knox) covariance of all spectra",
     "noise_cl is sigma_e^2/n for lensing bins and 1/n for clustering bins (n per steradian) on auto-spectra and zero on cross-spectra, in the order of angular_cl. gaussian_cl_covariance of spectra (i,j) and (m,n) is [C_im C_jn + C_in C_jm] / [(2l+1) dl f_sky] with C signal plus noise, diagonal in l with dl the gradient of ell; the sparse form holds those diagonals in blocks and expands to exactly the dense form, which is symmetric and positive semi-definite. gaussian_cl_covariance_and_mean returns the flattened signal of angular_cl and that covariance, honouring its transfer, non-linear, f_sky and sparse options.",
     ["inputs", "configurations"], "All numbers and mixes of probes and bins, signal arrays, noise, non-uniform ell (two or more), f_sky in (0,1], scalar or per-bin sigma_e, sparse or dense.",
     "One test compares sparse and dense for one probe set; the entries themselves, f_sky, non-uniform ell and noise are unchecked.",
     [CL, PR], [("noise_cl, gaussian_cl_covariance, gaussian_cl_covariance_and_mean", CL), ("noise", PR)],
     observe=["jax_cosmo.angular_cl.noise_cl/gaussian_cl_covariance/gaussian_cl_covariance_and_mean"])
prop("C13", "Sparse block-diagonal algebra agrees with dense linear algebra",
     "For matrices made of diagonal blocks, to_dense lays each diagonal into its block, and dot (vector, dense or sparse on either side, and dense-sparse-dense), inv, slogdet and det give what numpy gives on the dense equivalents, sparse times sparse and inv being sparse again. Any block shape (rectangular where it makes sense), one or many diagonal elements, and any sign of the determinant are handled; incompatible shapes, non-square inverses or wrong numbers of operands raise ValueError.",
     ["inputs"], "All (ny,nx,ndiag) shapes including 1, all finite invertible values, numpy or jax arrays or nested lists for dot, single and double precision, eager, jitted or vmapped.",
     "Tests use a couple of fixed small matrices.",
     [SP], [("to_dense, dot, inv, slogdet, det, is_sparse, check_sparse", SP)],
     observe=["jax_cosmo.sparse.*"])
prop("C14", "Gaussian log-likelihood is -1/2 (r^T C^-1 r + log det C)",
     "gaussian_log_likelihood(data, mu, C) returns -1/2 (r^T C^-1 r + ln det C) with r = mu - data, and without the determinant term when include_logdet is False. Dense covariances with either inverse_method and sparse covariances give the same value, any other inverse_method raises NotImplementedError for a dense one, and the value is symmetric in data and mu and largest at mu = data.",
     ["inputs", "configurations"], "All data, means and positive definite covariances (dense or sparse blocks), both inverse methods, with and without determinant, eager or jitted.",
     "One test compares the three forms with each other without ever comparing against the formula.",
     ["jax_cosmo/likelihood.py", SP], [("gaussian_log_likelihood", "jax_cosmo/likelihood.py")],
     observe=["jax_cosmo.likelihood.gaussian_log_likelihood"])
prop("C15", "Derivatives by autodiff are the derivatives of the computed values",
     "Forward-mode and reverse-mode derivatives of distances, growth, power spectra, kernels, angular spectra and likelihoods with respect to every cosmological parameter (gamma included), nuisance parameter (Smail parameters, shift, galaxy and alignment bias amplitudes, multiplicative bias) and galaxy density are finite and agree with each other and with finite differences of the same function. This includes the fiducial values where special branches start: Omega_k=0, w0=-1, wa=0, m=0, zero shift and zero alignment amplitude.",
     ["inputs", "configurations"], "All differentiable parameters, at random and at fiducial points, forward, reverse and mixed second derivatives.",
     "No test takes any derivative, although differentiability is why the library exists.",
     [B, PW, PR, CL, RD, "jax_cosmo/core.py", "jax_cosmo/bias.py", "jax_cosmo/scipy"], [("everything is traceable JAX code; parameters are pytree leaves", "jax_cosmo/core.py"), ("container.params", "jax_cosmo/jax_utils.py")],
     observe=["jax.jacfwd / jax.grad / jax.hessian of the public functions"])
prop("C16", "Objects survive JAX transformations and flattening unchanged",
     "Cosmologies (with or without gamma), redshift distributions, biases, probes and splines can be flattened and rebuilt, passed through jit, vmap and grad as arguments and returned as results, and then give the same values as the original: every parameter keeps its meaning and its configuration (zmax, bandwidth, sigma_e, alignments on or off, endpoints, order, galaxy density). Functions evaluated under jit, or vmapped over batches of parameters, equal those evaluated eagerly one by one.",
     ["inputs", "configurations", "programs"], "All object types, nested to any depth, with scalar and list options; jit, vmap, tree_map, flatten/unflatten, and combinations.",
     "No test passes an object through a transformation or flattens one with a gamma, a multiplicative bias or a density.",
     ["jax_cosmo/core.py", "jax_cosmo/jax_utils.py", RD, PR, IT, "jax_cosmo/bias.py"], [("tree_flatten, tree_unflatten", "jax_cosmo/core.py, jax_utils.py, redshift.py, probes.py, scipy/interpolate.py")],
     observe=["jax.tree_util.tree_flatten/unflatten/map, jax.jit, jax.vmap"])
prop("C17", "Results do not depend on earlier calls, transformations or threads",
     "Calling any function on a cosmology, redshift distribution or probe gives the same result whatever was called on that object before, in whatever order, with whatever options, inside or outside of a transformation (jit, vmap, grad), also from several threads at once. Objects never keep tracers of a finished transformation, and objects built from different parameters never influence each other.",
     ["histories", "schedules"], "All sequences and interleavings of public calls sharing objects, including calls inside transformations that close over them and concurrent calls.",
     "Tests build a new cosmology per test and never reuse one across transformations, options or threads.",
     [B, RD, "jax_cosmo/core.py"], [("workspace of the cosmology; cached norm of a distribution", B + ", " + RD)],
     state=[("_workspace", "tables kept on the cosmology", "jax_cosmo/core.py"), ("_norm", "cached normalisation", RD)],
     observe=["every public function taking a cosmology, a distribution or a probe"])
prop("C18", "Spline interpolation matches scipy and its own calculus",
     "InterpolatedUnivariateSpline passes through its points and equals scipy's interpolating spline of the same degree 1, 2 or 3 inside the data range and when extrapolating; with endpoints='natural' the cubic has zero second derivative at both ends. derivative(x, n) is its n-th derivative for n up to the degree, antiderivative is an antiderivative of it, continuous across knots, and integral(a,b) is the signed integral, also when b < a.",
     ["inputs"], "All strictly increasing abscissae (uneven spacing, minimal number of points up), any ordinates, degrees 1-3, both endpoint conditions, any query points and bounds.",
     "Tests use one smooth function on one grid and never the natural endpoints.",
     [IT], [("InterpolatedUnivariateSpline", IT)],
     observe=["jax_cosmo.scipy.interpolate.InterpolatedUnivariateSpline"])
prop("C19", "Quadrature and ODE stepping have the exactness of their methods",
     "simps(f,a,b,N) is the composite Simpson rule: exact for cubics, for scalar, vector or array valued integrands (abscissa first), reversed or traced bounds, fourth-order convergent, and ValueError for odd N. romb(f,a,b,args,divmax) is Romberg integration: exact for polynomials up to degree 2 divmax + 1, linear and antisymmetric in its bounds, converging with divmax, and return_error also gives the last change. odeint(fn,y0,t) is the classical RK4 solution at every t (the first being y0), fourth-order accurate on any monotonic grid, for scalar or vector states.",
     ["inputs"], "All integrands and right-hand sides, intervals, orders and grids; eager, jitted and differentiated.",
     "No test calls any of these directly.",
     [QD, "jax_cosmo/scipy/ode.py"], [("simps, romb", QD), ("odeint", "jax_cosmo/scipy/ode.py")],
     observe=["jax_cosmo.scipy.integrate.simps/romb", "jax_cosmo.scipy.ode.odeint"])
prop("C20", "Table interpolation is piecewise linear on the bracketing segment",
     "interp(x, xp, fp) is the linear interpolation of the table between the two nodes that bracket x, reproducing the nodes exactly, for increasing and decreasing tables with uneven spacing; it is continuous and stays between the values of the bracketing nodes. Its derivative with respect to x is the slope of the segment and with respect to fp the interpolation weights.",
     ["inputs"], "All strictly monotonic tables of three or more nodes, all x within the table.",
     "No test calls it directly; the results using it have tolerances far above the error of a wrong segment.",
     [IT], [("interp", IT)], observe=["jax_cosmo.scipy.interpolate.interp"])
prop("C21", "Outputs are finite in both precisions and single agrees with double",
     "For valid inputs (physical cosmologies, a in [1e-3,1], k in [1e-4,1e2], multipoles 2 to 5000, resolved n(z)) every background, power, kernel, spectrum and covariance output is finite, including at the edges of its domain (a=1, z=0, z=zmax, chi=0, ends of tables), and no indexing is out of bounds. The default single-precision mode gives the same results as double precision to single-precision accuracy.",
     ["inputs", "configurations"], "All valid inputs including the edges of the domains, float32 and float64, integer inputs.",
     "All tests run in double precision at interior points.",
     [B, PW, PR, CL, RD], [("clips guarding divisions and logs", B + ", " + PR + ", " + CL)],
     observe=["all public functions, under jax debug_nans and checkify index/nan checks"])
prop("C22", "Cosmology parameters keep their identity; derived ones are consistent",
     "A cosmology reports the parameters it was given, and Omega_m = Omega_b + Omega_c, Omega = 1 - Omega_k, Omega_de = 1 - Omega_k - Omega_m, k = -sign(Omega_k) and sqrtk = sqrt|Omega_k|, for Python, numpy, jax or traced parameters, with gamma None unless given. Planck15() is the Planck 2015 cosmology (0.2589, 0.0486, h 0.6774, n_s 0.9667, sigma8 0.8159, flat, w=-1) and any keyword overrides just that parameter. z2a and a2z are 1/(1+z) and 1/a-1, inverse to each other, and the printed form of a cosmology shows its parameters.",
     ["inputs", "configurations"], "All parameter values and subsets of overrides.",
     "The tests construct cosmologies with one set of values and never look at the derived parameters.",
     ["jax_cosmo/core.py", "jax_cosmo/parameters.py", "jax_cosmo/utils.py"], [("Cosmology properties", "jax_cosmo/core.py"), ("Planck15", "jax_cosmo/parameters.py")],
     observe=["jax_cosmo.Cosmology attributes", "jax_cosmo.Planck15", "jax_cosmo.utils"])
prop("C23", "Galaxy and alignment bias models follow their formulae",
     "constant_linear_bias(b) is b at every redshift, inverse_growth_linear_bias(b) is b/D(a(z)) with the growth of the given cosmology (b today), and des_y1_ia_bias(A,eta,z0) is A((1+z)/(1+z0))^eta. Each is elementwise in z with the shape of z, and linear in its amplitude.",
     ["inputs"], "All amplitudes, slopes, pivots and cosmologies (with and without gamma), z in [0,10], scalar and array.",
     "The tests use b=1 constant bias or one A, eta=0 at most.",
     ["jax_cosmo/bias.py"], [("constant_linear_bias, inverse_growth_linear_bias, des_y1_ia_bias", "jax_cosmo/bias.py")],
     observe=["jax_cosmo.bias.*.__call__"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
    print(len(P), "properties")
