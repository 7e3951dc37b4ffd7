"""Independent reference model, in double precision numpy, of what jax_cosmo documents.

Nothing here imports jax or jax_cosmo.  Quantities are obtained from their
definitions (integrals by Gauss-Legendre or fine Simpson rules, growth by an
adaptive high order ODE solver, halofit scales by root finding), not by the
algorithms of the code under test.
"""
import numpy as np
from scipy import integrate
from scipy import optimize

RH = 2997.92458  # Hubble radius, Mpc/h
C_KMS = 299792.458
TCMB = 2.726
RHOCRIT = 2.7750e11
C1 = 5e-14
STERADIAN_TO_ARCMIN2 = (180.0 * 60.0 / np.pi) ** 2

_GLX, _GLW = np.polynomial.legendre.leggauss(96)


def gauss(f, lo, hi, pieces=4):
    """int_lo^hi f, vectorised over arrays lo/hi; f maps arrays elementwise."""
    lo = np.asarray(lo, float)
    hi = np.asarray(hi, float)
    tot = 0.0
    for p in range(pieces):
        a = lo + (hi - lo) * p / pieces
        b = lo + (hi - lo) * (p + 1) / pieces
        m, h = 0.5 * (a + b), 0.5 * (b - a)
        x = m[..., None] + h[..., None] * _GLX
        tot = tot + h * np.sum(_GLW * f(x), axis=-1)
    return tot


class Ref:
    """Reference cosmology: plain floats only."""

    NAMES = ("Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa")

    def __init__(self, Omega_c, Omega_b, h, n_s, sigma8, Omega_k, w0, wa, gamma=None):
        for n, v in zip(
            self.NAMES, (Omega_c, Omega_b, h, n_s, sigma8, Omega_k, w0, wa)
        ):
            setattr(self, n, float(v))
        self.gamma = None if gamma is None else float(gamma)
        self.Om = self.Omega_c + self.Omega_b
        self.Ode = 1.0 - self.Omega_k - self.Om
        self._growth = None

    # ---- background
    def w(self, a):
        return self.w0 + self.wa * (1.0 - np.asarray(a, float))

    def f_de(self, a):
        # closed form of -3 int_0^{ln a} (1 + w) dln a'
        a = np.asarray(a, float)
        return -3.0 * ((1 + self.w0 + self.wa) * np.log(a) + self.wa * (1.0 - a))

    def f_de_quad(self, a):
        return -3.0 * gauss(lambda x: 1.0 + self.w(np.exp(x)), 0.0, np.log(a))

    def E2(self, a):
        a = np.asarray(a, float)
        return (
            self.Om / a**3 + self.Omega_k / a**2 + self.Ode * np.exp(self.f_de(a))
        )

    def E(self, a):
        return np.sqrt(self.E2(a))

    def H(self, a):
        return 100.0 * self.E(a)

    def Om_a(self, a):
        return self.Om / np.asarray(a, float) ** 3 / self.E2(a)

    def Ode_a(self, a):
        return self.Ode * np.exp(self.f_de(a)) / self.E2(a)

    def Ok_a(self, a):
        return self.Omega_k / np.asarray(a, float) ** 2 / self.E2(a)

    # ---- distances
    def dchida(self, a):
        return RH / (np.asarray(a, float) ** 2 * self.E(a))

    def chi(self, a):
        a = np.asarray(a, float)
        return RH * gauss(lambda x: np.exp(-x) / self.E(np.exp(x)), np.log(a), 0 * a)

    def sinn(self, chi):
        chi = np.asarray(chi, float)
        if self.Omega_k == 0:
            return chi
        s = np.sqrt(abs(self.Omega_k)) / RH
        return (np.sinh(s * chi) if self.Omega_k > 0 else np.sin(s * chi)) / s

    def fk(self, a):
        return self.sinn(self.chi(a))

    def dA(self, a):
        return np.asarray(a, float) * self.fk(a)

    def a_of_chi(self, chi):
        g = np.exp(np.linspace(np.log(1e-3), 0.0, 6001))
        return np.interp(np.asarray(chi, float), self.chi(g)[::-1], g[::-1])

    # ---- growth
    def _solve_growth(self):
        if self._growth is None:
            x0 = np.log(1e-4)

            def rhs(x, y):
                a = np.exp(x)
                q = 2.0 - 0.5 * (self.Om_a(a) + (1.0 + 3.0 * self.w(a)) * self.Ode_a(a))
                # d2D/da2 + q/a dD/da = 1.5 Om D/a^2, in x = ln a
                return [y[1], (1.0 - q) * y[1] + 1.5 * self.Om_a(a) * y[0]]

            s = integrate.solve_ivp(
                rhs, (x0, 0.0), [1e-4, 1e-4], rtol=1e-9, atol=1e-14,
                method="DOP853", dense_output=True,
            )
            self._growth = s.sol
        return self._growth

    def D(self, a):
        a = np.asarray(a, float)
        if self.gamma is not None:
            return np.exp(
                -gauss(lambda x: self.Om_a(np.exp(x)) ** self.gamma, np.log(a), 0 * a)
            )
        s = self._solve_growth()
        return s(np.log(a))[0] / s(0.0)[0]

    def f(self, a):
        a = np.asarray(a, float)
        if self.gamma is not None:
            return self.Om_a(a) ** self.gamma
        s = self._solve_growth()(np.log(a))
        return s[1] / s[0]

    # ---- Eisenstein & Hu 1998 (equation numbers of the paper)
    def T(self, k, type="eisenhu_osc"):
        k = np.asarray(k, float) * self.h  # 1/Mpc from here on
        h = self.h
        om, ob = self.Om * h * h, self.Omega_b * h * h
        oc = om - ob
        th = TCMB / 2.7
        zeq = 2.50e4 * om * th**-4  # (2)
        keq = 7.46e-2 * om * th**-2  # (3)
        b1 = 0.313 * om**-0.419 * (1 + 0.607 * om**0.674)
        b2 = 0.238 * om**0.223
        zd = 1291 * om**0.251 / (1 + 0.659 * om**0.828) * (1 + b1 * ob**b2)  # (4)
        R = lambda z: 31.5 * ob * th**-4 * (1000.0 / z)  # (5)
        Rd, Req = R(zd), R(zeq)
        s = (2 / (3 * keq) * np.sqrt(6 / Req)
             * np.log((np.sqrt(1 + Rd) + np.sqrt(Rd + Req)) / (1 + np.sqrt(Req))))  # (6)
        if type == "eisenhu":
            fb = ob / om
            alpha = 1 - 0.328 * np.log(431 * om) * fb + 0.38 * np.log(22.3 * om) * fb**2  # (31)
            gam = self.Om * h * (alpha + (1 - alpha) / (1 + (0.43 * k * s) ** 4))  # (30)
            q = k / h * th**2 / gam  # (28)
            L = np.log(2 * np.e + 1.8 * q)
            Cc = 14.2 + 731 / (1 + 62.5 * q)
            return L / (L + Cc * q * q)  # (29)
        ksilk = 1.6 * ob**0.52 * om**0.73 * (1 + (10.4 * om) ** -0.95)  # (7)
        q = k / (13.41 * keq)  # (10)
        a1 = (46.9 * om) ** 0.670 * (1 + (32.1 * om) ** -0.532)
        a2 = (12.0 * om) ** 0.424 * (1 + (45.0 * om) ** -0.582)
        fb, fc = ob / om, oc / om
        alc = a1**-fb * a2 ** (-(fb**3))  # (11)
        bb1 = 0.944 / (1 + (458 * om) ** -0.708)
        bb2 = (0.395 * om) ** -0.0266
        bec = 1 / (1 + bb1 * (fc**bb2 - 1))  # (12)

        def T0(al, be):  # (19, 20)
            Cc = 14.2 / al + 386 / (1 + 69.9 * q**1.08)
            L = np.log(np.e + 1.8 * be * q)
            return L / (L + Cc * q * q)

        f = 1 / (1 + (k * s / 5.4) ** 4)  # (18)
        Tc = f * T0(1, bec) + (1 - f) * T0(alc, bec)  # (17)
        y = (1 + zeq) / (1 + zd)
        G = y * (-6 * np.sqrt(1 + y)
                 + (2 + 3 * y) * np.log((np.sqrt(1 + y) + 1) / (np.sqrt(1 + y) - 1)))  # (15)
        alb = 2.07 * keq * s * (1 + Rd) ** -0.75 * G  # (14)
        ben = 8.41 * om**0.435  # (23)
        beb = 0.5 + fb + (3 - 2 * fb) * np.sqrt((17.2 * om) ** 2 + 1)  # (24)
        ks = k * s
        stil = s / (1 + (ben / ks) ** 3) ** (1 / 3.0)  # (22)
        x = k * stil
        j0 = np.where(x < 1e-6, 1.0, np.sin(x) / np.where(x == 0, 1, x))
        Tb = (T0(1, 1) / (1 + (ks / 5.2) ** 2)
              + alb / (1 + (beb / ks) ** 3) * np.exp(-((k / ksilk) ** 1.4))) * j0  # (21)
        return fb * Tb + fc * Tc  # (16)

    # ---- linear power
    def sigma2_unnorm(self, R=8.0, T=None, kmin=1e-4, kmax=1e3, n=20001):
        T = T or self.T
        x = np.linspace(np.log(kmin), np.log(kmax), n)
        k = np.exp(x)
        y = k * R
        W = 3 * (np.sin(y) - y * np.cos(y)) / y**3
        return integrate.simpson(k ** (3 + self.n_s) * T(k) ** 2 * W**2, x=x) / (
            2 * np.pi**2
        )

    def plin(self, k, a=1.0, T=None, norm=None):
        """norm: value of the unnormalised sigma8^2 to use (default: full range)."""
        T = T or self.T
        if norm is None:
            norm = self.sigma2_unnorm(8.0, T)
        k = np.asarray(k, float)
        return self.sigma8**2 / norm * k**self.n_s * T(k) ** 2 * self.D(a) ** 2

    # ---- halofit
    def halofit_scales(self, a, p0, kmin=1e-4, kmax=1e4, n=4001):
        """k_nl, n_eff, C for scalar a; p0(k) is the linear power at a=1."""
        x = np.linspace(np.log(kmin), np.log(kmax), n)
        k = np.exp(x)
        d2 = k**3 * p0(k) / (2 * np.pi**2) * float(self.D(a)) ** 2

        def s2(lr):
            return integrate.simpson(d2 * np.exp(-((k * np.exp(lr)) ** 2)), x=x)

        lo, hi = np.log(1e-4), np.log(1e1)
        if not (s2(lo) > 1.0 > s2(hi)):
            return None
        lr = optimize.brentq(lambda t: s2(t) - 1.0, lo, hi, xtol=1e-10)
        y2 = (k * np.exp(lr)) ** 2
        g = d2 * np.exp(-y2)
        I1 = integrate.simpson(2 * y2 * g, x=x)  # -dln sigma2/dlnR
        I2 = integrate.simpson(4 * (y2 - y2**2) * g, x=x)
        return np.exp(-lr), I1 - 3.0, I1**2 + I2

    def halofit(self, k, a, p0, prescription="takahashi2012", scales=None):
        k = np.asarray(k, float)
        sc = scales if scales is not None else self.halofit_scales(a, p0)
        if sc is None:
            return None
        knl, n, C = sc
        om, ode, w = float(self.Om_a(a)), float(self.Ode_a(a)), float(self.w(a))
        pl = p0(k) * float(self.D(a)) ** 2
        if prescription == "smith2003":
            an = 10 ** (1.4861 + 1.8369 * n + 1.6762 * n**2 + 0.7940 * n**3
                        + 0.1670 * n**4 - 0.6206 * C)
            bn = 10 ** (0.9463 + 0.9466 * n + 0.3084 * n**2 - 0.9400 * C)
            cn = 10 ** (-0.2807 + 0.6669 * n + 0.3214 * n**2 - 0.0793 * C)
            gn = 0.8649 + 0.2989 * n + 0.1631 * C
            aln = 1.3884 + 0.3700 * n - 0.1452 * n**2
            ben = 0.8291 + 0.9854 * n + 0.3401 * n**2
            mun = 10 ** (-3.5442 + 0.1908 * n)
            nun = 10 ** (0.9585 + 1.2857 * n)
            fr = ode / (1 - om)
            f1 = fr * om**-0.0307 + (1 - fr) * om**-0.0732
            f2 = fr * om**-0.0585 + (1 - fr) * om**-0.1423
            f3 = fr * om**0.0743 + (1 - fr) * om**0.0725
        else:
            an = 10 ** (1.5222 + 2.8553 * n + 2.3706 * n**2 + 0.9903 * n**3
                        + 0.2250 * n**4 - 0.6038 * C + 0.1749 * ode * (1 + w))
            bn = 10 ** (-0.5642 + 0.5864 * n + 0.5716 * n**2 - 1.5474 * C
                        + 0.2279 * ode * (1 + w))
            cn = 10 ** (0.3698 + 2.0404 * n + 0.8161 * n**2 + 0.5869 * C)
            gn = 0.1971 - 0.0843 * n + 0.8460 * C
            aln = abs(6.0835 + 1.3373 * n - 0.1959 * n**2 - 5.5274 * C)
            ben = (2.0379 - 0.7354 * n + 0.3157 * n**2 + 1.2490 * n**3
                   + 0.3980 * n**4 - 0.1682 * C)
            mun = 0.0
            nun = 10 ** (5.2105 + 3.6902 * n)
            f1, f2, f3 = om**-0.0307, om**-0.0585, om**0.0743
        d2l = k**3 * pl / (2 * np.pi**2)
        y = k / knl
        d2q = d2l * (1 + d2l) ** ben / (1 + aln * d2l) * np.exp(-(y / 4 + y**2 / 8))
        d2h = an * y ** (3 * f1) / (1 + bn * y**f2 + (cn * f3 * y) ** (3 - gn))
        d2h = d2h / (1 + mun / y + nun / y**2)
        return 2 * np.pi**2 / k**3 * (d2q + d2h)


# ---- redshift distributions: (unnormalised density)
def smail(a, b, z0):
    return lambda z: np.asarray(z, float) ** a * np.exp(-((np.asarray(z, float) / z0) ** b))


def kde(zcat, w, bw):
    zcat, w = np.asarray(zcat, float), np.atleast_1d(np.asarray(w, float))

    def f(z):
        z = np.asarray(z, float)
        g = np.exp(-((zcat[:, None] - z.ravel()[None]) ** 2) / (2 * bw**2))
        g /= np.sqrt(2 * np.pi) * bw
        return (w @ g / w.sum()).reshape(z.shape)

    return f


def shifted(parent, bias):
    return lambda z: parent(np.clip(np.asarray(z, float) - bias, 0, None))


def normalise(pz, zmax, n=20001):
    z = np.linspace(0.0, zmax, n)
    return integrate.simpson(pz(z), x=z)


def knox_pairs(n):
    return [(i, j) for i in range(n) for j in range(i, n)]


def piecewise_linear(x, xp, fp):
    """numpy.interp for monotonic tables in either direction."""
    xp, fp = np.asarray(xp, float), np.asarray(fp, float)
    if xp[0] > xp[-1]:
        xp, fp = xp[::-1], fp[::-1]
    return np.interp(x, xp, fp)
