"""C24: the user is warned of doubtful inputs, and only of those; a wrong zeroth coefficient is corrected."""
from props.common import *

INFO = dict(
    functions=["pydisort (warnings)", "_assemble_intensity_and_fluxes", "subroutines.cache_BDRF_Fourier_modes", "subroutines._mathscr_v"],
    bounds="sizes as listed, dense and banded solver; albedos in [0.9, 1) and coefficients in (-1, 1) on both sides of the thresholds, with and without delta-M scaling",
)


def some(c, *conds):
    if c.sym:
        from vp import sym
        return sym.s_or([sym._b(x) for x in conds])
    return any(bool(x) for x in conds)


def apart(c, x, y=0, eps="1e-12"):
    """away from the threshold by more than rounding"""
    c.assume((x - y) * (x - y) >= (Fr(eps) if c.sym else float(eps)))


def zeroth(c, L=1, omega0=(), which=(0,), **kw):
    """zeroth coefficients other than 1: a warning, and the solution is that with 1"""
    p = make(c, L=L, omega0=omega0, **kw)
    z = {l: c.var("z%d" % l, 0.2, 1.8) for l in which}
    g = [[z.get(l, row[0])] + list(row[1:]) for l, row in enumerate(p.g)]
    for l in z:
        if c.holds(z[l] > 1):
            c.assume(z[l] > 1.0001)
        else:
            if not c.holds(z[l] >= 1):
                c.assume(z[l] < 0.9999)
    a = args(p, Leg_coeffs_all=c.A(g))
    got = []
    n = c.warned(lambda: got.append(c.pd(**a)))
    m = c.warned(lambda: got.append(c.pd(**args(p))))
    doubtful = c.holds(some(c, *[(z[l] - 1) * (z[l] - 1) > 0 for l in z if l not in omega0] + [c.num(0) > 1]))
    c.same("a further warning if and only if the zeroth coefficient of a scattering layer is not 1", n > m, doubtful)
    if not doubtful and any(l not in omega0 for l in z):
        return      # nothing to correct
    ref = got[1]
    top, s = inside(c, p, L - 1)
    t, phi = top + s, c.var("phi", 0, 6)
    out = got[0]
    c.eq("zeroth mode with a corrected coefficient", out[3](t), ref[3](t))
    c.eq("upward flux with a corrected coefficient", out[1](t), ref[1](t))
    if len(out) > 4:
        c.eq("intensity with a corrected coefficient", out[4](t, phi), ref[4](t, phi))


def albedo(c, N=1, L=1, f=(), omega0=()):
    """delta-scaled albedos within 1e-6 of 1"""
    om = [c.num(0) if l in omega0 else c.var("w%d" % l, 0.9, 1, his=True) for l in range(L)]
    F = [c.var("f%d" % l, 0.01, 0.8) if l in f else c.num(0) for l in range(L)]
    d = [c.var("d%d" % l, 0.05, 4) for l in range(L)]
    tau = [sum(d[:l + 1]) for l in range(L)]
    lim = 1 - (Fr(1, 10**6) if c.sym else 1e-6)
    conds = []
    for w, ff in zip(om, F):
        x = (1 - ff) * w / (1 - w * ff) - lim
        if w is om[0] or w not in om[:1]:
            apart(c, x, 0, "1e-18")
        c.assume(1 - w >= (Fr(1, 10**8) if c.sym else 1e-8))
        conds.append(x > 0)
    g = [[c.num(1)] + [c.num(0.85)] * (2 * N - 1) for l in range(L)]
    n = c.warned(lambda: c.pd(c.A(tau), c.A(om), 2 * N, c.A(g), c.num(0.625), c.num(1), c.num(0), **(dict(f_arr=c.A(F)) if f else {}), only_flux=True))
    c.same("a warning if and only if a delta-scaled albedo is within 1e-6 of 1", n > 0, c.holds(some(c, *conds)))


def coefficient(c, N=1, L=1, f=(), NLeg=None, extra=0):
    """delta-scaled coefficients larger than 0.95 in magnitude"""
    NLeg = NLeg or 2 * N
    om = [c.var("w%d" % l, 0.01, 0.9) for l in range(L)]
    F = [c.var("f%d" % l, 0.01, 0.6) if l in f else c.num(0) for l in range(L)]
    d = [c.var("d%d" % l, 0.05, 4) for l in range(L)]
    tau = [sum(d[:l + 1]) for l in range(L)]
    g = [[c.num(1)] + [c.var("g%d_%d" % (l, k), -0.999, 0.999) if (k < NLeg or extra == 2) and (l + k) % 2 else c.num(0.5) for k in range(1, NLeg)]
         + [c.num(0.96)] * (1 if extra else 0) for l in range(L)]
    lim = Fr(95, 100) if c.sym else 0.95
    conds = []
    for row, ff in zip(g, F):
        for x in row[1:NLeg]:
            y = (x - ff) / (1 - ff)
            apart(c, y, lim)
            apart(c, y, -lim)
            conds += [y > lim, y < -lim]
            c.assume((x - ff) * (x - ff) >= (Fr(1, 10**4) if c.sym else 1e-4))
            c.assume(y > (Fr(-999, 1000) if c.sym else -0.999))
    n = c.warned(lambda: c.pd(c.A(tau), c.A(om), 2 * N, c.A(g), c.num(0.625), c.num(1), c.num(0), **(dict(f_arr=c.A(F)) if f else {}), NLeg=NLeg, only_flux=True))
    c.same("a warning if and only if a delta-scaled coefficient in use exceeds 0.95 in magnitude", n > 0, c.holds(some(c, *conds)))


def caching(c):
    fs = [c.var("rho", 0.01, 0.4), c.bdrf(0)]
    m = c.var("mu0", -0.5, 1.5)
    n = c.warned(lambda: c.sub.cache_BDRF_Fourier_modes(2, fs, m))
    ok = c.holds(m > 0) and c.holds(m <= 1)
    c.same("a warning if and only if there is no beam to cache for", n > 0, not ok)
    n = c.warned(lambda: c.sub.cache_BDRF_Fourier_modes(2, fs, 0))
    c.same("a warning if the beam is left out", n > 0, True)


def quiet(c, l=0, **kw):
    """no warnings for ordinary inputs, neither from the solver nor from evaluations"""
    p = make(c, **kw)
    top, s = inside(c, p, l)
    t, phi = c.A([top + s, 0, p.tau_bot]), c.A([c.var("phi", 0, 6), p.phi0])

    def run():
        out = c.pd(**args(p))
        for anti in (False, True):
            out[1](t, anti), out[2](t, anti), out[3](t, anti)
            [f(t, anti) for f in c.sub.generate_diff_act_flux_funcs(out[3])]
            if len(out) > 4:
                out[4](t, phi, anti)
        if len(out) > 4:
            c.sub.interpolate(out[4])(c.A([0.3, -0.4]), t, phi)
        c.sub.interpolate(out[3])(c.A([0.3, -0.4]), t)
    c.same("no warning", c.warned(run, any_kind=True), 0)


def sizes(c, NF=None, iso=0, **kw):
    """more than 64 Fourier modes, more than 10 source coefficients"""
    p = make(c, N=1 if NF is None else 33, omega0=[0], NLeg=None if NF is None else NF, NF=NF or 1, beam=False, iso=iso, **kw)
    out = []
    n = c.warned(lambda: out.append(c.pd(**args(p))))
    c.same("a warning if and only if the source has more than 10 coefficients", n > 0, iso > 10) if iso else \
        c.same("a warning if and only if more than 64 Fourier modes are used", n > 0, NF is not None and NF > 64 and not p.only_flux)
    if iso:
        t = c.var("t", 0, 0.05)
        for k in (1, 2, 3):
            for anti in (False, True):
                n = c.warned(lambda: out[0][k](t, anti))
                c.same("a warning if and only if the source has more than 10 coefficients", n > 0, iso > 10)


def jobs(tier):
    J = []

    def add(fn, weight=1, **kw):
        J.append(dict(fn=fn, params=kw, weight=weight, cfg=dict(lazy_where=True, max_paths=60)))
    Z = "zeroth"
    add(Z, N=1, L=1, NF=2, which=[0])
    add(Z, N=1, L=2, NF=1, which=[0, 1], iso=1, f="all")
    add(Z, N=1, L=3, NF=2, which=[1], bdrf=["s"], bc="scalar", banded=3)
    add(Z, N=1, L=2, NF=1, which=[0, 1], omega0=[0], beam=False, iso=2)
    add(Z, N=1, L=1, omega0=[0], which=[0], NF=1)
    add(Z, N=2, L=2, which=[1], only_flux=True, f="all")
    add(Z, N=1, L=2, which=[1], NF=1, f="all", NT=True, NLeg_all=3)
    B = "albedo"
    add(B, L=1)
    add(B, L=1, f=[0])
    add(B, L=2, f=[1])
    add(B, L=2, omega0=[0], f=[0, 1])
    C = "coefficient"
    add(C, L=1)
    add(C, L=1, f=[0])
    add(C, L=2, f=[1])
    add(C, N=2, L=1, NLeg=3, extra=1)
    add(C, N=2, L=1, NLeg=2, extra=1, f=[0])
    add("caching")
    add("sizes", iso=10)
    add("sizes", iso=11)
    add("sizes", NF=64)
    add("sizes", NF=65)
    add("sizes", NF=66, only_flux=True)
    Q = "quiet"
    add(Q, N=1, L=1, NF=2, wmax=0.99)
    add(Q, N=1, L=2, l=1, NF=2, f="all", iso=2, bdrf=["f", "s"], bc="matrix", wmax=0.99)
    add(Q, N=1, L=3, l=1, NF=1, beam=False, iso=4, banded=3, bc="scalar", wmax=0.99)
    add(Q, N=1, L=2, l=0, NF=2, autograd=True, iso=3, wmax=0.99)
    if tier == "thorough":
        add(Z, N=2, L=3, which=[0, 2], NF=2, f="some", banded=3, iso=2, weight=3)
        add(B, L=3, f=[0, 2])
        add(C, N=2, L=2, NLeg=4, f=[0], weight=3)
        add(Q, N=2, L=2, l=1, NF=3, f="some", iso=1, bdrf=["f"], wmax=0.99, weight=3)
    return J
