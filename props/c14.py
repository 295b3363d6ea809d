"""C14: the single-scattering corrections are the documented ones and change nothing but the intensity."""
from props.common import *
from props.c09 import everything, same

INFO = dict(
    functions=["pydisort (TMS_correction, IMS_correction, u_corrected)", "subroutines.calculate_nu", "subroutines.atleast_2d_append", "_assemble_intensity_and_fluxes (_return_l)"],
    bounds="sizes as listed, dense and banded solver; 1-2 further Legendre coefficients; scaling fractions zero or in [0.01,0.8]; one optical depth anywhere in one layer, and the two boundaries; "
           "the beam at least 0.001 away from the computational angles; other parameter ranges as in C01",
)


def leg_sum(c, coeffs, nu):
    s = 0
    for k, g in enumerate(coeffs):
        s = s + (2 * k + 1) * g * leg(c, 0, k, nu)
    return s


def scattering(c, p, i, phi):
    """cosine of the angle between the beam and stream i"""
    m = p.mu[i]
    return -p.mu0 * m + c.sqrt(1 - p.mu0 * p.mu0) * c.sqrt(1 - m * m) * c.cos(phi - p.phi0)


def tms_source(c, p, l, i, phi, t):
    """what single scattering of the beam lacks in the truncated problem, at optical depth t of layer l, per unit scaled optical depth"""
    nu = scattering(c, p, i, phi)
    f = p.fz[l]
    ph = leg_sum(c, p.g[l], nu) / (1 - f) - leg_sum(c, p.g_s[l], nu)
    return p.w_s[l] * p.I0 / (4 * c.pi) * ph * c.exp(-stau(p, l, t) / p.mu0)


def ims(c, p, i, phi, t):
    """the documented small-angle correction of downward stream i, and -mu times its derivative"""
    wd = [w * d for w, d in zip(p.omega, p.d)]
    s1, s2, T = sum(wd), sum(f * x for f, x in zip(p.fz, wd)), sum(p.d)
    w, f = s1 / T, s2 / s1
    res = []
    for k in range(p.NLeg_all):
        g = 0
        for l in range(p.L):
            g = g + (p.fz[l] if k < p.NLeg else p.g[l][k]) * wd[l]
        res.append(g / s2)
    m0 = p.mu0 / (1 - w * f)
    mu = -p.mu[i]
    x = 1 / mu - 1 / m0
    chi = ((t - 1 / x) * c.exp(-t / m0) + c.exp(-t / mu) / x) / (x * mu * m0)
    Q = p.I0 / (4 * c.pi) * (w * f)**2 / (1 - w * f) * leg_sum(c, [2 * g - g * g for g in res], scattering(c, p, i, phi))
    return Q * chi, Q * chi - Q * t / m0 * c.exp(-t / m0)


def setup(c, kw):
    p = make(c, NT=True, **kw)
    a = c.pd(**args(p))
    k = args(p)
    k["NT_cor"] = False
    return p, a, c.pd(**k)


def inside_layer(c, l=0, **kw):
    p, a, b = setup(c, kw)
    top, s = inside(c, p, l)
    phi = c.var("phi", 0, 6)
    t = top + s
    d = lambda x: a[4](x, phi) - b[4](x, phi)
    v, dv = d(t), c.deriv(d, top, s, c.num(1) * 0.01)
    for i in range(2 * p.N):
        S = tms_source(c, p, l, i, phi, t)
        if i < p.N:
            c.eq("transfer of the single-scattering correction upward", p.mu[i] * dv[i], p.sc[l] * (v[i] - S), 1e-5)
        else:
            small, rate = ims(c, p, i, phi, t)
            c.eq("transfer of the single-scattering correction downward", p.mu[i] * dv[i] - rate, p.sc[l] * (v[i] - small - S), 1e-5)


def ends(c, **kw):
    """no correction enters from outside"""
    p, a, b = setup(c, kw)
    phi = c.A([c.var("phi%d" % i, 0, 6) for i in range(2)])
    for lab, t, sl in (("downward at the top", c.num(0), slice(p.N, None)), ("upward at the bottom", p.tau_bot, slice(0, p.N))):
        d = a[4](t, phi) - b[4](t, phi)
        c.same("shape of the corrected intensity", tuple(c.np.shape(d)), (p.NQ, 2))
        c.eq("correction " + lab, d[sl], 0 * d[sl])


def interface(c, k=0, **kw):
    """the correction is carried across interfaces unchanged"""
    p, a, b = setup(c, kw)
    phi = c.var("phi", 0, 6)
    d = lambda x: a[4](x, phi) - b[4](x, phi)
    c.eq("correction is continuous across the interface", d(p.bots[k]), c.right_limit(d, p.bots[k], p.d[k + 1]))


def others(c, l=0, **kw):
    """everything but the intensity is as without corrections"""
    p, a, b = setup(c, kw)
    top, s = inside(c, p, l)
    c.same("number of outputs", len(a), len(b))
    c.eq("stream angles", a[0], b[0])
    same(c, "outputs with corrections", everything(c, p, b, top + s, None, False), everything(c, p, a, top + s, None, False))


def jobs(tier):
    J = []

    def add(fn, weight=1, cfg=None, **kw):
        J.append(dict(fn=fn, params=kw, weight=weight, cfg=dict(lazy_where=True, **(cfg or {}))))
    I = "inside_layer"
    add(I, N=1, L=1, NF=1, f="all", NLeg_all=3)
    add(I, N=1, L=1, NF=2, f="all", NLeg_all=4)
    add(I, N=1, L=2, l=0, NF=1, f="all", NLeg_all=3, weight=2)
    add(I, N=1, L=2, l=1, NF=1, f="all", NLeg_all=3, weight=2)
    add(I, N=1, L=2, l=1, NF=1, f="some", iso=1, NLeg_all=3, weight=2)
    add(I, N=1, L=3, l=1, NF=1, f="some", NLeg_all=3, weight=3)
    add(I, N=2, L=1, NF=1, f="all", NLeg_all=5, weight=3)
    E = "ends"
    add(E, N=1, L=1, NF=2, f="all", NLeg_all=4)
    add(E, N=1, L=2, NF=1, f="all", iso=1, NLeg_all=3, bdrf=["f"])
    add(E, N=1, L=3, NF=1, f="first", NLeg_all=3, banded=3, weight=2)
    add(E, N=2, L=2, NF=1, f="all", NLeg_all=5, weight=2)
    C = "interface"
    add(C, N=1, L=2, k=0, NF=1, f="all", NLeg_all=3, weight=2)
    add(C, N=1, L=3, k=1, NF=1, f="some", iso=1, NLeg_all=3, weight=2)
    for k in range(3):
        add(C, N=1, L=4, k=k, NF=1, f="first", NLeg_all=3, weight=2)
    add(C, N=2, L=3, k=0, NF=1, f="first", NLeg_all=5, weight=4)
    add(C, N=1, L=5, k=2, NF=2, f="first", NLeg_all=3, bdrf=["s"], weight=4)
    O = "others"
    add(O, N=1, L=2, l=0, NF=2, f="all", iso=1, NLeg_all=3, bdrf=["s", "f"])
    add(O, N=1, L=2, l=1, NF=1, f="some", bc="vector", NLeg_all=4)
    add(O, N=2, L=2, l=1, NF=1, f="all", NLeg_all=5, weight=2)
    add(I, N=1, L=4, l=2, NF=1, f="first", NLeg_all=3, weight=2)
    add("ends", N=3, L=2, NF=1, f="all", NLeg_all=7, weight=1)
    add("others", N=2, L=3, l=1, NF=3, f="all", NLeg_all=6, iso=2, bdrf=["s"], weight=2)
    add("inside_layer", N=2, L=2, l=0, NF=1, f="all", NLeg_all=5, weight=3)
    if tier == "thorough":
        add(C, N=2, L=3, k=0, NF=1, f="all", NLeg_all=5, weight=8)
        add(C, N=1, L=6, k=4, NF=1, f="first", NLeg_all=3, weight=8)
        add(I, N=2, L=2, l=1, NF=1, f="all", NLeg_all=6, weight=6)
        add(I, N=2, L=1, NF=2, f="all", NLeg_all=8, weight=6)
        add(I, N=1, L=3, l=2, NF=1, f="first", NLeg_all=3, weight=6)
        add(I, N=1, L=2, l=0, NF=1, f="all", iso=1, NLeg_all=5, omega0=[1], weight=5)
        add(E, N=2, L=3, NF=2, f="all", iso=1, NLeg_all=6, bdrf=["f"], weight=6)
        add(O, N=2, L=3, l=1, NF=2, f="all", iso=1, NLeg_all=6, bc="matrix", weight=6)
    return J
