"""C10: documented equivalent ways to state the same problem have the same solution."""
from props.common import *
from props.c09 import everything, same, point

INFO = dict(
    functions=["pydisort", "_assemble_intensity_and_fluxes", "_solve_for_coeffs", "_solve_for_gen_and_part_sols", "subroutines._mathscr_v",
               "subroutines.affine_transform_poly_coeffs"],
    bounds="sizes as listed, dense and banded solver; 0-4 source coefficients; one optical depth anywhere in one layer; parameter ranges as in C01",
)


def both(c, p, l, what, a, b, drop=()):
    """the two sets of arguments have the same solution"""
    for k in drop:
        b.pop(k, None)
    t, ph = point(c, p, l)
    A, B = c.pd(**a), c.pd(**b)
    c.same(what + ": number of outputs", len(B), len(A))
    c.eq(what + ": stream angles", B[0], A[0])
    same(c, what, everything(c, p, A, t, ph), everything(c, p, B, t, ph))


def off(c, p):
    """the beam does not coincide with a computational angle"""
    for i in range(p.N):
        c.assume((p.mu0 - p.mu[i])**2 >= (Fr(1, 10**6) if c.sym else 1e-6))


def variant(c, what, l=0, **kw):
    p = make(c, **kw)
    N, L, NF = p.N, p.L, p.NF
    a = args(p)
    zeros = lambda *sh: c.np.zeros(sh)
    if what == "scalar boundary values as vectors":
        b = args(p, b_pos=c.A([p.b_pos] * N), b_neg=c.A([p.b_neg] * N))
    elif what == "vector boundary values as matrices":
        b = args(p, b_pos=c.A([[p.b_pos[i]] + [0] * (NF - 1) for i in range(N)]), b_neg=c.A([[p.b_neg[i]] + [0] * (NF - 1) for i in range(N)]))
    elif what == "scalar boundary values as matrices":
        b = args(p, b_pos=c.A([[p.b_pos] + [0] * (NF - 1) for i in range(N)]), b_neg=c.A([p.b_neg] * N))
    elif what == "zero boundary values as arrays":
        b = args(p, b_pos=zeros(N), b_neg=zeros(N, NF))
    elif what == "zero boundary values as default":
        b = args(p)
        b.pop("b_pos"), b.pop("b_neg")
    elif what == "boundary values of one element":
        b = args(p, b_pos=c.A([p.b_pos]), b_neg=c.A([p.b_neg]))
    elif what == "scalar reflectance as a constant function":
        rho = p.bdrf[0]
        b = args(p, BDRF_Fourier_modes=[lambda mu, nmup: rho + c.np.zeros((len(mu), len(nmup)))] + p.bdrf[1:])
    elif what == "zero reflectance":
        a = args(p)
        a["BDRF_Fourier_modes"] = []
        b = args(p, BDRF_Fourier_modes=[0] * min(2, NF))
    elif what == "zero reflectance as a function":
        a = args(p)
        a.pop("BDRF_Fourier_modes", None)
        b = args(p, BDRF_Fourier_modes=[lambda mu, nmup: c.np.zeros((len(mu), len(nmup)))])
    elif what == "zero reflectance of a higher mode":
        b = args(p, BDRF_Fourier_modes=p.bdrf + [0])
    elif what == "more reflectance modes than Fourier modes":
        b = args(p, BDRF_Fourier_modes=p.bdrf + [c.num(0.25)])
    elif what == "zero scaling fractions":
        b = args(p, f_arr=zeros(L))
    elif what == "scalar zero scaling fraction":
        b = args(p, f_arr=0)
    elif what == "zero sources":
        b = args(p, s_poly_coeffs=zeros(L, 2))
    elif what == "zero source of degree 0":
        b = args(p, s_poly_coeffs=zeros(L, 1))
    elif what == "trailing zero source coefficient":
        b = args(p, s_poly_coeffs=c.A([r + [0] for r in p.s]))
    elif what == "two trailing zero source coefficients":
        b = args(p, s_poly_coeffs=c.A([r + [0, 0] for r in p.s]))
    elif what == "further Legendre coefficients":
        b = args(p, Leg_coeffs_all=c.A([r + [c.var("h%d" % i, -0.8, 0.8), c.var("h2%d" % i, -0.8, 0.8)] for i, r in enumerate(p.g)]))
    elif what == "further Legendre coefficients but corrections without scaling":
        b = args(p, Leg_coeffs_all=c.A([r + [c.var("h%d" % i, -0.8, 0.8)] for i, r in enumerate(p.g)]), NT_cor=True)
        off(c, p)
    elif what == "corrections without further coefficients":
        b = args(p, NT_cor=True)
        off(c, p)
    elif what == "default number of coefficients":
        b = args(p)
        b.pop("NLeg")
    elif what == "default number of modes":
        b = args(p)
        b.pop("NFourier")
    elif what == "default numbers of coefficients and modes":
        b = args(p)
        b.pop("NLeg"), b.pop("NFourier")
    elif what == "zeroth Legendre coefficient corrected to one":
        h = [c.var("h%d" % i, 0.1, 2) for i in range(L)]
        c.assume((h[0] - 1)**2 >= (Fr(1, 10**4) if c.sym else 1e-4))
        b = args(p, Leg_coeffs_all=c.A([[x] + r[1:] for x, r in zip(h, p.g)]))
    elif what == "floats for one layer":
        b = args(p, tau_arr=p.bots[0], omega_arr=p.omega[0], Leg_coeffs_all=c.A(p.g[0]))
        if p.f is not None:
            b["f_arr"] = p.f[0]
        if p.iso:
            b["s_poly_coeffs"] = c.A(p.s[0])
    elif what == "lists":
        b = args(p, tau_arr=list(p.bots), omega_arr=list(p.omega), Leg_coeffs_all=[list(r) for r in p.g])
        if p.f is not None:
            b["f_arr"] = list(p.f)
        if p.iso:
            b["s_poly_coeffs"] = [list(r) for r in p.s]
    elif what == "tuple of reflectances":
        b = args(p, BDRF_Fourier_modes=tuple(p.bdrf))
    elif what == "beam of zero strength":
        b = args(p, mu0=c.var("mu", 0.1, 1))
    elif what == "a layer without scattering has no phase function":
        h = [list(r) for r in p.g]
        for k in range(L):
            if k in kw.get("omega0", ()):
                h[k] = [c.num(1)] + [c.var("h%d_%d" % (k, i), -0.8, 0.8) for i in range(1, p.NLeg_all)]
        b = args(p, Leg_coeffs_all=c.A(h))
    else:
        raise KeyError(what)
    both(c, p, l, what, a, b)


def integers(c, l=0, bs="vector", iso=2, which="all", **kw):
    """whole numbers given as integers and as floating-point numbers"""
    p = make(c, bc="zero", iso=max(iso, 0), **kw)
    N, L, NF = p.N, p.L, p.NF
    tau = [1, 3, 4, 6][:L]
    val = dict(tau_arr=tau, I0=2, phi0=1)
    if not p.beam:
        val.update(I0=0, mu0=0)
    if bs == "scalar":
        val.update(b_pos=1, b_neg=2)
    elif bs == "vector":
        val.update(b_pos=[1, 2][:N], b_neg=[3, 1][:N])
    else:
        val.update(b_pos=[[1, 2, 1], [2, 0, 1]][:N], b_neg=[[2, 1, 1], [0, 1, 3]][:N])
        for k in ("b_pos", "b_neg"):
            val[k] = [r[:NF] for r in val[k]]
    if iso:
        val.update(s_poly_coeffs=[[2, 1, 1], [1, 3, 0], [3, 0, 1], [1, 1, 2]][:L])
        val["s_poly_coeffs"] = [r[:iso] for r in val["s_poly_coeffs"]]
    if "Leg_coeffs_all" in which:
        val.update(Leg_coeffs_all=[[1] + [0] * (p.NLeg - 1)] * L, f_arr=[0] * L)
    if "omega_arr" in which:
        val.update(omega_arr=[0] * L)
    if "bdrf" in which:
        val.update(BDRF_Fourier_modes=[1])
    flo = lambda v: c.A(v) if isinstance(v, list) else c.num(v)
    fix = lambda v: c.I(v) if isinstance(v, list) else v
    a, b = dict(val), dict(val)
    for d, f in ((a, flo), (b, fix)):
        for k in val:
            d[k] = [f(x) for x in val[k]] if k == "BDRF_Fourier_modes" else f(val[k])
    top, bot = ([0] + tau)[l], tau[l]
    t = c.var("t", top, bot, los=True)
    ph = c.A([c.var("phi", 0, 6), 1])
    A, B = c.pd(**args(p, **a)), c.pd(**args(p, **b))
    same(c, "whole numbers as integers", everything(c, p, A, t, ph), everything(c, p, B, t, ph))
    same(c, "integer optical depth", everything(c, p, A, c.num(bot), c.A([2])), everything(c, p, B, bot, c.I([2])))
    same(c, "integer optical depths", everything(c, p, A, c.A([0] + tau), c.num(2)), everything(c, p, B, c.I([0] + tau), 2))


def jobs(tier):
    J = []

    def whole(weight=1, **kw):
        J.append(dict(fn="integers", params=kw, weight=weight, cfg=dict(lazy_where=True)))
    whole(N=1, L=2, l=1, NF=2, bs="vector", iso=2, f="all")
    whole(N=2, L=2, l=0, NF=2, bs="matrix", iso=3, weight=2)
    whole(N=1, L=3, l=1, NF=1, bs="scalar", iso=1, f="some", banded=3)
    whole(N=1, L=2, l=1, NF=2, bs="matrix", iso=2, beam=False, which=["Leg_coeffs_all", "bdrf"])
    whole(N=1, L=2, l=0, NF=1, bs="vector", iso=0, f="all", NT=True, NLeg_all=3, which=["bdrf"], weight=2)
    whole(N=1, L=2, l=1, NF=1, bs="scalar", iso=3, which=["omega_arr"])

    def add(what, weight=1, **kw):
        J.append(dict(fn="variant", params=dict(what=what, **kw), weight=weight, name="%s(%s)" % (what, ",".join("%s=%s" % kv for kv in kw.items())),
                      cfg=dict(lazy_where=True)))
    w = "scalar boundary values as vectors"
    add(w, N=1, L=2, l=1, NF=2, bc="scalar", f="all", iso=1, bdrf=["f", "f"])
    add(w, N=2, L=1, NF=2, bc="scalar", weight=2)
    w = "vector boundary values as matrices"
    add(w, N=1, L=2, l=0, NF=2, bc="vector", f="all", iso=2)
    add(w, N=2, L=2, l=1, NF=3, bc="vector", bdrf=["s", "f"], weight=2)
    add(w, N=2, L=3, l=1, NF=2, bc="vector", beam=False, banded=3, weight=2)
    add("scalar boundary values as matrices", N=2, L=1, NF=3, bc="scalar", iso=1, weight=2)
    add("scalar boundary values as matrices", N=1, L=2, l=1, NF=1, bc="scalar", f="all")
    add("boundary values of one element", N=1, L=2, l=1, NF=2, bc="scalar", bdrf=["s"])
    add("boundary values of one element", N=2, L=1, NF=2, bc="scalar", weight=2)
    add("zero boundary values as arrays", N=1, L=2, l=0, NF=2, f="all", iso=1)
    add("zero boundary values as arrays", N=2, L=1, NF=3, bdrf=["f"], weight=2)
    add("zero boundary values as default", N=1, L=2, l=1, NF=2, iso=1, bdrf=["s"])
    w = "scalar reflectance as a constant function"
    add(w, N=1, L=1, NF=2, bdrf=["s", "f"], bc="scalar")
    add(w, N=2, L=2, l=1, NF=2, bdrf=["s"], f="all", iso=1, weight=2)
    add(w, N=1, L=3, l=1, NF=1, bdrf=["s"], banded=3)
    add("zero reflectance", N=1, L=2, l=1, NF=2, bc="scalar", iso=1, f="all")
    add("zero reflectance", N=2, L=1, NF=3, weight=2)
    add("zero reflectance as a function", N=1, L=2, l=0, NF=2, bc="matrix")
    add("zero reflectance of a higher mode", N=1, L=2, l=1, NF=2, bdrf=["f"], bc="vector")
    add("more reflectance modes than Fourier modes", N=1, L=1, NF=1, bdrf=["s"], iso=1)
    add("more reflectance modes than Fourier modes", N=2, L=2, l=1, NF=2, bdrf=["f", "s"], weight=2)
    add("zero scaling fractions", N=1, L=2, l=1, NF=2, iso=3, bdrf=["f"], bc="vector")
    add("zero scaling fractions", N=2, L=1, NF=3, iso=2, weight=2)
    add("scalar zero scaling fraction", N=1, L=2, l=0, NF=2, iso=1)
    add("zero sources", N=1, L=2, l=1, NF=2, f="all", bc="scalar")
    add("zero source of degree 0", N=1, L=1, NF=1, beam=False, bc="neg")
    w = "trailing zero source coefficient"
    for n in (1, 2, 3):
        add(w, N=1, L=2, l=1, NF=1, iso=n, f="all", bc="scalar")
    add(w, N=2, L=1, NF=2, iso=2, weight=2)
    add(w, N=1, L=2, l=0, NF=1, iso=1, beam=False, autograd=True)
    add("two trailing zero source coefficients", N=1, L=2, l=0, NF=1, iso=1, f="some", bdrf=["s"])
    add("two trailing zero source coefficients", N=2, L=2, l=1, NF=1, iso=1, weight=2)
    w = "further Legendre coefficients"
    add(w, N=1, L=2, l=1, NF=2, f="all", iso=1)
    add(w, N=2, L=1, NF=3, NLeg=3, bdrf=["f"], weight=2)
    add("further Legendre coefficients but corrections without scaling", N=1, L=2, l=1, NF=2, iso=1)
    add("corrections without further coefficients", N=1, L=2, l=0, NF=2, f="all", iso=1)
    add("default number of coefficients", N=1, L=1, NF=2)
    add("default number of coefficients", N=2, L=2, l=1, NF=2, f="all", weight=2)
    add("default number of modes", N=1, L=2, l=1, NF=2, bc="matrix")
    add("default numbers of coefficients and modes", N=2, L=1, NF=4, iso=1, bc="scalar", weight=2)
    w = "zeroth Legendre coefficient corrected to one"
    add(w, N=1, L=2, l=1, NF=2, iso=1, f="all")
    add(w, N=1, L=2, l=1, NF=1, f="all", NT=True, NLeg_all=3, weight=2)
    add("floats for one layer", N=1, L=1, NF=2, f="all", iso=2, bc="scalar")
    add("floats for one layer", N=1, L=1, NF=2)
    add("lists", N=1, L=2, l=1, NF=2, f="all", iso=2)
    add("lists", N=2, L=3, l=1, NF=2, iso=1, banded=3, weight=2)
    add("tuple of reflectances", N=1, L=2, l=1, NF=2, bdrf=["f", "s"])
    add("beam of zero strength", N=1, L=2, l=1, NF=2, beam=False, iso=1, bc="matrix", bdrf=["f", "s"], f="all")
    add("a layer without scattering has no phase function", N=1, L=2, l=1, NF=2, iso=1, omega0=[0])
    add("a layer without scattering has no phase function", N=1, L=3, l=1, NF=2, f="some", omega0=[1], banded=3)
    if tier == "thorough":
        add("vector boundary values as matrices", N=2, L=3, l=1, NF=4, bc="vector", f="all", iso=3, bdrf=["s", "f", "f"], banded=3, weight=6)
        add("trailing zero source coefficient", N=2, L=3, l=2, NF=2, iso=3, f="all", banded=3, weight=6)
        add("trailing zero source coefficient", N=2, L=2, l=1, NF=1, iso=5, weight=6)
        add("zero scaling fractions", N=2, L=3, l=1, NF=4, iso=4, bdrf=["f", "s"], weight=6)
        add("scalar reflectance as a constant function", N=2, L=3, l=2, NF=4, bdrf=["s", "f", "s"], f="all", iso=2, banded=3, weight=6)
        add("further Legendre coefficients", N=2, L=3, l=2, NF=4, f="all", iso=2, weight=6)
        add("further Legendre coefficients", N=3, L=1, NF=3, f="all", weight=6)
    return J
