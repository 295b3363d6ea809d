"""C09: switches that select an algorithm or restrict the output do not change the results."""
from props.common import *

INFO = dict(
    functions=["pydisort", "_solve_for_coeffs (dense, banded, autograd branches)", "_solve_for_gen_and_part_sols", "_assemble_intensity_and_fluxes",
               "subroutines._mathscr_v", "subroutines.to_diag_ordered_form"],
    bounds="sizes as listed, dense and banded solver; 0-3 source coefficients; one optical depth anywhere in one layer; parameter ranges as in C01",
)


def everything(c, p, out, t, ph, u=True):
    """(label, value) of all outputs at one optical depth"""
    r = []
    for anti in (False, True):
        a = "antiderivative of " if anti else ""
        r.append((a + "the upward flux", out[1](t, anti)))
        dn = out[2](t, anti)
        r.append((a + "the downward diffuse flux", dn[0]))
        r.append((a + "the direct flux", dn[1]))
        r.append((a + "the zeroth mode", out[3](t, anti)))
        for f, n in zip(c.sub.generate_diff_act_flux_funcs(out[3]), ("the upward actinic flux", "the downward actinic flux")):
            r.append((a + n, f(t, anti)))
        if u and len(out) > 4:
            r.append((a + "the intensity", out[4](t, ph, anti)))
    return r


def same(c, what, A, B):
    for (la, a), (lb, b) in zip(A, B):
        c.eq("%s: %s" % (what, la), b, a)


def point(c, p, l):
    top, s = inside(c, p, l)
    return top + s, c.A([c.var("phi", 0, 6), p.phi0])


def solver(c, l=0, **kw):
    """dense and banded solver"""
    p = make(c, **kw)
    t, ph = point(c, p, l)
    a = c.pd(**args(p, use_banded_solver_NLayers=p.L + 1))
    b = c.pd(**args(p, use_banded_solver_NLayers=3))
    same(c, "banded and dense solver agree", everything(c, p, a, t, ph), everything(c, p, b, t, ph))


def flux_only(c, l=0, **kw):
    p = make(c, **kw)
    t, ph = point(c, p, l)
    a = c.pd(**args(p))
    k = args(p)
    k["only_flux"] = True
    b = c.pd(**k)
    c.same("the intensity is not returned if only fluxes are asked for", len(b), 4)
    c.eq("stream angles", b[0], a[0])
    same(c, "outputs if only fluxes are asked for", everything(c, p, a, t, ph, False), everything(c, p, b, t, ph, False))


def differentiable(c, l=0, several=False, **kw):
    p = make(c, **kw)
    t, ph = point(c, p, l)
    if several:
        t = c.A([t, 0, p.tau_bot])
    a = c.pd(**args(p))
    b = c.pd(**args(p, autograd_compatible=True))
    c.eq("stream angles", b[0], a[0])
    same(c, "outputs of the differentiable variant", everything(c, p, a, t, ph), everything(c, p, b, t, ph))


def truncated(c, l=0, NF2=1, **kw):
    """fewer Fourier modes: the modes that remain are the same, and so are the fluxes"""
    p = make(c, **kw)
    t, ph = point(c, p, l)
    a = c.pd(**args(p))
    b = c.pd(**args(p, NFourier=NF2, **({} if p.bc != "matrix" else dict(b_pos=p.b_pos[:, :NF2], b_neg=p.b_neg[:, :NF2]))))
    same(c, "outputs other than the intensity with fewer modes", everything(c, p, a, t, ph, False), everything(c, p, b, t, ph, False))
    ma = modes(p, a[4], t)
    q = Prob()
    q.__dict__.update(p.__dict__)
    q.NF = NF2
    mb = modes(q, b[4], t)
    for m in range(NF2):
        c.eq("mode %d with fewer modes" % m, mb[m], ma[m])


def jobs(tier):
    J = []

    def add(fn, weight=1, **kw):
        J.append(dict(fn=fn, params=kw, weight=weight, cfg=dict(lazy_where=True)))
    add("solver", N=1, L=3, l=1, NF=2, f="all", iso=2, bdrf=["s"])
    add("solver", N=1, L=4, l=2, NF=1, iso=1, bc="vector", omega0=[1])
    add("solver", N=2, L=3, l=0, NF=2, bc="matrix", bdrf=["f", "s"], weight=3)
    add("solver", N=1, L=3, l=2, NF=1, beam=False, iso=3, f="some", bc="neg")
    F = "flux_only"
    add(F, N=1, L=1, NF=2, f="all", iso=1)
    add(F, N=1, L=2, l=1, NF=2, iso=2, bdrf=["f", "s"], bc="vector")
    add(F, N=2, L=2, l=0, NF=4, f="some", bc="scalar", weight=2)
    add(F, N=1, L=2, l=1, NF=1, f="all", NT=True, NLeg_all=3, weight=2)
    D = "differentiable"
    add(D, N=1, L=1, NF=2, f="all", iso=1, bdrf=["s", "f"])
    add(D, N=1, L=2, l=1, NF=2, iso=3, bc="matrix", f="first")
    add(D, N=2, L=2, l=0, NF=3, iso=2, f="all", bdrf=["f"], bc="vector", weight=3)
    add(D, N=1, L=2, l=0, NF=1, beam=False, iso=1, omega0=[1])
    add(D, N=1, L=2, l=0, NF=1, f="all", NT=True, NLeg_all=3, iso=1, weight=2)
    add(D, N=1, L=1, NF=1, f="all", NT=True, NLeg_all=3, several=True)
    add(D, N=2, L=1, NF=1, f="all", NT=True, NLeg_all=5, iso=1, weight=2)
    add(D, N=1, L=3, l=1, NF=1, f="some", NT=True, NLeg_all=3, weight=3)
    T = "truncated"
    add(T, N=1, L=2, l=1, NF=2, f="all", iso=2, bdrf=["f", "s"])
    add(T, N=2, L=1, NF=4, NF2=3, bc="vector", iso=1, weight=2)
    add(T, N=2, L=2, l=0, NF=3, NF2=2, bdrf=["f", "s", "f"], bc="scalar", f="some", weight=3)
    add("truncated", N=2, L=4, l=3, NF=4, NF2=2, iso=2, banded=3, weight=1)
    add("solver", N=3, L=3, l=2, NF=2, bc="matrix", bdrf=["f"], f="all", iso=1, weight=2)
    add("truncated", N=3, L=2, l=1, NF=4, NF2=2, iso=2, f="all", bdrf=["f", "f", "s"], weight=2)
    add("solver", N=1, L=12, l=10, NF=2, f="all", iso=2, weight=2)
    add("differentiable", N=3, L=2, l=1, NF=3, iso=4, f="some", bdrf=["f", "s"], bc="matrix", weight=2)
    add("flux_only", N=3, L=3, l=2, NF=4, f="all", iso=2, bc="vector", weight=2)
    add("differentiable", N=2, L=4, l=3, NF=4, iso=3, f="all", banded=3, weight=3)
    add("differentiable", N=2, L=2, l=1, NF=2, f="all", NT=True, NLeg_all=6, iso=1, weight=5)
    add("differentiable", N=3, L=2, l=1, NF=5, iso=2, f="all", weight=2)
    if tier == "thorough":
        add("solver", N=2, L=4, l=2, NF=3, iso=3, f="all", bc="matrix", bdrf=["s", "f"], weight=6)
        add(F, N=2, L=3, l=1, NF=4, iso=3, f="all", bc="vector", bdrf=["f", "f", "s"], banded=3, weight=5)
        add(D, N=2, L=3, l=1, NF=4, iso=3, f="all", bc="matrix", bdrf=["f", "f", "s"], banded=3, weight=5)
        add(D, N=2, L=2, l=1, NF=2, f="all", NT=True, NLeg_all=6, iso=1, weight=6)
        add(T, N=2, L=3, l=1, NF=4, NF2=2, iso=2, f="all", bdrf=["f", "f", "s"], banded=3, weight=5)
        add(T, N=3, L=1, NF=4, NF2=2, NLeg=6, weight=6)
    return J
