"""C08: with autograd_compatible=True automatic differentiation with respect to tau gives the derivatives of every output."""
from props.common import *

INFO = dict(
    functions=["_assemble_intensity_and_fluxes (u, u0, flux_up, flux_down)", "subroutines._mathscr_v", "subroutines.generate_diff_act_flux_funcs",
               "TMS_correction", "IMS_correction", "u_corrected"],
    bounds="sizes as listed, dense and banded solver; tau any interior point of any layer, scalar or one of two; sources of 0-4 coefficients; parameter ranges as in C01",
    assumptions=["autograd differentiates the functions of autograd.numpy by their usual rules, refuses plain numpy functions and writing into plain arrays, "
                 "and treats comparisons and index searches as constants (stated in vp/agrad.py)"],
)


def fluxes(p, what):
    c = p.c
    F = []
    if "u0" in what:
        F.append(("the zeroth mode", lambda t, *a: p.u0(t, *a)))
    if "Fp" in what:
        F.append(("the upward flux", lambda t, *a: p.Fp(t, *a)))
    if "Fm" in what:
        F.append(("the downward diffuse flux", lambda t, *a: p.Fm(t, *a)[0]))
        F.append(("the direct flux", lambda t, *a: p.Fm(t, *a)[1]))
    if "act" in what:
        au, ad = c.sub.generate_diff_act_flux_funcs(p.u0)
        F.append(("the upward actinic flux", lambda t, *a: au(t, *a)))
        F.append(("the downward actinic flux", lambda t, *a: ad(t, *a)))
    if "u" in what:
        ph = c.var("phi", 0, 6)
        F.append(("the intensity", lambda t, *a: p.u(t, ph, *a)))
    return F


def scalar(c, l=0, what=("u0", "Fp", "Fm", "act"), anti=(False, True), **kw):
    p = solve(make(c, autograd=True, **kw))
    top, s = inside(c, p, l)
    tau = top + s
    room = min(s, p.d[l] - s) if not c.sym else None
    for label, f in fluxes(p, what):
        if False in anti:
            c.eq("automatic derivative of " + label, c.grad(lambda t: f(t), tau), c.deriv(lambda t: f(t), top, s, room), 2e-6)
        if True in anti:
            c.eq("automatic derivative of the antiderivative of " + label, c.grad(lambda t: f(t, True), tau), f(tau), 1e-7)


def several(c, ls=(0, 0), what=("u0", "Fp", "Fm", "act", "u"), anti=(False, True), **kw):
    """two optical depths at once: each value depends on its own optical depth only"""
    p = solve(make(c, autograd=True, **kw))
    pts = [inside(c, p, l, "x%d" % i) for i, l in enumerate(ls)]
    t = c.A([a + b for a, b in pts])
    for label, f in fluxes(p, what):
        for an in anti:
            g = c.grad(lambda t: f(t, an), t)
            for i, (top, s) in enumerate(pts):
                for j in range(len(pts)):
                    d = g[..., i, j]
                    if an:
                        ref = f(top + s)
                    else:
                        ref = c.deriv(lambda t: f(t), top, s, min(s, p.d[ls[i]] - s) if not c.sym else None)
                    c.eq("automatic derivative of %s%s at one of several points" % ("the antiderivative of " if an else "", label), d, ref if i == j else 0 * ref, 2e-6)


def flags(c, l=0, **kw):
    """the optional returns do not stand in the way of differentiating the first, nor do several azimuths"""
    p = solve(make(c, autograd=True, **kw))
    top, s = inside(c, p, l)
    tau = top + s
    ph = c.var("phi", 0, 6)
    phs = c.A([ph, c.var("phi2", 0, 6)])
    room = min(s, p.d[l] - s) if not c.sym else None
    for an in (False, True):
        name = "the antiderivative of " if an else ""
        ref = (lambda x: p.u(tau, x)) if an else (lambda x: c.deriv(lambda t: p.u(t, x), top, s, room))
        c.eq("automatic derivative of %sthe intensity at several azimuths" % name, c.grad(lambda t: p.u(t, phs, an), tau), ref(phs), 2e-6)
        r = ref(ph)
        c.eq("automatic derivative of %sthe intensity, optical depths asked for" % name, c.grad(lambda t: p.u(t, ph, an, False, True)[0], tau), r, 2e-6)
        r = p.u0(tau) if an else c.deriv(lambda t: p.u0(t), top, s, room)
        c.eq("automatic derivative of %sthe zeroth mode, optical depths asked for" % name, c.grad(lambda t: p.u0(t, an, True)[0], tau), r, 2e-6)
        r = p.Fp(tau) if an else c.deriv(lambda t: p.Fp(t), top, s, room)
        c.eq("automatic derivative of %sthe upward flux, optical depths asked for" % name, c.grad(lambda t: p.Fp(t, an, True)[0], tau), r, 2e-6)
        r = p.Fm(tau)[0] if an else c.deriv(lambda t: p.Fm(t)[0], top, s, room)
        c.eq("automatic derivative of %sthe downward flux, optical depths asked for" % name, c.grad(lambda t: p.Fm(t, an, True)[0], tau), r, 2e-6)


def fourier(c, l=0, anti=False, both=False, **kw):
    p = solve(make(c, autograd=True, **kw))
    top, s = inside(c, p, l)
    tau = top + s
    ph = c.var("phi", 0, 6)
    room = min(s, p.d[l] - s) if not c.sym else None
    r = p.u(tau, ph) if anti else c.deriv(lambda t: p.u(t, ph), top, s, room)
    c.eq("automatic derivative of the intensity when the Fourier error is asked for", c.grad(lambda t: p.u(t, ph, anti, True, both)[0], tau), r, 2e-6)


def jobs(tier):
    J = []

    def add(fname, weight=1, **kw):
        J.append(dict(fn=fname, params=kw, weight=weight, cfg=dict(max_paths=30, lazy_where=True, try_where=True) if fname == "fourier" else {}))
    S, V, F = "scalar", "several", "flags"
    U = ["u"]
    add(S, N=1, L=1)
    add(S, N=1, L=1, beam=False, iso=1)
    add(S, N=1, L=2, l=1, iso=2, f="all", bc="vector")
    add(S, N=1, L=3, l=1, iso=3, f="some", bdrf=["s"])
    add(S, N=1, L=2, l=1, iso=1, f="all", only_flux=True)
    add(S, N=2, L=1, f="all", iso=1, NF=1, weight=3)
    add(S, what=U, N=1, L=1, f="all", iso=1)
    add(S, what=U, N=1, L=2, l=1, NF=2, iso=2, f="all")
    add(S, what=U, N=1, L=2, l=1, NF=1, iso=3)
    add(S, what=U, N=1, L=1, NF=2, beam=False, iso=4)
    add(S, what=U, N=1, L=2, l=1, NF=1, NT=True, f="all", NLeg_all=4, weight=4)
    add(S, what=U, N=1, L=1, NF=2, NT=True, f="all", NLeg_all=3, iso=1, weight=4)
    add(V, N=1, L=2, ls=[0, 1], NF=2, iso=1, f="all", anti=[False], weight=3)
    add(V, N=1, L=2, ls=[1, 1], NF=1, iso=3, what=["u", "u0", "Fp"], anti=[True], weight=3)
    add(V, N=1, L=2, ls=[1, 0], NF=1, NT=True, NLeg_all=3, f="all", what=U, anti=[False], weight=5)
    add(F, N=1, L=2, l=1, NF=2, f="all", iso=1, weight=2)
    add("fourier", N=1, L=1, NF=1, f="all")
    add("fourier", N=1, L=2, l=1, NF=1, beam=False, iso=1, anti=True, both=True)
    add("fourier", N=1, L=1, NF=2, NT=True, NLeg_all=3, f="all", both=True)
    add(F, N=1, L=1, NF=1, NT=True, NLeg_all=3, f="all", weight=4)
    add("scalar", N=1, L=10, l=4, NF=2, f="all", iso=2, weight=1)
    add("scalar", what=["u"], N=2, L=3, l=2, NF=4, f="all", iso=2, weight=1)
    add("scalar", N=2, L=3, l=1, NF=1, f="all", iso=3, bdrf=["f"], weight=1)
    add("flags", N=2, L=3, l=1, NF=3, f="all", iso=2, weight=1)
    add("several", N=2, L=2, ls=[1, 0], NF=3, iso=1, f="all", anti=[False], weight=2)
    add("several", N=1, L=4, ls=[3, 1, 2], NF=2, iso=3, f="all", anti=[False], weight=3)
    add("scalar", what=["u"], N=2, L=2, l=1, NF=2, f="all", NT=True, NLeg_all=6, weight=7)
    if tier == "thorough":
        add(S, what=U, N=2, L=1, NF=2, f="all", iso=2, weight=6)
        add(S, what=U, N=2, L=2, l=1, NF=2, NT=True, NLeg_all=5, f="all", weight=12)
        add(S, N=2, L=2, l=1, NF=1, f="all", iso=3, bdrf=["f"], weight=6)
        add(S, N=1, L=3, l=2, iso=5, f="all", weight=3)
        add(V, N=1, L=3, ls=[2, 0], NF=2, iso=2, f="all", weight=6)
        add(V, N=1, L=3, ls=[1, 2], NF=2, NT=True, NLeg_all=3, iso=1, f="some", what=U, anti=[True], weight=12)
        add(F, N=1, L=3, l=1, NF=3, f="some", iso=2, weight=6)
        add(F, N=1, L=3, l=2, NF=2, NT=True, NLeg_all=3, f="all", iso=1, weight=12)
    return J
