"""C05: with the antiderivative switch every output function returns an antiderivative with respect to tau."""
from props.common import *
from props.c04 import point

INFO = dict(
    functions=["_assemble_intensity_and_fluxes (u, u0, flux_up, flux_down)", "subroutines._mathscr_v", "subroutines.generate_diff_act_flux_funcs",
               "TMS_correction", "IMS_correction", "u_corrected"],
    bounds="sizes as listed, dense and banded solver; tau any interior point of any layer; sources of 0-4 coefficients; parameter ranges as in C01",
)


def anti(c, l=0, what=("u0", "Fp", "Fm", "act"), half=False, **kw):
    p = solve(make(c, **kw))
    top, s = inside(c, p, l)
    tau = top + s
    room = min(s, p.d[l] - s) if not c.sym else None

    def pair(label, f):
        c.eq("antiderivative of " + label, c.deriv(lambda t: f(t, True), top, s, room), f(tau, False), 2e-6)
    if "u0" in what:
        pair("the zeroth mode", lambda t, a: p.u0(t, a))
    if "Fp" in what:
        pair("the upward flux", lambda t, a: p.Fp(t, a))
    if "Fm" in what:
        pair("the downward fluxes", lambda t, a: c.A(list(p.Fm(t, a))))
    if "act" in what:
        au, ad = c.sub.generate_diff_act_flux_funcs(p.u0)
        pair("the upward actinic flux", lambda t, a: au(t, a))
        pair("the downward actinic flux", lambda t, a: ad(t, a))
    if "u" in what:
        ph = c.var("phi", 0, 6)
        pair("the intensity", lambda t, a: p.u(t, ph, a)[:p.N] if half else p.u(t, ph, a))


def jobs(tier):
    J = []

    def add(weight=1, **kw):
        J.append(dict(fn="anti", params=kw, weight=weight))
    U = ["u"]
    add(N=1, L=1)
    add(N=1, L=1, f="all")
    add(N=1, L=1, beam=False, iso=1)
    add(N=1, L=2, l=1, iso=2, f="all", bc="vector")
    add(N=1, L=3, l=1, iso=3, f="some", bdrf=["s"])
    add(N=1, L=3, l=2, iso=4, f="all", omega0=[2], banded=3)
    add(N=1, L=2, l=1, iso=1, f="all", only_flux=True)
    add(N=2, L=1, f="all", iso=1, NF=1, weight=3)
    add(what=U, N=1, L=1, f="all", iso=1)
    add(what=U, N=1, L=2, l=1, NF=2, iso=2, f="all")
    add(what=U, N=1, L=2, l=0, NF=1, iso=3, f="first", beam=False)
    add(what=U, N=1, L=2, l=1, NF=2, iso=2, f="all", autograd=True)
    add(what=U, N=2, L=1, NF=3, f="all", bc="matrix", weight=3)
    add(what=U, N=2, L=2, l=0, NF=2, iso=1, weight=4)
    add(what=U, N=1, L=1, NF=1, NT=True, f="all", NLeg_all=3, weight=4)
    add(what=U, N=1, L=2, l=1, NF=1, NT=True, f="all", NLeg_all=3, iso=1, weight=4)
    add(what=U, N=1, L=3, l=1, NF=1, NT=True, f="all", NLeg_all=3, half=True, weight=4)
    add(what=U, N=1, L=2, l=1, NF=1, NT=True, f="all", NLeg_all=4, autograd=True, weight=4)
    add(what=["u"], N=3, L=2, l=1, NF=3, iso=1, weight=1)
    add(N=3, L=2, l=1, f="all", NF=1, weight=1)
    add(N=1, L=11, l=10, f="some", iso=1, weight=1)
    add(N=1, L=5, l=3, f="all", iso=2, bc="vector", weight=1)
    add(N=2, L=3, l=1, f="all", iso=3, NF=1, weight=1)
    add(what=["u"], N=2, L=3, l=1, NF=4, f="all", iso=2, weight=1)
    add(N=2, L=3, l=0, f="mid")
    add(N=2, L=3, l=1, f="mid", iso=1)
    if tier == "thorough":
        add(N=2, L=3, l=1, f="all", iso=3, NF=1, banded=3, weight=8)
        add(N=3, L=1, f="all", NF=1, NLeg=3, weight=8)
        add(what=U, N=2, L=3, l=2, NF=2, f="all", iso=2, banded=3, weight=8)
        add(what=U, N=2, L=1, NF=2, NT=True, f="all", NLeg_all=5, weight=8)
        add(what=U, N=1, L=4, l=2, NF=2, NT=True, f="some", NLeg_all=3, weight=8)
        add(what=U, N=2, L=2, l=0, NF=2, NT=True, f="all", NLeg_all=5, iso=1, weight=8)
    return J
