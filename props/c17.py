"""C17: however thick the layers, nothing overflows: no exponential with a positive exponent is formed."""
from props.common import *

INFO = dict(
    functions=["pydisort (TMS_correction, IMS_correction)", "_assemble_intensity_and_fluxes", "_solve_for_coeffs", "_solve_for_gen_and_part_sols",
               "subroutines.generate_diff_act_flux_funcs"],
    bounds="sizes as listed, dense and banded solver, thickness in [0.05, 20000]; one optical depth anywhere in one layer and both boundaries; other parameter ranges as in C01",
)


def outputs(c, p, t, phi, anti):
    out = [("upward flux", p.Fp(t, anti)), ("downward fluxes", c.A(list(p.Fm(t, anti)))), ("zeroth mode", p.u0(t, anti))]
    if p.u is not None:
        out.append(("intensity", p.u(t, phi, anti)))
    up, dn = c.sub.generate_diff_act_flux_funcs(p.u0)
    out.append(("actinic fluxes", c.A([up(t, anti), dn(t, anti)])))
    return out


def bounded(c, l=0, anti=False, **kw):
    p = solve(make(c, thick=(0.05, 20000), **kw))
    s = c.var("x", 0.001, 20000)
    c.assume(s < p.d[l])
    phi = c.var("phi", 0, 6)
    vals = []
    for where, t in (("inside a layer", p.tops[l] + s), ("at the bottom of a layer", p.bots[l]), ("at the top", c.num(0))):
        vals += [(n + " " + where, v) for n, v in outputs(c, p, t, phi, anti)]
    c.no_overflow("every exponent is at most zero")
    for n, v in vals:
        c.finite("finite " + n, v)


def jobs(tier):
    J = []

    def add(weight=1, **kw):
        J.append(dict(fn="bounded", params=kw, weight=weight, cfg=dict(lazy_where=True, record=True)))
    add(N=1, L=1, NF=2)
    add(N=1, L=1, NF=1, f="all", iso=1, beam=False, anti=True)
    add(N=1, L=2, l=1, NF=2, f="all", iso=2, bdrf=["f"])
    add(N=1, L=2, l=0, NF=1, f="some", bc="scalar", anti=True)
    add(N=1, L=2, l=1, NF=1, omega0=[0], iso=3)
    add(N=1, L=3, l=1, NF=1, f="first", banded=3, bdrf=["s"], bc="vector")
    add(N=1, L=2, l=1, NF=2, f="all", NT=True, NLeg_all=3)
    add(N=1, L=3, l=1, NF=1, f="some", NT=True, NLeg_all=3, anti=True)
    add(N=2, L=1, NF=2, f="all", NT=True, NLeg_all=5)
    add(N=2, L=2, l=0, NF=3, bc="matrix", bdrf=["s", "f"], iso=1)
    add(N=2, L=3, l=2, only_flux=True, f="all", banded=3)
    add(N=3, L=3, l=2, NF=2, NLeg=4, f="some", anti=True, weight=1)
    add(N=1, L=11, l=6, NF=2, f="all", iso=1, weight=1)
    add(N=2, L=4, l=2, NF=4, f="all", iso=3, banded=3, bdrf=["f", "s"], weight=2)
    if tier == "thorough":
        add(N=2, L=4, l=2, NF=4, f="all", iso=3, banded=3, bdrf=["f", "s"], weight=4)
        add(N=2, L=3, l=1, NF=2, f="all", NT=True, NLeg_all=6, iso=1, weight=4)
        add(N=3, L=2, l=1, NF=2, NLeg=4, f="some", weight=4)
        add(N=2, L=2, l=0, NF=2, autograd=True, anti=True, iso=2, f="all", weight=4)
    return J
