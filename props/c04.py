"""C04: fluxes, zeroth mode and actinic fluxes are the moments of the returned intensity."""
from props.common import *

INFO = dict(
    functions=["pydisort", "_assemble_intensity_and_fluxes (u, u0, flux_up, flux_down)", "subroutines.generate_diff_act_flux_funcs",
               "subroutines.Gauss_Legendre_quad", "subroutines._mathscr_v"],
    bounds="sizes as listed, dense and banded solver; tau any point of any layer, including its lower boundary; parameter ranges as in C01",
)


def point(c, p, l, where):
    if where == "in":
        top, s = inside(c, p, l)
        return top + s
    if where == "top":
        return c.num(0)
    return p.bots[l]


def direct(p, tau):
    return p.I0 * p.mu0 * p.c.exp(-tau / p.mu0) if p.beam else 0


def moments(c, l=0, where="in", **kw):
    p = solve(make(c, **kw))
    tau = point(c, p, l, where)
    N, pi = p.N, c.pi
    z = p.u0(tau)
    up, (dn, dr) = p.Fp(tau), p.Fm(tau)
    st = stau(p, l, tau)
    c.eq("upward flux is the moment of the zeroth mode", up, 2 * pi * sum(p.w[i] * p.mu[i] * z[i] for i in range(N)))
    c.eq("direct flux is the attenuated beam", dr, direct(p, tau))
    r = 2 * pi * sum(p.w[i] * p.mu[i] * z[N + i] for i in range(N))
    if p.beam:
        r = r + p.I0 * p.mu0 * c.exp(-st / p.mu0) - direct(p, tau)
    c.eq("downward diffuse flux is the moment plus the reclassified beam", dn, r)
    au, ad = c.sub.generate_diff_act_flux_funcs(p.u0)
    c.eq("upward actinic flux is the mean of the zeroth mode", au(tau), 2 * pi * sum(p.w[i] * z[i] for i in range(N)))
    r = 2 * pi * sum(p.w[i] * z[N + i] for i in range(N))
    if p.beam:
        r = r + p.I0 * (c.exp(-st / p.mu0) - c.exp(-tau / p.mu0))
    c.eq("downward actinic flux is the mean plus the reclassified beam", ad(tau), r)
    if p.u is not None:
        c.eq("zeroth mode is the azimuthal mean of the intensity", z, modes(p, p.u, tau)[0])


def jobs(tier):
    J = []

    def add(weight=1, **kw):
        J.append(dict(fn="moments", params=kw, weight=weight))
    add(N=1, L=1)
    add(N=1, L=1, beam=False, iso=1, f="all")
    add(N=1, L=2, l=1, f="all", iso=2, bc="vector")
    add(N=1, L=3, l=1, f="some", iso=3, bdrf=["s"])
    add(N=1, L=3, l=2, f="first", iso=1, omega0=[1], banded=3)
    add(N=1, L=2, l=0, where="bottom", f="all", bc="scalar")
    add(N=1, L=2, l=0, where="top", f="all", iso=2)
    add(N=1, L=2, l=1, f="all", iso=1, only_flux=True)
    add(N=2, L=1, NF=4, f="all", weight=3)
    add(N=2, L=2, l=1, NF=2, iso=2, bc="matrix", weight=4)
    add(N=2, L=1, NF=3, iso=1, beam=False, where="bottom", weight=3)
    add(N=1, L=2, l=0, f="all", iso=3, autograd=True)
    add(N=3, L=2, l=1, NF=3, f="some", iso=1, bc="matrix", weight=1)
    add(N=1, L=10, l=9, f="all", iso=1, weight=1)
    add(N=2, L=4, l=2, NF=2, f="first", omega0=[1], iso=4, weight=1)
    add(N=3, L=3, l=2, NF=2, f="all", beam=False, iso=2, where="bottom", weight=2)
    add(N=2, L=3, l=1, NF=4, f="all", iso=3, bdrf=["f", "s"], banded=3, weight=2)
    add(N=1, L=3, l=1, f="mid", iso=1)
    add(N=1, L=3, l=0, f="mid")
    if tier == "thorough":
        add(N=2, L=3, l=1, NF=2, iso=3, f="all", bdrf=["f"], banded=3, weight=8)
        add(N=3, L=1, NF=1, NLeg=3, f="all", weight=8)
        add(N=2, L=2, l=0, NF=4, f="some", iso=1, autograd=True, weight=8)
        add(N=1, L=4, l=2, f="all", iso=4, bc="vector", weight=4)
    return J
