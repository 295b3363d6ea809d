"""C18: the intensity depends on azimuth only through the angle to the beam: shifted, mirrored and periodic."""
from props.common import *

INFO = dict(
    functions=["_assemble_intensity_and_fluxes (u)", "pydisort (u_corrected, TMS_correction, IMS_correction)", "subroutines.calculate_nu",
               "_solve_for_gen_and_part_sols", "_solve_for_coeffs"],
    bounds="sizes as listed, dense and banded solver; every azimuth and beam azimuth; parameter ranges as in C01",
)


def azimuth(c, l=0, **kw):
    p = make(c, **kw)
    d = c.var("shift", -3, 3)
    c.assume(p.phi0 + d >= 0)
    c.assume(p.phi0 + d < 6.25)
    out = c.pd(**args(p))
    out2 = c.pd(**args(p, phi0=p.phi0 + d))
    u, u2 = out[4], out2[4]
    x = c.var("phi", -7, 7)
    for anti in (False, True):
        top, s = inside(c, p, l, "x%d" % anti)
        t = top + s
        a = u(t, x, anti)
        c.eq("turning the beam turns the intensity", u2(t, x + d, anti), a)
        c.eq("the intensity is symmetric about the beam", u(t, 2 * p.phi0 - x, anti), a)
        c.eq("the intensity is periodic in azimuth", u(t, x + 2 * c.pi, anti), a)
        c.eq("fluxes do not depend on the azimuth of the beam", c.A([out[1](t, anti)] + list(out[2](t, anti))), c.A([out2[1](t, anti)] + list(out2[2](t, anti))))
        c.eq("the zeroth mode does not depend on the azimuth of the beam", out2[3](t, anti), out[3](t, anti))
        if p.NF == 1 and not p.NT:
            y = c.var("psi", -7, 7)
            c.eq("one Fourier mode is independent of azimuth", u(t, y, anti), a)


def none(c, l=0, **kw):
    """without a beam and with azimuth-independent boundary values nothing depends on azimuth"""
    p = solve(make(c, beam=False, **kw))
    top, s = inside(c, p, l)
    c.eq("no azimuth dependence without a beam", p.u(top + s, c.var("phi", -7, 7)), p.u(top + s, c.var("psi", -7, 7)))
    c.eq("the intensity is the zeroth mode", p.u(top + s, c.var("phi2", -7, 7)), p.u0(top + s))


def zenith(c, l=0, **kw):
    """with the beam at the zenith nothing depends on azimuth"""
    p = make(c, **kw)
    p.mu0 = c.num(1)
    solve(p)
    top, s = inside(c, p, l)
    c.eq("no azimuth dependence under a beam at the zenith", p.u(top + s, c.var("phi", -7, 7)), p.u(top + s, c.var("psi", -7, 7)))


def jobs(tier):
    J = []

    def add(fn, weight=1, **kw):
        J.append(dict(fn=fn, params=kw, weight=weight))
    A = "azimuth"
    add(A, N=1, L=1)
    add(A, N=1, L=1, NF=1, f="all")
    add(A, N=1, L=2, l=1, f="all", iso=2, bdrf=["s", "f"])
    add(A, N=1, L=1, bc="matrix", iso=1, autograd=True)
    add(A, N=2, L=1, NF=4, weight=2)
    add(A, N=2, L=2, l=1, NF=3, f="all", bc="matrix", weight=3)
    add(A, N=1, L=1, NT=True, f="all", NLeg_all=3, weight=2)
    add(A, N=1, L=2, l=0, NT=True, f="all", NLeg_all=4, iso=1, weight=2)
    Z = "none"
    add(Z, N=1, L=2, l=1, iso=2, f="all", bc="vector")
    add(Z, N=2, L=1, NF=4, iso=1, bc="scalar", weight=2)
    add(Z, N=1, L=2, l=0, iso=1, bc="vector", bdrf=["f", "f"])
    add("zenith", N=1, L=1)
    add("zenith", N=1, L=2, l=1, f="all", iso=2, bdrf=["s"])
    add("zenith", N=2, L=1, NF=3, weight=2)
    add("zenith", N=1, L=2, l=1, NT=True, f="all", NLeg_all=3, weight=1)
    add("azimuth", N=3, L=2, l=1, NF=3, bc="matrix", weight=1)
    add("zenith", N=2, L=3, l=1, NF=4, f="all", iso=1, bdrf=["f"], weight=1)
    add("azimuth", N=2, L=3, l=1, NF=4, f="all", iso=2, bdrf=["f", "s", "f"], banded=3, weight=2)
    add("azimuth", N=3, L=2, l=1, NF=5, iso=1)
    add("azimuth", N=2, L=2, l=1, NF=2, beam=False, bc="matrix", iso=1)
    if tier == "thorough":
        add(A, N=2, L=3, l=1, NF=4, f="all", iso=3, bdrf=["f", "s", "f"], banded=3, weight=6)
        add(A, N=2, L=1, NF=2, NT=True, f="all", NLeg_all=6, weight=6)
        add(A, N=3, L=1, NF=4, NLeg=4, weight=6)
        add(Z, N=2, L=3, l=1, NF=4, iso=3, f="some", bc="vector", banded=3, weight=4)
        add("zenith", N=2, L=2, l=0, NF=4, f="all", weight=4)
    return J
