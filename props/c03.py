"""C03: intensity and fluxes are continuous across layer interfaces."""
from props.common import *

INFO = dict(
    functions=["pydisort", "_solve_for_coeffs", "_assemble_intensity_and_fluxes (u, u0, flux_up, flux_down)", "subroutines._mathscr_v", "TMS_correction", "IMS_correction"],
    bounds="sizes as listed, dense and banded solver; parameter ranges as in C01; the right-hand side of the interface is the limit "
           "from above",
)


def radiance(c, k=0, **kw):
    p = solve(make(c, **kw))
    t = p.bots[k]

    def f(tau):
        m = modes(p, p.u, tau)
        return c.np.array(m) if not c.sym else c.A(m)
    a = f(t)
    b = c.right_limit(f, t, p.d[k + 1])
    for m in range(p.NF):
        c.eq("intensity is continuous across the interface, mode %d" % m, a[m], b[m])


def fluxes(c, k=0, **kw):
    p = solve(make(c, **kw))
    t = p.bots[k]

    def f(tau):
        up, (dn, direct) = p.Fp(tau), p.Fm(tau)
        return c.A([up, dn, direct])
    a = f(t)
    b = c.right_limit(f, t, p.d[k + 1])
    c.eq("fluxes are continuous across the interface", a, b)
    a = p.u0(t)
    b = c.right_limit(p.u0, t, p.d[k + 1])
    c.eq("zeroth mode is continuous across the interface", a, b)


def corrected(c, k=0, **kw):
    p = solve(make(c, NT=True, **kw))
    t = p.bots[k]
    ph = c.var("phi", 0, 6)

    def f(tau):
        return p.u(tau, ph)
    a = f(t)
    b = c.right_limit(f, t, p.d[k + 1])
    c.eq("corrected intensity is continuous across the interface", a, b)


def jobs(tier):
    J = []

    def add(fn, weight=1, **kw):
        J.append(dict(fn=fn, params=kw, weight=weight))
    add("radiance", N=1, L=2)
    add("radiance", N=1, L=2, NF=2, f="all", iso=2, bc="vector", weight=2)
    add("radiance", N=1, L=3, k=1, iso=3, f="some", bc="scalar", weight=3)
    add("radiance", N=1, L=3, k=0, banded=3, iso=1, f="first", bc="scalar", bdrf=["f"], weight=3)
    add("radiance", N=1, L=3, k=1, banded=3, iso=2, beam=False, weight=3)
    add("radiance", N=1, L=3, k=1, omega0=[1], iso=1)
    add("radiance", N=2, L=2, NF=2, weight=5)
    add("radiance", N=2, L=2, NF=1, iso=2, f="all", bc="scalar", weight=5)
    add("fluxes", N=1, L=2, f="all", weight=2)
    add("fluxes", N=1, L=3, k=1, iso=3, f="some", bc="scalar", weight=2)
    add("fluxes", N=1, L=3, k=0, iso=1, beam=False, banded=3, weight=2)
    add("fluxes", N=2, L=2, NF=1, iso=1, bc="vector", weight=4)
    add("corrected", N=1, L=2, NF=1, f="all", NLeg_all=3, weight=5)
    add("corrected", N=1, L=3, k=1, NF=1, f="all", NLeg_all=3, iso=1, weight=6)
    add("corrected", N=1, L=3, k=0, NF=2, f="all", NLeg_all=3, weight=6)
    add("radiance", N=2, L=4, k=2, NF=2, banded=3, weight=1)
    add("radiance", N=3, L=2, NF=2, weight=1)
    add("radiance", N=1, L=10, k=5, weight=1)
    add("radiance", N=2, L=3, k=1, NF=3, f="all", weight=1)
    add("radiance", N=1, L=4, k=2, NF=2, f="all", iso=2, bdrf=["s"], weight=2)
    add("radiance", N=1, L=11, k=9, f="all", iso=1, bc="scalar", weight=2)
    add("fluxes", N=1, L=10, k=0, f="all", iso=2, weight=4)
    add("fluxes", N=3, L=2, NF=1, iso=1, weight=5)
    add("fluxes", N=2, L=3, k=1, NF=1, f="all", iso=2, banded=3, weight=9)
    add("radiance", N=3, L=3, k=1, NF=5)
    add("radiance", N=2, L=3, k=1, NF=3, iso=2, omega0=[1])
    add("radiance", N=1, L=4, k=2, NF=2, iso=2, omega0=[0, 1], f="mid")
    add("fluxes", N=1, L=3, k=1, iso=1, f="mid")
    if tier == "thorough":
        add("radiance", N=1, L=4, k=2, banded=4, iso=2, f="all", weight=5)
        add("radiance", N=2, L=3, k=1, banded=3, NF=2, bc="matrix", weight=8)
        add("radiance", N=2, L=2, NF=4, bc="matrix", bdrf=["f"], weight=8)
        add("radiance", N=2, L=3, k=0, NF=1, iso=3, f="some", omega0=[1], weight=8)
        add("fluxes", N=2, L=3, k=1, banded=3, iso=2, f="all", weight=8)
        add("corrected", N=2, L=2, NF=1, NLeg_all=5, f="all", weight=8)
        add("corrected", N=1, L=4, k=1, NF=1, f="all", NLeg_all=4, weight=6)
    return J
