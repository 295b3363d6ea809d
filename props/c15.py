"""C15: energy is conserved: the net flux changes by what is absorbed minus what is emitted."""
from props.common import *

INFO = dict(
    functions=["pydisort", "_assemble_intensity_and_fluxes (flux_up, flux_down, u0)", "_solve_for_gen_and_part_sols", "_solve_for_coeffs",
               "subroutines.generate_diff_act_flux_funcs", "subroutines._mathscr_v", "subroutines.Gauss_Legendre_quad"],
    bounds="sizes as listed, dense and banded solver; 0-4 source coefficients; one or two optical depths anywhere in one layer; other parameter ranges as in C01",
    assumptions=["the quadrature rule returned by leggauss is exact up to degree 2N-1"],
)


def functions(c, p, anti=()):
    up, dn = c.sub.generate_diff_act_flux_funcs(p.u0)

    def net(t):
        d = p.Fm(t, *anti)
        return p.Fp(t, *anti) - d[0] - d[1]

    def act(t):
        b = 0
        if p.beam:
            b = p.I0 * c.exp(-t / p.mu0) * (-p.mu0 if anti else 1)
        return up(t, *anti) + dn(t, *anti) + b
    return net, act


def streams(c, p, l, t, U):
    """right-hand side of the transfer equation of the zeroth mode, per unit optical depth, for values U of the zeroth mode"""
    st = stau(p, l, t)
    out = []
    for i in range(p.NQ):
        r = U[i] - sum(p.w[j] * D(p, l, 0, p.mu[i], p.mu[j]) * U[j] for j in range(p.NQ))
        if p.beam:
            r = r - X(p, l, 0, p.mu[i]) * c.exp(-st / p.mu0)
        out.append(r * p.sc[l] - source(p, l, t))
    return out


def local(c, l=0, **kw):
    """d(net flux)/d(tau) = (1 - omega) (actinic flux) - 4 pi (1 - omega) s, in three steps of which the sum is the statement:
    (1) mu dU/dtau = R(U) for the zeroth mode U (all streams);
    (2) d(net flux)/dtau = 2 pi sum(w mu dU/dtau) - d(beam)/dtau and actinic flux = 2 pi sum(w U) + beam;
    (3) for any values U: 2 pi sum(w R(U)) - d(beam)/dtau = (1 - omega)(2 pi sum(w U) + beam) - 4 pi (1 - omega) s"""
    p = solve(make(c, **kw))
    top, s = inside(c, p, l)
    net, act = functions(c, p)
    t = top + s
    room = s * 0.1 if c.sym else min(s, p.d[l] - s)
    U, dU = p.u0(t), c.deriv(p.u0, top, s, room)
    c.eq("zeroth mode solves the transfer equation", c.A([p.mu[i] * dU[i] for i in range(p.NQ)]), c.A(streams(c, p, l, t, U)), 2e-6)
    direct, dbeam, beam = 0, 0, 0
    if p.beam:
        st = stau(p, l, t)
        direct = p.I0 * c.exp(-st / p.mu0)
        dbeam = -p.sc[l] * direct                 # derivative of mu0 I0 exp(-tau*/mu0)
        beam = p.I0 * c.exp(-t / p.mu0)
    w = lambda v: 2 * c.pi * sum(p.w[i] * v[i] for i in range(p.NQ))
    c.eq("divergence of the net flux from the zeroth mode", c.deriv(net, top, s, room), w([p.mu[i] * dU[i] for i in range(p.NQ)]) - dbeam, 1e-5)
    c.eq("total actinic flux from the zeroth mode", act(t), w(U) + direct, 1e-6)
    V = [c.var("U%d" % i, 0.1, 9) for i in range(p.NQ)]
    c.eq("absorption and emission balance", w(streams(c, p, l, t, V)) - dbeam, (1 - p.omega[l]) * (w(V) + direct) - 4 * c.pi * source(p, l, t), 1e-6)
    if not c.sym:
        c.eq("divergence of the net flux", c.deriv(net, top, s, room), (1 - p.omega[l]) * act(t) - 4 * c.pi * source(p, l, t), 1e-4)


def slab(c, l=0, **kw):
    """difference of the net upward flux between two depths of one layer, by the antiderivatives of the actinic fluxes"""
    p = solve(make(c, **kw))
    top, s = inside(c, p, l)
    r = c.var("y", 0.001, 4)
    c.assume(r > s)
    c.assume(r < p.d[l])
    a, b = top + s, top + r
    net, _ = functions(c, p)
    _, act = functions(c, p, (True,))
    em = 0
    for k, v in enumerate(p.s[l]):
        em = em + v * (b**(k + 1) - a**(k + 1)) / (k + 1)
    c.eq("net flux between two depths", net(b) - net(a), (1 - p.omega[l]) * (act(b) - act(a) - 4 * c.pi * em), 1e-5)


def jobs(tier):
    J = []

    def add(fn, weight=1, **kw):
        J.append(dict(fn=fn, params=kw, weight=weight, cfg=dict(lazy_where=True, shim=dict(moments=True))))
    add("local", N=1, L=1, NF=1)
    add("local", N=1, L=2, l=1, NF=2, f="all", iso=2, bdrf=["f"])
    add("local", N=1, L=2, l=0, NF=1, f="some", iso=3, bc="scalar", omega0=[1])
    add("local", N=1, L=3, l=1, only_flux=True, f="first", iso=1, banded=3, bc="vector")
    add("local", N=2, L=1, NF=1, NLeg=3, f="all", iso=1, beam=False, weight=2)
    add("local", N=2, L=1, NF=1, NLeg=4, beam=False, iso=2, weight=2)
    add("local", N=2, L=2, l=1, NF=1, NLeg=4, only_flux=True, bdrf=["s"], weight=3)
    add("local", N=2, L=2, l=0, NF=1, NLeg=3, f="all", bc="vector", weight=3)
    add("slab", N=1, L=2, l=1, NF=1, f="all", iso=2)
    add("slab", N=1, L=2, l=0, NF=1, bc="vector", omega0=[0], iso=1)
    add("local", N=3, L=1, NF=1, NLeg=3, f="all", weight=2)
    add("local", N=3, L=2, l=0, NF=1, NLeg=6, bc="vector", bdrf=["f"], weight=2)
    add("local", N=2, L=3, l=1, NF=1, NLeg=4, iso=1, banded=3, weight=3)
    add("local", N=3, L=2, l=1, NF=5)
    if tier == "thorough":
        add("local", N=2, L=2, l=1, NF=1, NLeg=4, f="all", iso=1, bdrf=["f"], weight=6)
        add("local", N=4, L=1, NF=1, NLeg=3, weight=9)
        add("local", N=4, L=2, l=1, NF=1, NLeg=8, f="all", weight=9)
        add("local", N=3, L=3, l=2, NF=1, NLeg=6, f="some", bc="vector", banded=3, weight=9)
        add("local", N=3, L=1, NF=1, NLeg=3, iso=1, beam=False, weight=9)
        add("local", N=2, L=2, l=1, NF=1, NLeg=4, iso=3, beam=False, weight=9)
    return J
