"""C02: the returned intensity satisfies the boundary conditions at the top and at the reflecting bottom."""
from props.common import *

INFO = dict(
    functions=["pydisort", "_solve_for_coeffs", "_assemble_intensity_and_fluxes (u, u0)", "_solve_for_gen_and_part_sols", "subroutines._mathscr_v"],
    bounds="sizes as listed, dense and banded solver; scalar, vector and matrix boundary values; 0-5 reflection modes, each "
           "a constant or an arbitrary function; sources of 0-3 coefficients; parameter ranges as in C01",
)


def top(c, **kw):
    p = solve(make(c, **kw))
    U = modes(p, p.u, c.num(0))
    for m in range(p.NF):
        c.eq("downward intensity at the top is the prescribed one, mode %d" % m, U[m][p.N:], c.A(p.bneg_modes[m]))


def rho(p, m, mu_i, mu_j):
    c = p.c
    if p.bdrf_kinds[m] == "s":
        return p.bdrf[m]
    return c.bdrf1(m, mu_i, mu_j)


def bottom(c, **kw):
    p = solve(make(c, **kw))
    U = modes(p, p.u, p.tau_bot)
    for m in range(p.NF):
        rhs = []
        for i in range(p.N):
            r = p.bpos_modes[m][i]
            if m < len(p.bdrf):
                refl = sum(p.w[j] * p.mu[j] * rho(p, m, p.mu[i], p.mu[j]) * U[m][p.N + j] for j in range(p.N))
                r = r + (2 if m == 0 else 1) * refl
                if p.beam:
                    r = r + p.mu0 * p.I0 / c.pi * rho(p, m, p.mu[i], p.mu0) * c.exp(-p.bots_s[-1] / p.mu0)
            rhs.append(r)
        c.eq("upward intensity at the bottom is emission plus reflection, mode %d" % m, U[m][:p.N], c.A(rhs))


def jobs(tier):
    J = []

    def add(fn, weight=1, **kw):
        J.append(dict(fn=fn, params=kw, weight=weight))
    for bc in ("scalar", "vector", "matrix"):
        add("top", N=2, L=1, NF=2, bc=bc, weight=3)
    add("top", N=1, L=2, bc="vector", iso=2, f="all")
    add("top", N=1, L=3, bc="matrix", iso=3, bdrf=["f"])
    add("top", N=2, L=1, NF=2, bc="neg", beam=False, iso=1, weight=3)
    add("top", N=1, L=3, bc="pos", banded=3, f="some")
    add("top", N=1, L=2, NF=2, bc="matrix", omega0=[0], iso=1)
    add("top", N=2, L=1, NF=1, bc="vector", b_lo=0)
    add("top", N=2, L=1, NF=2, bc="matrix", b_lo=0, weight=3)
    add("bottom", N=1, L=1, NF=2, bc="matrix", bdrf=["s"], iso=1, b_lo=0, weight=3)
    add("bottom", N=1, L=2, NF=2, bc="matrix", bdrf=["s"], b_lo=0, g_neg=True, weight=3)
    add("bottom", N=1, L=1, bc="scalar", bdrf=["s"])
    add("bottom", N=1, L=1, bc="vector", bdrf=["f", "f"])
    add("bottom", N=1, L=2, bc="zero", bdrf=["f"], f="all", iso=2)
    add("bottom", N=1, L=3, bc="matrix", bdrf=["s", "f"], banded=3, f="some", iso=1)
    add("bottom", N=1, L=2, bc="scalar", bdrf=["f"], beam=False, iso=3, omega0=[1])
    add("bottom", N=1, L=1, bc="neg", bdrf=["s"], iso=1)
    add("bottom", N=2, L=1, NF=1, bc="vector", bdrf=["f"], weight=4)
    add("bottom", N=2, L=1, NF=3, bc="matrix", bdrf=["f", "s"], f="all", weight=4)
    add("bottom", N=2, L=1, NF=2, bc="pos", bdrf=["s"], beam=False, weight=3)
    add("bottom", N=3, L=1, NF=3, bc="matrix", bdrf=["f", "f"], weight=1)
    add("top", N=1, L=11, bc="matrix", iso=1, bdrf=["s"], weight=1)
    add("bottom", N=1, L=10, bc="vector", bdrf=["f"], f="all", weight=1)
    add("top", N=3, L=2, NF=3, bc="matrix", iso=2, weight=2)
    add("bottom", N=2, L=3, NF=3, bc="matrix", bdrf=["f", "s", "f"], f="all", iso=1, weight=2)
    add("top", N=2, L=3, NF=4, bc="matrix", banded=3, iso=1, f="all", weight=3)
    add("bottom", N=2, L=3, NF=4, bc="matrix", bdrf=["f", "s"], banded=3, weight=3)
    add("bottom", N=2, L=2, NF=4, bc="vector", bdrf=["f", "f", "f", "f"], f="all", weight=3)
    add("bottom", N=3, L=2, NF=5, bc="matrix", bdrf=["f", "f", "s", "f", "f"], weight=3)
    if tier == "thorough":
        add("bottom", N=2, L=1, NF=4, bc="matrix", bdrf=["f", "f", "f"], iso=2, weight=8)
        add("bottom", N=2, L=2, NF=2, bc="matrix", bdrf=["f", "s"], f="all", weight=8)
        add("top", N=2, L=2, NF=4, bc="matrix", f="some", iso=1, weight=8)
        add("top", N=2, L=3, NF=2, bc="matrix", banded=3, weight=8)
        add("bottom", N=2, L=3, NF=2, bc="matrix", bdrf=["f", "s"], banded=3, weight=8)
        add("bottom", N=1, L=4, bc="vector", bdrf=["f"], banded=4, iso=2, f="all", weight=4)
        add("bottom", N=2, L=1, NF=2, bc="vector", bdrf=["s", "f"], autograd=True, weight=5)
        add("bottom", N=3, L=1, NF=1, NLeg=3, bc="vector", bdrf=["f"], weight=9)
    return J
