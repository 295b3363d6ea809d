"""C01: inside every layer the returned intensity solves the (delta-scaled) discrete-ordinate RTE."""
from props.common import *

INFO = dict(
    functions=["pydisort", "_assemble_intensity_and_fluxes (u)", "_solve_for_gen_and_part_sols", "_solve_for_coeffs", "subroutines._mathscr_v",
               "subroutines.affine_transform_poly_coeffs", "subroutines.prepend", "subroutines.Gauss_Legendre_quad"],
    bounds="sizes as listed, dense and banded solver; source polynomials of 0-4 coefficients; "
           "omega = 0 or in [0.01,0.999], |Legendre coefficients| in [0.02,0.9], thickness in [0.05,4], mu0 in [0.05,1], f in [0.01,0.8]; "
           "tau any interior point of any layer",
)


def rte(c, l=0, **kw):
    p = solve(make(c, **kw))
    top, s = inside(c, p, l)
    tau = top + s

    def f(t):
        m = modes(p, p.u, t)
        return c.np.array(m) if not c.sym else c.A(m)
    U = f(tau)
    dU = c.deriv(f, top, s, min(s, p.d[l] - s) if not c.sym else None)
    st = stau(p, l, tau)
    for m in range(p.NF):
        lhs, rhs = [], []
        for i in range(p.NQ):
            scat = sum(p.w[j] * D(p, l, m, p.mu[i], p.mu[j]) * U[m, j] for j in range(p.NQ))
            r = U[m, i] - scat
            if p.beam:
                r = r - X(p, l, m, p.mu[i]) * c.exp(-st / p.mu0)
            r = r * p.sc[l]
            if m == 0 and p.iso:
                r = r - source(p, l, tau)
            lhs.append(p.mu[i] * dU[m, i])
            rhs.append(r)
        c.eq("mode %d of the intensity solves the transfer equation" % m, c.A(lhs), c.A(rhs), 2e-6)


def jobs(tier):
    J = []

    def add(weight=1, **kw):
        J.append(dict(fn="rte", params=kw, weight=weight))
    add(N=1, L=1)
    add(N=1, L=1, iso=1, beam=False)
    add(N=1, L=2, l=1, iso=2, f="all")
    add(N=1, L=2, l=0, iso=3, bdrf=["s"], f="some", bc="scalar")
    add(N=1, L=2, l=0, iso=1, omega0=[0])
    add(N=1, L=2, l=1, iso=2, omega0=[0], bc="vector")
    add(N=1, L=3, l=1, iso=4, bdrf=["f"])
    add(N=1, L=3, l=1, f="first", iso=3, banded=3)
    add(N=2, L=1, NF=4, weight=3)
    add(N=2, L=1, NF=2, bdrf=["f", "s"], bc="matrix", f="all", weight=3)
    add(N=2, L=2, l=1, NF=1, iso=2, weight=4)
    add(N=2, L=2, l=0, NF=3, beam=False, bc="matrix", iso=1, weight=4)
    add(N=1, L=1, NF=2, g_neg=True)
    add(N=2, L=1, NF=3, NLeg=3, NLeg_all=5, g_neg=True, weight=3)
    add(N=2, L=1, NF=2, iso=1, beam=True, weight=4)
    add(N=2, L=1, NF=2, iso=3, beam=True, autograd=True, weight=4)
    add(N=1, L=10, l=4, weight=1)
    add(N=2, L=10, l=6, NF=2, weight=1)
    add(N=3, L=1, NF=2, NLeg=6, weight=1)
    add(N=4, L=1, NF=2, NLeg=5, weight=1)
    add(N=1, L=11, l=10, f="all", iso=1, weight=1)
    add(N=2, L=3, l=1, NF=4, weight=2)
    add(N=1, L=5, l=3, iso=2, f="all", bdrf=["s"], bc="scalar", weight=2)
    add(N=2, L=11, l=10, NF=2, f="all", weight=3)
    add(N=1, L=2, l=1, iso=5, f="all", weight=4)
    add(N=3, L=2, l=1, NF=3, f="all", weight=9)
    add(N=2, L=3, l=2, NF=4, f="all", weight=2)
    add(N=3, L=3, l=2, NF=3, f="some", weight=3)
    add(N=2, L=5, l=4, NF=3, f="all", weight=3)
    add(N=3, L=3, l=2, NF=5, f="first", weight=5)
    add(N=2, L=3, l=2, NF=3, iso=2, omega0=[1], weight=2)
    add(N=1, L=3, l=1, NF=2, f="mid", iso=2)
    add(N=2, L=3, l=1, NF=2, f="mid", weight=2)
    add(N=2, L=3, l=0, NF=1, f="mid", iso=1, weight=5)
    if tier == "thorough":
        add(N=2, L=2, l=1, NF=2, iso=3, f="all", bdrf=["f"], weight=6)
        add(N=2, L=3, l=2, NF=2, iso=1, omega0=[1], banded=3, weight=6)
        add(N=2, L=4, l=2, NF=2, banded=3, weight=6)
        add(N=3, L=1, NF=2, NLeg=3, weight=9)
        add(N=2, L=2, l=0, NF=4, NLeg=4, f="some", weight=6)
    return J
