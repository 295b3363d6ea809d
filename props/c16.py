"""C16: limiting cases with known solutions: thermal equilibrium, and atmospheres that do not scatter."""
from props.common import *

INFO = dict(
    functions=["pydisort", "_assemble_intensity_and_fluxes", "_solve_for_gen_and_part_sols", "_solve_for_coeffs", "subroutines._mathscr_v",
               "subroutines.generate_emissivity_from_BDRF", "subroutines.generate_diff_act_flux_funcs"],
    bounds="sizes as listed, dense and banded solver; one optical depth anywhere in one layer and both boundaries; other parameter ranges as in C01",
)


def points(c, p, l):
    top, s = inside(c, p, l)
    return (("inside a layer", top + s), ("at the bottom of a layer", p.bots[l]), ("at the top", c.num(0)))


def equilibrium(c, l=0, surface=None, only_flux=False, **kw):
    """an isothermal atmosphere over a surface of the same temperature, lit from above by the same emission: the intensity is the emission everywhere"""
    p = make(c, beam=False, only_flux=only_flux, **kw)
    B = c.var("B", 0.1, 9)
    p.iso, p.s = 1, [[B] for _ in range(p.L)]
    em = 1
    over = {}
    if surface == "s":
        rho = c.var("rho", 0.01, 0.9)
        over["BDRF_Fourier_modes"] = [rho]
        em = c.sub.generate_emissivity_from_BDRF(p.N, rho)
    elif surface == "f":
        q = c.bdrf(0)
        over["BDRF_Fourier_modes"] = [q]
        em = c.sub.generate_emissivity_from_BDRF(p.N, q)
        for e in (em if c.np.ndim(em) else [em]):       # the surface neither amplifies nor loses a negative amount
            c.assume(e > 0)
            c.assume(e < 1)
    p.b_neg = B
    p.b_pos = B * em
    solve(p, **over)
    ones = c.A([1] * p.NQ)
    up, dn = c.sub.generate_diff_act_flux_funcs(p.u0)
    for where, t in points(c, p, l):
        if p.u is not None:
            c.eq("intensity in equilibrium " + where, p.u(t, c.var("phi", 0, 6)), B * ones)
        c.eq("zeroth mode in equilibrium " + where, p.u0(t), B * ones)
        c.eq("fluxes in equilibrium " + where, c.A([p.Fp(t), p.Fm(t)[0], p.Fm(t)[1]]), c.A([c.pi * B, c.pi * B, 0]))
        c.eq("actinic fluxes in equilibrium " + where, c.A([up(t), dn(t)]), c.A([2 * c.pi * B, 2 * c.pi * B]))


def follow(c, S, mu, I, entry, depth):
    """along one direction: intensity after the given depth of a layer with the source S(x) (coefficients) and the intensity I at x = entry,
    the end where the light enters; mu is positive downward (x counts downward in units of optical depth)"""
    def q(x):       # the polynomial Q with mu Q' + Q = S
        r, co, sg = 0, list(S), 1
        while co:
            r = r + sg * sum(v * x**k for k, v in enumerate(co))
            co = [k * v for k, v in enumerate(co)][1:]
            sg = sg * (-mu)
        return r
    return q(depth) + (I - q(entry)) * c.exp((entry - depth) / mu)


def absorbing(c, l=0, **kw):
    """nothing scatters: Beer's law, emission along the path and reflection at the surface"""
    p = make(c, **kw)
    p.omega = [c.num(0)] * p.L
    solve(p)
    N = p.N
    S = [[1 * v for v in p.s[k]] for k in range(p.L)]
    # downward, for each mode
    down = []
    for m in range(p.NF):
        row = []
        for j in range(N):
            I = [p.bneg_modes[m][j]]
            for k in range(p.L):
                I.append(follow(c, S[k] if m == 0 else [], p.mu[j], I[-1], p.tops[k], p.bots[k]))
            row.append(I)
        down.append(row)
    up = []
    for m in range(p.NF):
        row = []
        for i in range(N):
            r = p.bpos_modes[m][i]
            if m < len(p.bdrf):
                rh = (lambda x, y: p.bdrf[m]) if p.bdrf_kinds[m] == "s" else (lambda x, y: c.bdrf1(m, x, y))
                r = r + (2 if m == 0 else 1) * sum(p.w[j] * p.mu[j] * rh(p.mu[i], p.mu[j]) * down[m][j][p.L] for j in range(N))
                if p.beam:
                    r = r + p.mu0 * p.I0 / c.pi * rh(p.mu[i], p.mu0) * c.exp(-p.tau_bot / p.mu0)
            I = [r]
            for k in reversed(range(p.L)):
                I.append(follow(c, S[k] if m == 0 else [], -p.mu[i], I[-1], p.bots[k], p.tops[k]))
            row.append(I[::-1])
        up.append(row)
    top, s = inside(c, p, l)
    t = top + s
    U = []
    for m in range(p.NF):
        src = S[l] if m == 0 else []
        U.append([follow(c, src, -p.mu[i], up[m][i][l + 1], p.bots[l], t) for i in range(N)] +
                 [follow(c, src, p.mu[j], down[m][j][l], top, t) for j in range(N)])
    got = [modes(p, p.u, t)] if p.u is not None else []
    for G in got:
        for m in range(p.NF):
            c.eq("mode %d of the intensity without scattering" % m, G[m], c.A(U[m]))
    c.eq("zeroth mode without scattering", p.u0(t), c.A(U[0]))
    w = lambda v, f: 2 * c.pi * sum(p.w[i] * f(p.mu[i]) * v[i] for i in range(N))
    fp, fm = p.Fp(t), p.Fm(t)
    direct = p.I0 * p.mu0 * c.exp(-t / p.mu0) if p.beam else 0
    c.eq("fluxes without scattering", c.A([fp, fm[0], fm[1]]), c.A([w(U[0][:N], lambda x: x), w(U[0][N:], lambda x: x), direct]))


def jobs(tier):
    J = []

    def add(fn, weight=1, shim=None, **kw):
        J.append(dict(fn=fn, params=kw, weight=weight, cfg=dict(lazy_where=True, shim=dict(shim or dict(zero_rhs=25, moments=True)))))
    E = "equilibrium"
    add(E, N=1, L=1, NF=1)
    add(E, N=1, L=1, NF=2, surface="s", f="all")
    add(E, N=1, L=2, l=1, NF=1, surface="f", f="some")
    add(E, N=1, L=3, l=1, NF=1, banded=3, f="all", surface="f")
    add(E, N=1, L=2, l=0, only_flux=True, surface="s", omega0=[1])
    add(E, N=1, L=2, l=0, NF=2, omega0=[0, 1], surface="f")
    add(E, N=2, L=2, l=0, NF=1, omega0=[0, 1], surface="f")
    add(E, N=2, L=1, NF=2, omega0=[0], surface="s", autograd=True)
    A = "absorbing"
    X = dict(solve_tri=True)
    add(A, shim=X, N=1, L=1, NF=1, bc="scalar", iso=1)
    add(A, shim=X, N=1, L=1, NF=2, bc="matrix", bdrf=["f", "s"], iso=2)
    add(A, shim=X, N=1, L=2, l=0, NF=1, bc="vector", bdrf=["s"], iso=1)
    add(A, shim=X, N=1, L=2, l=1, NF=1, beam=False, iso=3)
    add(A, shim=X, N=2, L=1, NF=2, bc="vector", bdrf=["f"], iso=1)
    add(A, shim=X, N=2, L=1, NF=1, bc="neg", iso=3, beam=False)
    add(A, shim=X, N=1, L=3, l=1, NF=2, bc="matrix", iso=2, banded=3, bdrf=["s", "f"])
    add(A, shim=X, N=2, L=2, l=1, NF=1, bc="vector", iso=4, bdrf=["f"], autograd=True)
    add(A, shim=X, N=2, L=3, l=1, only_flux=True, bc="vector", iso=1, bdrf=["s"])
    add(A, shim=X, N=3, L=2, l=0, NF=3, bc="matrix", bdrf=["f", "s"], iso=2)
    add("absorbing", shim=X, N=4, L=3, l=1, NF=2, bc="matrix", bdrf=["f", "s"], iso=2, weight=1)
    add("absorbing", shim=X, N=2, L=10, l=7, NF=2, bc="matrix", bdrf=["f", "s"], iso=1, weight=1)
    add("equilibrium", N=1, L=5, l=3, NF=2, f="all", surface="f", omega0=[1], weight=1)
    if tier == "thorough":
        add(E, N=1, L=4, l=2, NF=2, banded=3, f="all", surface="f", omega0=[1], weight=3)
        add(E, N=1, L=4, l=2, NF=2, f="some", surface="s", autograd=True, weight=3)
        add(E, N=3, L=2, l=1, NF=3, omega0=[0, 1], surface="f", weight=3)
        add(A, shim=X, N=3, L=3, l=1, NF=4, bc="matrix", bdrf=["f", "s", "f"], iso=4, banded=3, weight=3)
        add(A, shim=X, N=4, L=2, l=1, NF=2, bc="matrix", bdrf=["f", "s"], iso=2, weight=3)
    return J
