"""Problems shared by the harnesses, and the reference physics they are compared with.

Everything here is written from the equations (radiative transfer equation, delta-M scaling,
boundary conditions), not from the package's code.  A harness receives a context `c` that is either
symbolic (all inputs at once) or concrete (one solver model replayed on the real package).
"""
from fractions import Fraction as Fr
from math import factorial


class Prob:
    pass


def make(c, N=1, L=1, NLeg=None, NF=None, beam=True, iso=0, bdrf=(), bc="zero", f="no", omega0=(), banded=10,
         autograd=False, NT=False, NLeg_all=None, only_flux=False, phi0="var", g_neg=False, b_lo=0.1, iso_const=False, tag="", thick=(0.05, 4), wmax=0.999):
    """a radiative transfer problem with symbolic parameters
    f: no | all | some (last layer only) | zero_omega (only where omega = 0)
    bdrf: tuple of 's' (scalar) / 'f' (function), one per Fourier mode
    bc: zero | scalar | vector | matrix | pos | neg
    omega0: indices of non-scattering layers
    g_neg: negative Legendre coefficients (otherwise of any sign, except the last ones, which are positive)"""
    p = Prob()
    p.c = c
    p.N, p.L = N, L
    NQ = 2 * N
    p.NQ = NQ
    NLeg = p.NLeg = NLeg or NQ
    p.NLeg_all = NLeg_all or NLeg
    p.NF = NF if NF is not None else NLeg
    if only_flux:
        p.NF = 1
    p.only_flux = only_flux
    t = tag
    p.d = [c.var("d%d%s" % (l, t), thick[0], thick[1]) for l in range(L)]
    p.omega = [c.num(0) if l in omega0 else c.var("w%d%s" % (l, t), 0.0002 if p.NF < 4 else 0.02, wmax) for l in range(L)]
    p.g = [[c.num(1)] + [c.var("g%d_%d%s" % (l, k, t), *((-0.9, -0.02) if g_neg else (0.02 if k >= NLeg - 1 else -0.9, 0.9))) for k in range(1, p.NLeg_all)] for l in range(L)]
    p.beam = beam
    if beam:
        p.mu0 = c.var("mu0" + t, 0.05, 1)
        p.I0 = c.var("I0" + t, 0.1, 20)
        p.phi0 = c.var("phi0" + t, 0, 6) if phi0 == "var" else c.num(phi0)
    else:
        p.mu0, p.I0, p.phi0 = 0, 0, 0
    p.iso = iso
    p.s = [[c.var("s%d_%d%s" % (l, k, t), 0.1 if k == 0 else -5, 5) for k in range(iso)] for l in range(L)]
    if iso_const:
        for l in range(1, L):
            p.s[l] = p.s[0]
    p.bdrf_kinds = tuple(bdrf)
    p.bdrf = []
    for k, kind in enumerate(bdrf):
        p.bdrf.append(c.var("rho%d%s" % (k, t), 0.01, 0.4) if kind == "s" else c.bdrf(k))
    if f == "no":
        p.f = None
    elif f == "all":
        p.f = [c.var("f%d%s" % (l, t), 0.01, 0.8) for l in range(L)]
    elif f == "some":
        p.f = [c.num(0) if l < L - 1 else c.var("f%d%s" % (l, t), 0.01, 0.8) for l in range(L)]
    elif f == "mid":
        p.f = [c.num(0) if l != L // 2 else c.var("f%d%s" % (l, t), 0.01, 0.8) for l in range(L)]
    elif f == "first":
        p.f = [c.num(0) if l > 0 else c.var("f%d%s" % (l, t), 0.01, 0.8) for l in range(L)]
    if p.f is not None:
        # coefficients below 1e-8 count as "no multiple scattering" in the package: stay away from that threshold
        for l in range(L):
            if f == "all" or (f == "some" and l == L - 1) or (f == "first" and l == 0) or (f == "mid" and l == L // 2):
                c.assume(p.g[l][NLeg - 1] >= p.f[l] + (Fr(1, 100) if c.sym else 0.01))
    p.bc = bc
    NFp = p.NF

    def bcv(side):
        if bc in ("zero",) or (bc == "pos" and side == "neg") or (bc == "neg" and side == "pos"):
            return 0, [[0] * N for _ in range(NFp)]
        if bc == "scalar":
            b = c.var("b_%s%s" % (side, t), b_lo, 9)
            return b, [[b] * N] + [[0] * N for _ in range(NFp - 1)]
        if bc in ("vector", "pos", "neg"):
            b = [c.var("b_%s%d%s" % (side, i, t), b_lo, 9) for i in range(N)]
            return c.A(b), [b] + [[0] * N for _ in range(NFp - 1)]
        b = [[c.var("b_%s%d_%d%s" % (side, i, m, t), b_lo, 9) for m in range(NFp)] for i in range(N)]
        return c.A(b), [[b[i][m] for i in range(N)] for m in range(NFp)]
    p.b_pos, p.bpos_modes = bcv("pos")
    p.b_neg, p.bneg_modes = bcv("neg")
    p.tops, p.bots = [], []
    s = 0
    for x in p.d:
        p.tops.append(s)
        s = s + x
        p.bots.append(s)
    p.tau_bot = s
    p.banded, p.autograd, p.NT = banded, autograd, NT
    # --- reference: delta-M scaling
    fz = p.f or [0] * L
    p.fz = fz
    p.sc = [1 - w * ff for w, ff in zip(p.omega, fz)]
    p.w_s = [(1 - ff) * w / sc for w, ff, sc in zip(p.omega, fz, p.sc)]
    p.g_s = [[(x - ff) / (1 - ff) if p.f else x for x in row[:NLeg]] for row, ff in zip(p.g, fz)]
    p.tops_s, p.bots_s = [], []
    s = 0
    for x, sc in zip(p.d, p.sc):
        p.tops_s.append(s)
        s = s + sc * x
        p.bots_s.append(s)
    x, w = c.quad_nodes(N)
    p.mu = [x[i] for i in range(N)] + [-x[i] for i in range(N)]
    if NT and beam:
        for i in range(N):      # documented: the beam must not coincide with a computational angle
            c.assume((p.mu0 - p.mu[i])**2 >= (Fr(1, 10**6) if c.sym else 1e-6))
    p.w = [w[i] for i in range(N)] * 2
    return p


def args(p, **over):
    """positional and keyword arguments for the solver"""
    c = p.c
    kw = dict(NLeg=p.NLeg, NFourier=p.NF, b_pos=p.b_pos, b_neg=p.b_neg)
    if p.only_flux:
        kw["only_flux"] = True
        kw.pop("NFourier")
    if p.f is not None:
        kw["f_arr"] = c.A(p.f)
    if p.bdrf:
        kw["BDRF_Fourier_modes"] = list(p.bdrf)
    if p.iso:
        kw["s_poly_coeffs"] = c.A(p.s)
    if p.banded != 10:
        kw["use_banded_solver_NLayers"] = p.banded
    if p.autograd:
        kw["autograd_compatible"] = True
    if p.NT:
        kw["NT_cor"] = True
    pos = dict(tau_arr=c.A(p.bots), omega_arr=c.A(p.omega), NQuad=p.NQ, Leg_coeffs_all=c.A(p.g), mu0=p.mu0, I0=p.I0, phi0=p.phi0)
    pos.update(kw)
    pos.update(over)
    return pos


def solve(p, **over):
    out = p.c.pd(**args(p, **over))
    p.mu_arr, p.Fp, p.Fm, p.u0 = out[:4]
    p.u = out[4] if len(out) > 4 else None
    return p


def phis(p):
    """azimuths that determine the Fourier modes, with rational cosines"""
    n = p.NF
    step = {1: 0, 2: Fr(1, 2), 3: Fr(1, 2), 4: Fr(1, 3), 5: Fr(1, 4)}[n]
    pi = p.c.pi
    if not p.c.sym:
        step = float(step)
    return [p.phi0 - pi * (k * step) for k in range(n)]


def modes_from(p, vals):
    """vals[k]: intensity at the k-th azimuth -> list of Fourier modes"""
    n = p.NF
    H = Fr(1, 2) if p.c.sym else 0.5
    if n == 1:
        return [vals[0]]
    if n == 2:
        return [vals[1], vals[0] - vals[1]]
    if n == 3:
        a, b, e = vals
        return [((a + e) * H + b) * H, (a - e) * H, ((a + e) * H - b) * H]
    if n == 5:
        # cos(m pi k/4): even m rows k=0,1,2: [1,1,1],[1,0,-1],[1,-1,1]; odd m rows k=0,1: [1,1],[r,-r] with r = 1/sqrt 2
        a, b, e, d, f = vals
        A, B, D, E = (a + f) * H, (b + d) * H, (a - f) * H, (b - d) * H * p.c.sqrt(p.c.num(2))
        S = (A + e) * H
        return [(S + B) * H, (D + E) * H, (A - e) * H, (D - E) * H, (S - B) * H]
    # n == 4: cos(m pi k/3): rows k, columns m: [1,1,1,1],[1,1/2,-1/2,-1],[1,-1/2,-1/2,1],[1,-1,1,-1]
    a, b, e, d = vals
    T = Fr(1, 3) if p.c.sym else 1.0 / 3
    ev0, ev2 = (a + d) * H, (b + e) * H          # m even: m=0: 1,1; m=2: 1,-1/2
    m0 = (ev0 + 2 * ev2) * T
    m2 = (ev0 - ev2) * 2 * T
    od0, od1 = (a - d) * H, (b - e) * H          # m odd: m=1: 1,1/2 ; m=3: 1,-1
    m1 = (od0 + od1) * 2 * T
    m3 = (od0 - 2 * od1) * T
    return [m0, m1, m2, m3]


def modes(p, u, tau, *flags):
    """Fourier modes of the intensity at one optical depth, each an array over mu"""
    ph = p.c.A(phis(p))
    r = u(tau, ph, *flags)
    if isinstance(r, tuple):
        r = r[0]
    r = r.reshape((p.NQ, p.NF))
    return modes_from(p, [r[:, k] for k in range(p.NF)])


def leg(c, m, l, x):
    return c.lpmv(m, l, x)


def D(p, l, m, mu_i, mu_j):
    """scattering kernel of Fourier mode m in layer l (delta-scaled)"""
    s = 0
    for k in range(m, p.NLeg):
        cf = Fr(factorial(k - m), factorial(k + m)) * (2 * k + 1)
        cf = cf if p.c.sym else float(cf)
        s = s + p.g_s[l][k] * cf * (leg(p.c, m, k, mu_i) * leg(p.c, m, k, mu_j))
    return p.c.cut(s * p.w_s[l] / 2)


def X(p, l, m, mu_i):
    """beam source of Fourier mode m in layer l (delta-scaled)"""
    s = 0
    for k in range(m, p.NLeg):
        cf = Fr(factorial(k - m), factorial(k + m)) * (2 * k + 1)
        cf = cf if p.c.sym else float(cf)
        s = s + p.g_s[l][k] * cf * (leg(p.c, m, k, mu_i) * leg(p.c, m, k, -p.mu0))
    return p.c.cut(s * p.w_s[l] * p.I0 * (2 if m else 1) / (4 * p.c.pi))


def stau(p, l, tau):
    """delta-scaled optical depth"""
    return p.tops_s[l] + (tau - p.tops[l]) * p.sc[l]


def source(p, l, tau):
    """thermal emission per unit (unscaled) optical depth"""
    s = 0
    for k, v in enumerate(p.s[l]):
        s = s + v * tau**k
    return s * (1 - p.omega[l])


def inside(c, p, l, name="x"):
    """a point strictly inside layer l: (top, offset variable)"""
    s = c.var(name, 0.001, 4)
    c.assume(s < p.d[l])
    return p.tops[l], s
