"""C20: interpolation with respect to the cosine reproduces the nodes and polynomials, hemisphere by hemisphere."""
from props.common import *

INFO = dict(
    functions=["subroutines.interpolate (both variants)", "subroutines.Gauss_Legendre_quad", "pydisort (for the configurations with a solution)"],
    bounds="intensity given by arbitrary values at the nodes of 1-4 nodes per hemisphere (any function with the documented interface) or by a solution with NQuad 2, 4; "
           "up to 3 angles, 2 optical depths and 2 azimuths per call; every position of the angles except zero, including the computational angles",
    assumptions=["BarycentricInterpolator evaluates the Lagrange interpolation polynomial"],
)


def field(c, N, deg=None):
    """functions with the interface of u and u0: affine in tau and phi, any values at the nodes or polynomials of the cosine"""
    x, _ = c.quad_nodes(N)
    nodes = [x[i] for i in range(N)] + [-x[i] for i in range(N)]
    tables = []
    for k in range(4):
        if deg is None:
            tables.append([c.var("y%d_%d" % (k, i), -3, 3) for i in range(2 * N)])
        else:
            cf = [[c.var("c%d_%d_%d" % (k, h, j), -2, 2) for j in range(deg + 1)] for h in (0, 1)]
            tables.append((lambda cf: lambda mu, h: sum(cf[h][j] * mu**j for j in range(deg + 1)))(cf))
    if deg is not None:
        fns = tables
        tables = [[f(nodes[i], 0 if i < N else 1) for i in range(2 * N)] for f in fns]
    T = [c.A(t) for t in tables]
    taus = c.var("taubot", 1, 9)

    def shaped(f, tau, phi):
        tau = c.np.atleast_1d(tau)
        phi = c.np.atleast_1d(phi)
        return c.np.squeeze(f(tau[None, :, None], phi[None, None, :]))[()]

    def u(tau, phi, is_antiderivative_wrt_tau=False, return_Fourier_error=False, return_tau_arr=False):
        def f(t, ph):
            a, b, d, e = [v[:, None, None] for v in T]
            if is_antiderivative_wrt_tau:
                return a * t + b * t**2 / 2 + d * ph * t + e * ph * t
            return a + b * t + (d + e) * ph
        r = shaped(f, tau, phi)
        out = (r,)
        if return_Fourier_error:
            out += (T[3][0],)
        if return_tau_arr:
            out += (taus,)
        return out if len(out) > 1 else r

    def u0(tau, is_antiderivative_wrt_tau=False, return_tau_arr=False, _return_act_dscale_for_reclass=False):
        def f(t, ph):
            a, b = T[0][:, None, None], T[1][:, None, None]
            return (a * t + b * t**2 / 2 if is_antiderivative_wrt_tau else a + b * t) + 0 * ph
        r = shaped(f, tau, 0)
        return (r, taus) if return_tau_arr else r

    def exact(mu, t, ph, anti=False, h=0):
        a, b, d, e = [f(mu, h) for f in fns]
        if anti:
            return a * t + b * t**2 / 2 + d * ph * t + e * ph * t
        return a + b * t + (d + e) * ph

    def exact0(mu, t, anti=False, h=0):
        a, b = [f(mu, h) for f in fns[:2]]
        return a * t + b * t**2 / 2 if anti else a + b * t
    return u, u0, nodes, taus, T[3][0], (exact, exact0)


def times(c):
    t = [c.var("t%d" % i, 0, 5) for i in range(2)]
    ph = [c.var("ph%d" % i, 0, 6) for i in range(2)]
    return t, ph


def nodes(c, N):
    """at the computational angles the interpolated intensity is the intensity"""
    u, u0, mus, taus, _, _ = field(c, N)
    t, ph = times(c)
    f, g = c.sub.interpolate(u), c.sub.interpolate(u0)
    for anti in (False, True):
        name = "antiderivative of " * anti
        c.eq(name + "the interpolated intensity at the computational angles", f(c.A(mus), c.A(t), c.A(ph), anti), u(c.A(t), c.A(ph), anti))
        c.eq(name + "the interpolated zeroth mode at the computational angles", g(c.A(mus), c.A(t), anti), u0(c.A(t), anti))
        for i, m in enumerate(mus):
            c.eq(name + "the interpolated intensity at one computational angle", f(m, t[0], ph[0], anti), u(t[0], ph[0], anti)[i])
            c.eq(name + "the interpolated zeroth mode at one computational angle", g(m, t[0], anti), u0(t[0], anti)[i])
    order = mus[::-1]
    c.eq("the interpolated intensity at the computational angles in another order", f(c.A(order), t[1], c.A(ph)), u(t[1], c.A(ph))[::-1])


def polynomial(c, N):
    """a polynomial of degree below the number of nodes, another one in each hemisphere, is reproduced everywhere"""
    u, u0, _, _, _, (ex, ex0) = field(c, N, N - 1)
    t, ph = times(c)
    f, g = c.sub.interpolate(u), c.sub.interpolate(u0)
    up, dn = c.var("up", 0.001, 1), c.var("dn", 0.001, 1)
    for anti in (False, True):
        name = "antiderivative of " * anti
        for m, h, s in ((up, 0, "upward"), (-dn, 1, "downward"), (c.num(1), 0, "vertically upward"), (c.num(-1), 1, "vertically downward")):
            c.eq(name + "the interpolated intensity of a polynomial, " + s, f(m, t[0], ph[0], anti), ex(m, t[0], ph[0], anti, h), 1e-5)
            c.eq(name + "the interpolated zeroth mode of a polynomial, " + s, g(m, t[1], anti), ex0(m, t[1], anti, h), 1e-5)


def several(c, N):
    """several angles, depths and azimuths at once: shapes, and each value is that of a call of its own; inputs of any sign in any order"""
    u, u0, _, taus, err, _ = field(c, N)
    t, ph = times(c)
    f, g = c.sub.interpolate(u), c.sub.interpolate(u0)
    ms = [c.var("m%d" % i, -1, 1) for i in range(2)] + [c.num(-1)]
    for m in ms[:2]:
        c.assume(m * m >= (Fr(1, 10**6) if c.sym else 1e-6))
    v, w = f(c.A(ms), c.A(t), c.A(ph)), g(c.A(ms), c.A(t))
    c.same("shape of the interpolated intensity", tuple(c.np.shape(v)), (3, 2, 2))
    c.same("shape of the interpolated zeroth mode", tuple(c.np.shape(w)), (3, 2))
    for i, m in enumerate(ms):
        for j in range(2):
            for k in range(2):
                c.eq("the interpolated intensity at one of several points", v[i, j, k], f(m, t[j], ph[k]))
            c.eq("the interpolated zeroth mode at one of several points", w[i, j], g(m, t[j]))
    c.same("shape for one angle", tuple(c.np.shape(f(ms[0], c.A(t), c.A(ph)))), (2, 2))
    c.same("shape for one point", tuple(c.np.shape(f(ms[0], t[0], ph[0]))), ())
    c.eq("one angle", f(ms[0], c.A(t), c.A(ph)), v[0])
    c.eq("one depth", f(c.A(ms), t[1], c.A(ph)), v[:, 1])
    c.eq("one azimuth", f(c.A(ms), c.A(t), ph[0]), v[:, :, 0])
    # calls do not influence each other
    f(c.A([-1, 1]), t[1], ph[1], True)
    g(c.num(-1), t[1], True)
    c.eq("the same call later: intensity", f(c.A(ms), c.A(t), c.A(ph)), v)
    c.eq("the same call later: zeroth mode", g(c.A(ms), c.A(t)), w)


def flags(c, N):
    """the flags of the intensity functions pass through"""
    u, u0, _, taus, err, _ = field(c, N)
    t, ph = times(c)
    f, g = c.sub.interpolate(u), c.sub.interpolate(u0)
    ms = c.A([c.var("m0", 0.001, 1), -c.var("m1", 0.001, 1)])
    for anti in (False, True):
        name = "antiderivative of " * anti
        v, w = f(ms, t[0], ph[0], anti), g(ms, t[0], anti)
        r = f(ms, t[0], ph[0], is_antiderivative_wrt_tau=anti, return_Fourier_error=True)
        c.same("number of outputs with the Fourier error", len(r), 2)
        c.eq(name + "the interpolated intensity when the Fourier error is asked for", r[0], v)
        c.eq("Fourier error", r[1], err)
        r = f(ms, t[0], ph[0], is_antiderivative_wrt_tau=anti, return_tau_arr=True)
        c.same("number of outputs with the optical depths", len(r), 2)
        c.eq(name + "the interpolated intensity when the optical depths are asked for", r[0], v)
        c.eq("optical depths", r[1], taus)
        r = f(ms, t[0], ph[0], anti, True, True)
        c.same("number of outputs with both", len(r), 3)
        c.eq(name + "the interpolated intensity when both are asked for", r[0], v)
        c.eq("Fourier error of both", r[1], err)
        c.eq("optical depths of both", r[2], taus)
        r = g(ms, t[0], is_antiderivative_wrt_tau=anti, return_tau_arr=True)
        c.same("number of outputs of the zeroth mode with the optical depths", len(r), 2)
        c.eq(name + "the interpolated zeroth mode when the optical depths are asked for", r[0], w)
        c.eq("optical depths of the zeroth mode", r[1], taus)


def solution(c, l=0, **kw):
    """interpolation of a solution: nodes, and the Lagrange polynomial of its values elsewhere"""
    p = solve(make(c, **kw))
    top, s = inside(c, p, l)
    t, ph = top + s, c.var("phi", 0, 6)
    fs = []
    if p.u is not None:
        fs.append(("intensity", lambda m, *a: c.sub.interpolate(p.u)(m, t, ph, *a), lambda *a: p.u(t, ph, *a)))
    fs.append(("zeroth mode", lambda m, *a: c.sub.interpolate(p.u0)(m, t, *a), lambda *a: p.u0(t, *a)))
    up, dn = c.var("up", 0.001, 1), c.var("dn", 0.001, 1)
    for name, f, ref in fs:
        for a in ((), (True,)):
            v = ref(*a)
            lab = "antiderivative of " * len(a) + "the interpolated " + name
            c.eq(lab + " at the computational angles", f(c.A(p.mu), *a), v)
            for m, off, sgn in ((up, 0, 1), (dn, p.N, -1)):
                e = 0
                for i in range(p.N):
                    w = 1
                    for j in range(p.N):
                        if j != i:
                            w = w * (m - p.mu[j]) / (p.mu[i] - p.mu[j])
                    e = e + w * v[off + i]
                c.eq(lab + " at any other angle", f(sgn * m, *a), e, 1e-5)
    r = c.sub.interpolate(p.u0)(up, t, return_tau_arr=True)
    c.eq("optical depths", r[1], c.A(p.bots))
    if p.u is not None:
        r = c.sub.interpolate(p.u)(up, t, ph, return_tau_arr=True)
        c.eq("optical depths", r[1], c.A(p.bots))


def jobs(tier):
    J = []

    def add(fn, weight=1, cfg=None, **kw):
        J.append(dict(fn=fn, params=kw, weight=weight, cfg=cfg or {}))
    for N in (1, 2, 3, 4):
        add("nodes", N=N)
        add("polynomial", N=N, cfg=dict(cut=False))
        add("flags", N=N)
    for N in (1, 2, 3):
        add("several", N=N, weight=2)
    S = "solution"
    k = dict(lazy_where=True)
    add(S, N=1, L=2, l=1, NF=2, f="all", iso=1, bc="scalar", cfg=k)
    add(S, N=2, L=1, NF=2, f="all", iso=1, cfg=k, weight=2)
    add(S, N=2, L=2, l=0, NF=1, beam=False, iso=2, bdrf=["f"], cfg=k, weight=2)
    add(S, N=1, L=2, l=1, NF=1, f="all", NT=True, NLeg_all=3, cfg=k)
    add("solution", N=3, L=2, NF=3, NLeg=4, weight=1)
    add("solution", N=2, L=3, l=1, NF=4, f="all", iso=2, bc="matrix", bdrf=["f", "s"], weight=2)
    add("solution", N=2, L=2, l=1, NF=2, f="all", NT=True, NLeg_all=6, weight=7)
    if tier == "thorough":
        for N in (5, 6):
            add("nodes", N=N)
            add("polynomial", N=N, weight=2, cfg=dict(cut=False))
            add("flags", N=N)
        add("several", N=4, weight=2)
        add(S, N=2, L=3, l=1, NF=4, f="all", iso=2, bc="matrix", bdrf=["f", "s"], cfg=k, weight=6)
        add(S, N=3, L=1, NF=2, NLeg=4, cfg=k, weight=6)
        add(S, N=2, L=2, l=1, NF=2, f="all", NT=True, NLeg_all=6, cfg=k, weight=6)
    return J
