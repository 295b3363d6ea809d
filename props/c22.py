"""C22: the helpers that build sources, boundary values and reflectances give what the solver expects."""
from props.common import *
from props.c09 import everything, same, point

INFO = dict(
    functions=["subroutines.Planck", "blackbody_contrib_to_BCs", "generate_s_poly_coeffs", "linear_spline_coefficients", "affine_transform_poly_coeffs",
               "generate_emissivity_from_BDRF", "cache_BDRF_Fourier_modes", "pydisort (for the reflectances kept)"],
    bounds="temperatures 0 or 150-350 K; wavenumbers up to 3000; 1-4 layers; polynomials of degree up to 6; 1-4 nodes per hemisphere; 1-4 reflectance modes; with one node per hemisphere and a fixed beam, the beam is not at 1/2",
    assumptions=["quad_vec returns the integral of its argument (equal integrands and bounds have equal integrals)"],
)


def planck(c, T, wn):
    h, v, k = c.consts()
    e = c.exp(-100 * h * v * wn / (k * T))
    return 2 * 10**8 * h * v**2 * wn**3 * e / (1 - e)


def temps(c, n, zero=()):
    return [c.num(0) if i in zero else c.var("T%d" % i, 150, 350) for i in range(n)]


def band(c):
    lo = c.var("lo", 300, 2000)
    hi = c.var("hi", 310, 3000)
    c.assume(hi - lo >= 5)
    return lo, hi


def integral(c, T, lo, hi):
    if T is None:
        return c.num(0)
    return c.integral(lambda x: planck(c, T, x), lo, hi)


def emission(c, n, zero=()):
    """Planck function and its integral, point by point"""
    T = temps(c, n, zero)
    wn = c.var("wn", 300, 3000)
    lo, hi = band(c)
    S = c.sub
    tol = 1e-6
    B, E = S.Planck(c.A(T), wn), S.blackbody_contrib_to_BCs(c.A(T), lo, hi)
    sh = (n,) if n > 1 else ()
    c.same("shape of the Planck function", tuple(c.np.shape(B)), sh)
    c.same("shape of the emission of the boundaries", tuple(c.np.shape(E)), sh)
    B, E = c.np.atleast_1d(B), c.np.atleast_1d(E)
    for i, t in enumerate(T):
        z = i in zero
        c.eq("Planck function", B[i], c.num(0) if z else planck(c, t, wn), tol)
        c.eq("emission in a band", E[i], integral(c, None if z else t, lo, hi), tol)
        b1, e1 = S.Planck(t, wn), S.blackbody_contrib_to_BCs(t, lo, hi)
        c.same("shapes for one temperature", (tuple(c.np.shape(b1)), tuple(c.np.shape(e1))), ((), ()))
        c.eq("Planck function of one temperature", b1, B[i], tol)
        c.eq("emission of one temperature", e1, E[i], tol)


def profile(c, L, zero=(), scalar=False):
    """thermal source of a layer: linear in optical depth, with the emission of the temperatures at its ends"""
    T = temps(c, L + 1, zero)
    lo, hi = band(c)
    d = [c.var("d%d" % i, 0.05, 4) for i in range(L)]
    tau, s = [c.num(0)], 0
    for x in d:
        s = s + x
        tau.append(s)
    r = c.sub.generate_s_poly_coeffs(tau[1] if scalar else c.A(tau[1:]), c.A(T), lo, hi)
    c.same("shape of the source coefficients", tuple(c.np.shape(r)), (L, 2))
    for l in range(L):
        for k, w in ((l, "top"), (l + 1, "bottom")):
            c.eq("source at the %s of a layer" % w, r[l, 0] + r[l, 1] * tau[k], integral(c, None if k in zero else T[k], lo, hi))


def spline(c, n):
    x0 = c.var("x0", -5, 5)
    xs = [x0]
    for i in range(1, n):
        xs.append(xs[-1] + c.var("h%d" % i, 0.01, 4))
    ys = [c.var("y%d" % i, -5, 5) for i in range(n)]
    for flag in ((), (False,)):
        r = c.sub.linear_spline_coefficients(c.A(xs), c.A(ys), *flag)
        c.same("shape of the spline coefficients", tuple(c.np.shape(r)), (n - 1, 2))
        for i in range(n - 1):
            c.eq("spline at the left end of a segment", r[i, 0] + r[i, 1] * xs[i], ys[i])
            c.eq("spline at the right end of a segment", r[i, 0] + r[i, 1] * xs[i + 1], ys[i + 1])


def transformed(c, rows, n):
    """D(a x + b) = C(x)"""
    C = [[c.var("c%d_%d" % (i, j), -3, 3) for j in range(n)] for i in range(rows)]
    a = [c.var("a%d" % i, -3, 3) for i in range(rows)]
    for v in a:
        c.assume(v * v >= (Fr(1, 100) if c.sym else 0.01))
    b = [c.var("b%d" % i, -3, 3) for i in range(rows)]
    Dm = c.sub.affine_transform_poly_coeffs(c.A(C), c.A(a), c.A(b))
    c.same("shape of the transformed coefficients", tuple(c.np.shape(Dm)), (rows, n))
    x = c.var("x", -2, 2)
    for i in range(rows):
        u = v = 0
        for j in range(n):
            u = u + Dm[i, j] * (a[i] * x + b[i])**j
            v = v + C[i][j] * x**j
        c.eq("polynomial after the transformation", u, v, 1e-4)


def emissivity(c, N):
    rho = c.var("rho", 0, 1)
    c.eq("emissivity of a Lambertian surface", c.sub.generate_emissivity_from_BDRF(N, rho), 1 - rho)
    x, w = c.quad_nodes(N)
    e = c.sub.generate_emissivity_from_BDRF(N, c.bdrf(0))
    c.same("shape of the emissivity", tuple(c.np.shape(e)), (N,))
    k = c.sub.generate_emissivity_from_BDRF(N, lambda mu, nmup: rho + c.np.zeros((len(mu), len(nmup))))
    for i in range(N):
        s = lam = 0
        for j in range(N):
            s = s + 2 * w[j] * x[j] * c.bdrf1(0, x[i], x[j])
            lam = lam + 2 * w[j] * x[j]
        c.eq("emissivity plus directional reflectivity", e[i] + s, c.num(1))
        c.eq("emissivity of a constant function", k[i], 1 - rho * lam)


def cached(c, l=0, mu=False, **kw):
    """the reflectances kept by the cache give the same solution"""
    p = make(c, **kw)
    t, ph = point(c, p, l)
    if p.N == 1 and mu:      # the two columns kept coincide at mu0 = 1/2
        c.assume((p.mu0 - (Fr(1, 2) if c.sym else 0.5))**2 >= (Fr(1, 10**6) if c.sym else 1e-6))
    a = c.pd(**args(p))
    cache = c.sub.cache_BDRF_Fourier_modes(p.N, list(p.bdrf), *((p.mu0,) if mu else ()))
    c.same("number of modes kept", len(cache), len(p.bdrf))
    b = c.pd(**args(p, BDRF_Fourier_modes=cache))
    same(c, "solution with reflectances kept", everything(c, p, a, t, ph), everything(c, p, b, t, ph))
    # the cache is used "repeatedly"
    d = c.pd(**args(p, BDRF_Fourier_modes=cache))
    same(c, "second solution with reflectances kept", everything(c, p, a, t, ph)[:7], everything(c, p, d, t, ph)[:7])
    if not mu:      # another beam may follow
        m = c.var("mu_other", 0.05, 1)
        over = dict(mu0=m)
        a, b = c.pd(**args(p, **over)), c.pd(**args(p, BDRF_Fourier_modes=cache, **over))
        same(c, "solution with reflectances kept and another beam", everything(c, p, a, t, ph)[:7], everything(c, p, b, t, ph)[:7])


def jobs(tier):
    J = []

    def add(fn, weight=1, cfg=None, **kw):
        J.append(dict(fn=fn, params=kw, weight=weight, cfg=cfg or {}))
    add("emission", n=1)
    add("emission", n=3)
    add("emission", n=3, zero=[1])
    add("emission", n=2, zero=[0, 1])
    add("emission", n=1, zero=[0])
    for L in (1, 2, 4):
        add("profile", L=L)
    add("profile", L=1, scalar=True)
    add("profile", L=3, zero=[0])
    add("profile", L=3, zero=[1, 3])
    for n in (2, 3, 5):
        add("spline", n=n)
    free = dict(cut=False)
    for r, n in ((1, 1), (2, 2), (3, 3), (2, 4), (1, 5), (2, 6), (1, 7)):
        add("transformed", rows=r, n=n, cfg=free)
    for N in (1, 2, 3, 4):
        add("emissivity", N=N)
    k = dict(lazy_where=True)
    add("cached", N=1, L=1, NF=2, bdrf=["s", "f"], iso=1, cfg=k)
    add("cached", N=1, L=1, NF=2, bdrf=["f", "f"], mu=True, cfg=k)
    add("cached", N=1, L=2, l=1, NF=2, bdrf=["f", "s"], mu=True, f="all", cfg=k)
    add("cached", N=2, L=1, NF=2, bdrf=["f", "s"], cfg=k, weight=2)
    add("cached", N=2, L=1, NF=3, bdrf=["s", "f", "f"], mu=True, cfg=k, weight=2)
    add("cached", N=2, L=2, l=0, NF=2, bdrf=["f", "f"], mu=True, bc="matrix", cfg=k, weight=2)
    add("cached", N=3, L=2, NF=3, bdrf=["f", "f"], mu=True, weight=1)
    add("cached", N=2, L=3, l=1, NF=4, bdrf=["f", "s", "f", "f"], bc="matrix", f="all", banded=3, weight=5)
    if tier == "thorough":
        for r, n in ((3, 5), (2, 7), (1, 9)):
            add("transformed", rows=r, n=n, cfg=free)
        add("profile", L=6)
        add("spline", n=9)
        for N in (6, 8, 16):
            add("emissivity", N=N)
        add("cached", N=2, L=3, l=1, NF=4, bdrf=["f", "s", "f", "f"], bc="matrix", f="all", banded=3, cfg=k, weight=6)
        add("cached", N=2, L=3, l=2, NF=4, bdrf=["f", "s", "f", "f"], mu=True, iso=2, banded=3, cfg=k, weight=6)
        add("cached", N=3, L=1, NF=2, NLeg=4, bdrf=["f", "f"], mu=True, cfg=k, weight=6)
    return J
