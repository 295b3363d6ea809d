"""C21: quadrature rules, scattering angle, finite differences and banded storage are exact where they are meant to be."""
from props.common import *

INFO = dict(
    functions=["subroutines.Gauss_Legendre_quad", "Clenshaw_Curtis_quad", "transform_interval", "transform_weights", "calculate_nu", "generate_FD_mat",
               "to_diag_ordered_form", "prepend", "atleast_2d_append"],
    bounds="any interval of length 0.01 or more between -50 and 50; Gauss-Legendre exactness for 1-5 nodes, affine form for up to 16; Clenshaw-Curtis with 3, 5, 7, 9, 11, 13 nodes; "
           "2 polar and 2 azimuthal angles on each side; finite differences on 3-9 points; matrices up to 8x8 with every bandwidth",
    assumptions=["leggauss returns the exact nodes and weights (closed forms for up to 5 nodes)", "idct of type 1 evaluates its defining sum"],
)


def interval(c):
    a, b = c.var("a", -50, 50), c.var("b", -50, 50)
    c.assume(b - a >= (Fr(1, 100) if c.sym else 0.01))
    return a, b


def moments(c, x, w, a, b, deg, what):
    """the rule integrates ((t - a)/(b - a))^k over [a, b] for every k up to deg"""
    n = len(x)
    y = [(x[i] - a) / (b - a) for i in range(n)]
    for k in range(deg + 1):
        s = 0
        for i in range(n):
            s = s + w[i] * y[i]**k
        one = Fr(1, k + 1) if c.sym else 1.0 / (k + 1)
        c.eq("%s: integral of degree %d" % (what, k), s / (b - a), c.num(one))


def rule(c, kind, n, given=True):
    if given:
        a, b = interval(c)
        x, w = getattr(c.sub, kind)(n, a, b)
    else:
        a, b = c.num(0), (c.num(1) if kind[0] == "G" else 2 * c.pi)
        x, w = getattr(c.sub, kind)(n)
    what = "Gauss-Legendre rule" if kind[0] == "G" else "Clenshaw-Curtis rule"
    c.same("number of nodes", (tuple(c.np.shape(x)), tuple(c.np.shape(w))), ((n,), (n,)))
    moments(c, x, w, a, b, 2 * n - 1 if kind[0] == "G" else n - 1, what)
    for i in range(n):
        c.check(what + ": nodes lie in the interval", (x[i] >= a - (0 if c.sym else 1e-9)) & (x[i] <= b + (0 if c.sym else 1e-9)))
        c.check(what + ": weights are positive", w[i] > 0)
        if i:
            c.check(what + ": nodes ascend", x[i] > x[i - 1])
        c.eq(what + ": symmetry of the nodes", x[i] + x[n - 1 - i], a + b)
        c.eq(what + ": symmetry of the weights", w[i], w[n - 1 - i])


def affine(c, n):
    """any number of nodes: the rule on [a, b] is the library's rule moved there"""
    a, b = interval(c)
    x, w = c.sub.Gauss_Legendre_quad(n, a, b)
    t, v = c.quad_nodes_raw(n)
    c.eq("Gauss-Legendre nodes on an interval", x, a + (b - a) * (t + 1) / 2)
    c.eq("Gauss-Legendre weights on an interval", w, v * (b - a) / 2)
    x, w = c.sub.Gauss_Legendre_quad(n)
    c.eq("Gauss-Legendre nodes on [0, 1]", x, (t + 1) / 2)
    c.eq("Gauss-Legendre weights on [0, 1]", w, v / 2)


def transforms(c):
    a, b = interval(c)
    e, f = c.var("e", -50, 50), c.var("f", -50, 50)
    y = [c.var("y%d" % i, -9, 9) for i in range(3)]
    r = c.sub.transform_interval(c.A(y), e, f, a, b)
    for i in range(3):
        c.eq("moved points", (r[i] - e) * (b - a), (f - e) * (y[i] - a), 1e-5)
    r = c.sub.transform_weights(c.A(y), e, f, a, b)
    for i in range(3):
        c.eq("moved weights", r[i] * (b - a), y[i] * (f - e), 1e-5)
    c.eq("ends of the interval", c.sub.transform_interval(c.A([a, b]), e, f, a, b), c.A([e, f]), 1e-5)
    v = c.var("v", -9, 9)
    c.eq("prepended value", c.sub.prepend(c.A(y), 3, v), c.A([v] + y))
    p, q, r = c.sub.atleast_2d_append(v, c.A(y), c.A([y, y]))
    c.same("shapes with axes appended", [tuple(c.np.shape(z)) for z in (p, q, r)], [(1, 1), (3, 1), (2, 3)])
    c.eq("a number with two axes", p[0, 0], v)
    c.eq("a vector with two axes", q[:, 0], c.A(y))
    c.eq("a matrix with two axes", r, c.A([y, y]))
    c.eq("a single argument with two axes", c.sub.atleast_2d_append(c.A(y))[:, 0], c.A(y))


def scattering_angle(c):
    mu = [c.var("mu%d" % i, -1, 1) for i in range(2)]
    mp = [c.var("mp%d" % i, -1, 1) for i in range(3)]
    ph = [c.var("ph%d" % i, 0, 7) for i in range(2)]
    pp = [c.var("pp%d" % i, 0, 7) for i in range(2)]
    nu = c.sub.calculate_nu(c.A(mu), c.A(ph), c.A(mp), c.A(pp))
    c.same("axes of the cosines of the scattering angle", tuple(c.np.shape(nu)), (2, 2, 3, 2))
    sn = lambda m: c.sqrt(1 - m * m)
    for i, m in enumerate(mu):
        for j, f in enumerate(ph):
            for k, n in enumerate(mp):
                for l, g in enumerate(pp):
                    # product of the two direction vectors
                    dot = m * n + sn(m) * sn(n) * c.cos(g - f)
                    c.eq("cosine of the scattering angle", nu[i, j, k, l], dot)
    m, n, f, g = mu[0], mp[0], ph[0], pp[0]
    v = c.sub.calculate_nu(m, f, n, g)
    c.same("shape for one pair of directions", tuple(c.np.shape(v)), ())
    c.eq("one pair of directions", v, nu[0, 0, 0, 0])
    c.eq("exchange of the directions", c.sub.calculate_nu(n, g, m, f), v)
    c.eq("both directions reversed", c.sub.calculate_nu(-m, f + c.pi, -n, g + c.pi), v)
    c.eq("a direction with itself", c.sub.calculate_nu(m, f, m, f), c.num(1))
    c.eq("a direction with its opposite", c.sub.calculate_nu(m, f, -m, f + c.pi), c.num(-1))
    t = c.var("turn", -3, 3)
    c.eq("both azimuths turned", c.sub.calculate_nu(m, f + t, n, g + t), v)
    tiny = 0 if c.sym else 1e-12
    c.check("the cosine is at most one in magnitude", (v <= 1 + tiny) & (v >= -1 - tiny))


def differences(c, n):
    """second order: exact for quadratic functions at every grid point"""
    a, b = c.var("a", -5, 5), c.var("b", -5, 5)
    c.assume(b - a >= (Fr(1, 100) if c.sym else 0.01))
    t, M = c.sub.generate_FD_mat(n, a, b)
    c.same("number of grid points", tuple(c.np.shape(t)), (n,))
    c.same("size of the matrix", tuple(M.shape), (n, n))
    k = [c.var("k%d" % i, -2, 2) for i in range(3)]
    f = [k[0] + k[1] * t[i] + k[2] * t[i]**2 for i in range(n)]
    d = M @ c.A(f)
    c.same("shape of the derivative", tuple(c.np.shape(d)), (n,))
    for i in range(n):
        c.eq("grid", t[i] * (n - 1), a * (n - 1 - i) + b * i)
        c.eq("derivative of a quadratic function" + (" at an end" if i in (0, n - 1) else ""), d[i] * (b - a)**2, (k[1] + 2 * k[2] * t[i]) * (b - a)**2, 1e-4)
    D = M.toarray()
    for i in range(1, n - 1):
        for j in range(n):
            if abs(i - j) != 1:
                c.eq("central differences use the neighbours only", c.num(1) * D[i, j], c.num(0))


def banded(c, n, nl, nu):
    """entry (i, j) within the bands is stored at (nu + i - j, j)"""
    A = [[c.var("a%d_%d" % (i, j), 1, 9) for j in range(n)] for i in range(n)]
    ab = c.sub.to_diag_ordered_form(c.A(A), nu, nl)
    c.same("shape of the banded form", tuple(c.np.shape(ab)), (nl + nu + 1, n))
    for i in range(n):
        for j in range(n):
            if -nu <= i - j <= nl:
                c.eq("stored entry", ab[nu + i - j, j], A[i][j])


def jobs(tier):
    J = []

    def add(fn, weight=1, cfg=None, **kw):
        J.append(dict(fn=fn, params=kw, weight=weight, cfg=cfg or {}))
    ex = dict(cut=False, shim=dict(nodes="exact"))
    G, C = "Gauss_Legendre_quad", "Clenshaw_Curtis_quad"
    for n in (1, 2, 3, 4, 5):
        add("rule", kind=G, n=n, cfg=ex, weight=n)
        add("rule", kind=G, n=n, given=False, cfg=ex, weight=n)
    for n in (3, 5, 7, 9, 11, 13):
        add("rule", kind=C, n=n, cfg=dict(cut=False), weight=n)
    for n in (3, 7):
        add("rule", kind=C, n=n, given=False, cfg=dict(cut=False))
    for n in (2, 6, 7, 8, 12, 16):
        add("affine", n=n)
    add("transforms", cfg=dict(cut=False))
    add("scattering_angle", cfg=dict(cut=False))
    for n in (3, 4, 5, 6, 9):
        add("differences", n=n, cfg=dict(cut=False))
    for n, l, u in ((1, 0, 0), (4, 1, 1), (4, 3, 3), (5, 2, 1), (5, 0, 3), (6, 5, 5), (6, 2, 2), (8, 5, 5), (8, 3, 6)):
        add("banded", n=n, nl=l, nu=u)
    if tier == "thorough":
        for n in (3, 16, 24, 32):
            add("affine", n=n)
        for n in range(2, 9):
            for l in range(n):
                for u in range(n):
                    add("banded", n=n, nl=l, nu=u)
        for n in (7, 8, 12, 20):
            add("differences", n=n, cfg=dict(cut=False))
    return J
