"""C12: inputs outside the documented domain are refused with an exception, inputs inside it are accepted."""
from math import pi as PI_
from props.common import *

INFO = dict(
    functions=["pydisort (input checks)", "_assemble_intensity_and_fluxes (range checks of u, u0, flux_up, flux_down)",
               "subroutines.interpolate, Clenshaw_Curtis_quad, linear_spline_coefficients, affine_transform_poly_coeffs, generate_s_poly_coeffs (checks)"],
    bounds="NQuad 2; 1-2 layers; every real parameter from outside below to outside above its documented interval; shapes as listed",
)

OFF = dict(beam=False)


def accepted(c, f, valid, label):
    """f runs without an exception exactly if the inputs are valid, and refuses with ValueError"""
    r = c.raises(f)
    if r is None:
        c.same("accepted only if valid: " + label, c.holds(valid), True)
    else:
        c.same("refused only if invalid: " + label, c.holds(valid), False)
        c.same("refused with ValueError: " + label, r, "ValueError")


def every(c, *conds):
    """conjunction of conditions"""
    if c.sym:
        from vp import sym
        return sym.s_and([sym._b(x) for x in conds])
    return all(bool(x) for x in conds)


def values(c, L=1, what=(), n_leg=2, iso=0):
    """all real parameters range over and beyond their intervals (those named in `what`)"""
    N = 1
    w = set(what)
    d = [c.var("d%d" % l, -1, 4) if "d" in w else c.num(0.3 + 0.4 * l) if not c.sym else c.num(Fr(3 + 4 * l, 10)) for l in range(L)]
    om = [c.var("w%d" % l, -0.5, 1.5) if "w" in w else c.num(0.5) for l in range(L)]
    g = [[c.num(1)] + [c.var("g%d_%d" % (l, k), -1.5, 1.5) if "g" in w else c.num(0.25) for k in range(1, n_leg)] for l in range(L)]
    f = [c.var("f%d" % l, -0.5, 1.5) if "f" in w else c.num(0) for l in range(L)]
    mu0 = c.var("mu0", -0.5, 1.5) if "mu0" in w else c.num(0.625)
    I0 = c.var("I0", -1, 2) if "I0" in w else c.num(1)
    phi0 = c.var("phi0", -1, 7, special=[2 * PI_]) if "phi0" in w else c.num(1)
    tau, t = [], 0
    for x in d:
        t = t + x
        tau.append(t)
    conds = [x > 0 for x in d] + [x >= 0 for x in om] + [x < 1 for x in om] + [x > -1 for r in g for x in r[1:]] + [x < 1 for r in g for x in r[1:]]
    conds += [x >= 0 for x in f] + [x < 1 for x in f] + [I0 >= 0]
    beam = [mu0 > 0, mu0 <= 1, phi0 >= 0, phi0 < 2 * c.pi]
    if "w" in w and "f" in w:
        for x in om:
            c.assume((x - 1) * (x - 1) >= 0)
    if "f" in w or "w" in w:
        for a, b in zip(om, f):     # thresholds of the solver itself, not of its checks
            c.assume((a * b - 1) * (a * b - 1) > 1e-6)

    def run():
        return c.pd(c.A(tau), c.A(om), 2 * N, c.A(g), mu0, I0, phi0, f_arr=c.A(f), NLeg=2, NFourier=1,
                    **(dict(s_poly_coeffs=c.A([[1] * iso] * L)) if iso else {}))
    if "I0" in w:
        r = c.raises(run)
        ok = r is None
        if c.holds(I0 > 0):
            valid = every(c, *(conds + beam))
        else:
            valid = every(c, *conds)
        c.same("values are accepted exactly if valid", ok, c.holds(valid))
        if not ok:
            c.same("values are refused with ValueError", r, "ValueError")
    else:
        accepted(c, run, every(c, *(conds + beam)), "values")


def coincide(c):
    """with single-scattering corrections the beam must not coincide with a computational angle"""
    x, w = c.quad_nodes(1)
    p = make(c, N=1, L=1, NLeg_all=3, f="all", NT=False)
    mu0 = c.num(0.5)

    def run(m):
        a = args(p)
        a["mu0"] = m
        a["NT_cor"] = True
        return c.pd(**a)
    accepted(c, lambda: run(x[0]), every(c, p.mu0 < 0), "beam on a computational angle")
    c.assume((p.mu0 - x[0])**2 >= (Fr(1, 10**4) if c.sym else 1e-4))
    accepted(c, lambda: run(p.mu0), every(c, p.mu0 > 0), "beam off the computational angles")


BAD = {     # name: (overrides, valid)
    "odd number of streams": (dict(NQuad=3), False),
    "no streams": (dict(NQuad=0), False),
    "more coefficients than streams": (dict(NQuad=2, NLeg=3, NFourier=1, Leg=3), False),
    "more coefficients than given": (dict(NQuad=4, NLeg=3, NFourier=1), False),
    "no coefficients": (dict(NLeg=0, NFourier=0), False),
    "no modes": (dict(NFourier=0), False),
    "more modes than coefficients": (dict(NQuad=4, NLeg=2, NFourier=3), False),
    "default modes": (dict(NFourier=None), True),
    "default coefficients": (dict(NLeg=None, NFourier=None), True),
    "fluxes only ignores the number of modes": (dict(NFourier=5, only_flux=True), True),
    "too few albedos": (dict(omega=-1), False),
    "too many albedos": (dict(omega=1), False),
    "too few rows of coefficients": (dict(Leg_rows=-1), False),
    "too many rows of coefficients": (dict(Leg_rows=1), False),
    "too few scaling fractions": (dict(f=-1), False),
    "too many scaling fractions": (dict(f=1), False),
    "scaling fractions": (dict(f=0), True),
    "too few sources": (dict(s=-1), False),
    "too many sources": (dict(s=1), False),
    "sources": (dict(s=0), True),
    "bottom value of wrong length": (dict(b_pos=(2,)), False),
    "bottom value with too many modes": (dict(b_pos=(1, 3)), False),
    "bottom value with transposed modes": (dict(b_pos=(2, 1)), False),
    "top value of wrong length": (dict(b_neg=(2,)), False),
    "top value with too many modes": (dict(b_neg=(1, 3)), False),
    "top value with transposed modes": (dict(b_neg=(2, 1)), False),
    "boundary values as vectors": (dict(b_pos=(1,), b_neg=(1,)), True),
    "boundary values as matrices": (dict(b_pos=(1, 2), b_neg=(1, 2)), True),
    "boundary values as numbers": (dict(b_pos=(), b_neg=()), True),
    "banded solver from two layers": (dict(use_banded_solver_NLayers=2), False),
    "banded solver from three layers": (dict(use_banded_solver_NLayers=3), True),
}


def shapes(c, name, L=3):
    over, valid = dict(BAD[name][0]), BAD[name][1]
    nleg = over.pop("Leg", 2)
    pos = lambda n, k, lo, hi: [c.var("%s%d" % (n, i), lo, hi) for i in range(k)]
    d = pos("d", L, 0.1, 3)
    tau, t = [], 0
    for x in d:
        t = t + x
        tau.append(t)
    om = pos("w", L + over.pop("omega", 0), 0.05, 0.9)
    g = [[1] + pos("g%d_" % l, nleg - 1, 0.02, 0.8) for l in range(L + over.pop("Leg_rows", 0))]
    kw = dict(NLeg=2, NFourier=2)
    if "f" in over:
        kw["f_arr"] = c.A(pos("f", L + over.pop("f"), 0.01, 0.4))
    if "s" in over:
        kw["s_poly_coeffs"] = c.A([[x] for x in pos("s", L + over.pop("s"), 0.1, 2)])
    for b in ("b_pos", "b_neg"):
        if b in over:
            sh = over.pop(b)
            n = 1
            for k in sh:
                n *= k
            v = pos(b, n, 0.1, 4)
            kw[b] = c.A(v).reshape(sh) if sh else v[0]
    NQ = over.pop("NQuad", 2)
    kw.update(over)
    r = c.raises(lambda: c.pd(c.A(tau), c.A(om), NQ, c.A(g), c.var("mu0", 0.05, 1), c.var("I0", 0.1, 5), c.var("phi0", 0, 6), **kw))
    c.same(name, r is None, valid)
    if r is not None:
        c.same("refused with ValueError: " + name, r, "ValueError")


def depth(c, vec=0, **kw):
    """output functions refuse optical depths outside the atmosphere"""
    p = solve(make(c, **kw))
    t = c.var("t", -3, 15)
    if vec:
        T = c.A({1: [p.bots[0], t], 2: [t, p.bots[-1]], 3: [p.bots[0], t, p.bots[-1]], 4: [t, 0]}[vec])
    else:
        T = t
    inside_ = every(c, t >= 0, t <= p.tau_bot)
    for anti in (False, True):
        fs = [("zeroth mode", lambda: p.u0(T, anti)), ("upward flux", lambda: p.Fp(T, anti)), ("downward flux", lambda: p.Fm(T, anti))]
        if p.u is not None:
            fs.append(("intensity", lambda: p.u(T, 0, anti)))
        for name, f in fs:
            accepted(c, f, inside_, name)


def angle(c):
    p = solve(make(c, N=1, L=1, NF=1, beam=False, bc="scalar"))
    fu, f0 = c.sub.interpolate(p.u), c.sub.interpolate(p.u0)
    m = c.var("m", -2, 2)
    ok = every(c, m >= -1, m <= 1)
    t = c.num(0.01)
    for lab, M in (("one angle", m), ("several angles", c.A([0.5, m])), ("angles in another order", c.A([m, 0.5, -0.25]))):
        accepted(c, lambda: fu(M, t, 0), ok, "interpolated intensity at " + lab)
        accepted(c, lambda: f0(M, t), ok, "interpolated zeroth mode at " + lab)


def helpers(c):
    x = [c.var("x%d" % i, -3, 3) for i in range(3)]
    y = [c.var("y%d" % i, -3, 3) for i in range(3)]
    accepted(c, lambda: c.sub.linear_spline_coefficients(c.A(x), c.A(y)), every(c, x[0] < x[1], x[1] < x[2]), "knots in ascending order")


def helpers2(c):
    y = [c.var("y%d" % i, -3, 3) for i in range(3)]
    c.same("knots and values of different number", c.raises(c.sub.linear_spline_coefficients, c.A([0, 1, 2]), c.A(y[:2])), "ValueError")
    c.same("a single knot", c.raises(c.sub.linear_spline_coefficients, c.A([0]), c.A(y[:1])), "ValueError")
    a = [c.var("a%d" % i, -1, 1) for i in range(2)]
    b = [c.var("b%d" % i, -1, 1) for i in range(2)]
    P = c.A([[y[0], y[1]], [y[1], y[2]]])
    r = c.raises(lambda: c.sub.affine_transform_poly_coeffs(P, c.A(a), c.A(b)))
    if r is None:
        c.check("scale factors are not zero", every(c, a[0] * a[0] > 0, a[1] * a[1] > 0))
    else:
        c.same("zero scale factors are refused", c.holds(every(c, a[0] * a[1] * a[0] * a[1] > 0)), False)
    for n in (-1, 0, 1, 2, 4, 6, 3, 5):
        c.same("Clenshaw-Curtis nodes", c.raises(c.sub.Clenshaw_Curtis_quad, n), None if n in (3, 5) else "ValueError")
    T = [c.var("T%d" % i, 200, 300) for i in range(4)]
    for n in (2, 4):
        c.same("temperatures for other than all boundaries", c.raises(c.sub.generate_s_poly_coeffs, c.A([0.5, 1]), c.A(T[:n]), 100, 200), "ValueError")
    c.same("temperatures for all boundaries", c.raises(c.sub.generate_s_poly_coeffs, c.A([0.5, 1]), c.A(T[:3]), 100, 200), None)


def jobs(tier):
    J = []

    def add(fn, weight=1, **kw):
        J.append(dict(fn=fn, params=kw, weight=weight, cfg=dict(max_paths=120, validate=1)))
    add("values", L=1, what=["d"])
    add("values", L=2, what=["d"])
    add("values", L=1, what=["w"])
    add("values", L=2, what=["w"])
    add("values", L=2, what=["g"])
    add("values", L=1, what=["g"], n_leg=4)
    add("values", L=2, what=["f"])
    add("values", L=1, what=["mu0", "phi0"])
    add("values", L=1, what=["I0", "mu0", "phi0"])
    add("values", L=1, what=["d", "w", "g", "mu0", "phi0"])
    add("coincide")
    for k in BAD:
        add("shapes", name=k)
    add("depth", N=1, L=1, NF=1)
    add("depth", N=1, L=2, NF=1, iso=1, f="all", weight=2)
    add("depth", N=1, L=2, NF=1, f="all", NT=True, NLeg_all=3, weight=2)
    add("depth", N=1, L=2, NF=1, vec=1, weight=2)
    add("depth", N=1, L=2, vec=2, only_flux=True, weight=2)
    add("depth", N=1, L=2, NF=1, vec=3, iso=2, beam=False, weight=2)
    add("depth", N=1, L=1, NF=1, vec=4, f="all", NT=True, NLeg_all=3, weight=2)
    add("angle")
    add("helpers")
    add("helpers2")
    add("values", L=2, what=["d", "w", "g", "f", "mu0", "phi0"], weight=2)
    add("values", L=3, what=["d", "w", "g"], weight=2)
    add("values", L=2, what=["d", "w", "g", "I0", "mu0", "phi0"], iso=1, weight=2)
    add("depth", N=2, L=3, NF=2, iso=2, f="all", vec=1, weight=3)
    if tier == "thorough":
        add("values", L=3, what=["d", "w", "g"], weight=4)
        add("values", L=2, what=["d", "w", "g", "f", "mu0", "phi0"], weight=4)
        add("values", L=2, what=["d", "w", "g", "I0", "mu0", "phi0"], iso=1, weight=4)
        add("depth", N=2, L=3, NF=2, iso=2, f="all", vec=1, weight=4)
    return J
