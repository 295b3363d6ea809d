"""C07: the solution is linear in the sources: beam, boundary values and thermal emission superpose and scale."""
from props.common import *
from props.c09 import everything, point

INFO = dict(
    functions=["pydisort (rescaling of the sources)", "_assemble_intensity_and_fluxes", "_solve_for_coeffs", "_solve_for_gen_and_part_sols", "subroutines._mathscr_v"],
    bounds="sizes as listed, dense and banded solver; 0-4 source coefficients; every strength of every source, including negative thermal coefficients in one configuration; "
           "one optical depth anywhere in one layer; other parameter ranges as in C01",
)


def pick(c, p, parts, factor=1):
    """arguments with only the named sources"""
    L = p.L
    a = args(p)
    a["I0"] = p.I0 * factor if "beam" in parts else 0
    for k in ("b_pos", "b_neg"):
        v = a[k]
        a[k] = v * factor if k in parts else 0
    if p.iso:
        a["s_poly_coeffs"] = c.A([[x * factor for x in r] for r in p.s]) if "s" in parts else c.np.zeros((L, p.iso))
    return a


def total(c, res):
    out = []
    for k, (lab, v) in enumerate(res[0]):
        x = v
        for r in res[1:]:
            x = x + r[k][1]
        out.append((lab, x))
    return out


def superpose(c, split, l=0, **kw):
    """all sources at once against the sum over the groups in `split`"""
    p = make(c, **kw)
    t, ph = point(c, p, l)
    whole = c.pd(**pick(c, p, [x for g in split for x in g]))
    parts = [c.pd(**pick(c, p, g)) for g in split]
    A = everything(c, p, whole, t, ph)
    B = total(c, [everything(c, p, o, t, ph) for o in parts])
    for (la, x), (lb, y) in zip(A, B):
        c.eq("superposition of the sources: " + la, x, y, 1e-6)


def scale(c, l=0, **kw):
    """every source multiplied by the same factor"""
    p = make(c, **kw)
    t, ph = point(c, p, l)
    k = c.var("factor", 0.05, 20)
    every = ["beam", "b_pos", "b_neg", "s"]
    A = everything(c, p, c.pd(**pick(c, p, every)), t, ph)
    B = everything(c, p, c.pd(**pick(c, p, every, k)), t, ph)
    for (la, x), (lb, y) in zip(A, B):
        c.eq("multiplication of the sources: " + la, y, k * x, 1e-6)


def additive(c, l=0, deg=0, sign=1, **kw):
    """two complete sets of sources; thermal coefficients of any sign if sign = -1"""
    p = make(c, iso=deg, **kw)
    t, ph = point(c, p, l)
    q = Prob()
    q.__dict__.update(p.__dict__)
    if p.beam:
        q.I0 = c.var("I0_", 0.1, 20)

    def other(v, name):
        sh = tuple(c.np.shape(v))
        if sh == ():
            return c.var(name, 0.1, 9) if p.bc != "zero" else 0
        flat = c.A([c.var("%s_%d" % (name, i), 0.1, 9) for i in range(int(c.np.size(v)))])
        return flat.reshape(sh)
    q.b_pos, q.b_neg = other(p.b_pos, "b_pos_"), other(p.b_neg, "b_neg_")
    if sign < 0:
        p.s = [[c.var("a%d_%d" % (i, j), -3, 3) for j in range(deg)] for i in range(p.L)]
    q.s = [[c.var("e%d_%d" % (i, j), 0.1 if sign > 0 else -3, 3) for j in range(deg)] for i in range(p.L)]
    if sign < 0:      # at least one coefficient of every sum is not zero
        for x in (p.s[0][0], q.s[0][0], p.s[0][0] + q.s[0][0]):
            c.assume(x * x >= (Fr(1, 100) if c.sym else 0.01))
    r = Prob()
    r.__dict__.update(p.__dict__)
    r.I0 = p.I0 + q.I0
    r.b_pos, r.b_neg = p.b_pos + q.b_pos, p.b_neg + q.b_neg
    r.s = [[x + y for x, y in zip(a, b)] for a, b in zip(p.s, q.s)]
    res = [everything(c, x, c.pd(**args(x)), t, ph) for x in (r, p, q)]
    for (la, x), (lb, y) in zip(res[0], total(c, res[1:])):
        c.eq("sum of two sets of sources: " + la, x, y, 1e-5)


def jobs(tier):
    J = []

    def add(fn, weight=1, cut=True, **kw):
        J.append(dict(fn=fn, params=kw, weight=weight, cfg=dict(lazy_where=True, cut=cut, shim=dict(solve="inv", solve2=True))))
    S = "superpose"
    all_ = [["beam"], ["b_pos"], ["b_neg"], ["s"]]
    add(S, cut=False, split=all_, N=1, L=1, NF=2, bc="matrix", iso=1, bdrf=["s", "f"])
    add(S, split=[["b_pos"], ["b_neg"], ["s"]], N=1, L=2, l=1, NF=2, bc="scalar", iso=2, bdrf=["f"], f="all", beam=False, weight=2)
    add(S, split=[["beam"], ["s"]], N=1, L=2, l=0, NF=1, iso=2, f="some")
    add(S, split=[["beam"], ["b_pos", "b_neg"]], N=2, L=1, NF=3, bc="vector", weight=2)
    add(S, cut=False, split=[["b_pos"], ["b_neg"]], N=2, L=2, l=0, NF=2, bc="matrix", bdrf=["f", "f"], weight=2)
    add(S, split=[["b_neg"], ["s"]], N=2, L=2, l=1, NF=1, bc="vector", iso=2, f="all", beam=False, weight=3)
    add(S, cut=False, split=all_[1:], N=1, L=3, l=1, NF=1, bc="vector", iso=1, banded=3, omega0=[1])
    add(S, split=[["beam"], ["s", "b_pos"]], N=1, L=2, l=1, NF=1, bc="vector", iso=1, f="all", NT=True, NLeg_all=3, weight=3)
    M = "scale"
    add(M, N=1, L=1, NF=2, bc="scalar", iso=2)
    add(M, N=1, L=2, l=1, NF=1, bc="vector", iso=1, f="all", bdrf=["s"])
    add(M, N=1, L=1, NF=2, f="all", bdrf=["s"])
    add(M, N=1, L=2, l=1, NF=1, f="all", NT=True, NLeg_all=3, weight=2)
    add(M, N=2, L=2, l=0, NF=3, bc="matrix", weight=3)
    add(M, N=1, L=2, l=0, NF=1, beam=False, iso=3, bc="neg")
    T = "additive"
    add(T, cut=False, N=1, L=1, NF=1, beam=False, deg=3, sign=-1)
    add(T, cut=False, N=1, L=2, l=0, NF=1, deg=1, bc="scalar", bdrf=["s"], sign=-1)
    add(T, cut=False, N=1, L=2, l=1, NF=2, deg=2, beam=False, bc="matrix", weight=2)
    add("superpose", split=[["beam"], ["b_pos", "b_neg"]], N=1, L=5, l=3, NF=2, bc="vector", f="some", weight=5)
    add("scale", N=2, L=2, l=1, NF=2, f="all", NT=True, NLeg_all=6, weight=6)
    add("scale", N=1, L=10, l=5, NF=1, bc="vector", iso=1, f="all", weight=9)
    if tier == "thorough":
        add(S, split=all_, N=1, L=2, l=1, NF=2, bc="scalar", iso=2, bdrf=["f"], f="all", weight=2)
        add(S, split=[["b_neg"], ["s"]], N=2, L=2, l=1, NF=2, bc="vector", iso=2, f="all", beam=False, weight=3)
        add(S, split=[["beam"], ["s"]], N=1, L=2, l=0, NF=2, iso=3, f="some")
        add(S, split=all_[1:], N=2, L=3, l=1, NF=4, bc="matrix", iso=3, bdrf=["f", "s"], f="all", banded=3, beam=False, weight=8)
        add(M, N=1, L=1, NF=2, bdrf=["s", "s"], f="all")
        add(M, N=2, L=3, l=1, NF=4, bc="matrix", iso=1, f="all", weight=8)
        add(T, cut=False, N=2, L=1, NF=1, deg=1, beam=False, bc="vector", weight=2)
    return J
