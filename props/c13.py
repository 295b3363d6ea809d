"""C13: the caller's data are never modified, and results already returned are not changed by later calls."""
from props.common import *

INFO = dict(
    functions=["pydisort", "_assemble_intensity_and_fluxes", "_solve_for_gen_and_part_sols", "_solve_for_coeffs",
               "subroutines (all public helpers)"],
    bounds="sizes as listed, dense and banded solver; every array argument; arguments with and without a phase function whose zeroth coefficient needs correction; parameter ranges as in C01",
)


def snap(c, kw):
    return {k: v.copy() for k, v in kw.items() if hasattr(v, "copy") and hasattr(v, "shape") and c.np.ndim(v)}


def unchanged(c, kw, before, when):
    for k, v in before.items():
        c.same("shape of %s after %s" % (k, when), tuple(c.np.shape(kw[k])), tuple(c.np.shape(v)))
        c.eq("%s is unchanged by %s" % (k, when), kw[k], v)


def inputs(c, g0=None, **kw):
    p = make(c, **kw)
    a = args(p)
    if g0 is not None:      # zeroth coefficient to be corrected by the solver
        a["Leg_coeffs_all"][0, 0] = c.num(g0)
    modes_ = a.get("BDRF_Fourier_modes")
    nm = list(modes_) if modes_ is not None else None
    b = snap(c, a)
    out = c.pd(**a)
    unchanged(c, a, b, "the solver")
    T = c.A([p.bots[-1] if p.L == 1 else p.bots[0], c.num(0)])
    ph = c.A([c.var("phi", 0, 6), c.num(0)])
    T0, ph0 = T.copy(), ph.copy()
    got = []
    for anti in (False, True):
        got += [out[1](T, anti), out[2](T, anti)[0], out[2](T, anti)[1], out[3](T, anti)]
        if len(out) > 4:
            got.append(out[4](T, ph, anti))
        got += [f(T, anti) for f in c.sub.generate_diff_act_flux_funcs(out[3])]
    keep = [x.copy() for x in got]
    c.eq("optical depths passed to the outputs", T, T0)
    c.eq("azimuths passed to the outputs", ph, ph0)
    # the caller may do what it likes with the returned arrays
    for x in got:
        x[...] = x + 1
    again = []
    for anti in (False, True):
        again += [out[1](T, anti), out[2](T, anti)[0], out[2](T, anti)[1], out[3](T, anti)]
        if len(out) > 4:
            again.append(out[4](T, ph, anti))
        again += [f(T, anti) for f in c.sub.generate_diff_act_flux_funcs(out[3])]
    for k, (x, y) in enumerate(zip(again, keep)):
        c.eq("a repeated evaluation after the caller changed the first result", x, y)
    for k, (x, y) in enumerate(zip(got, keep)):
        c.eq("a result already returned, after later calls", x, y + 1)
    unchanged(c, a, b, "evaluation")
    out2 = c.pd(**a)
    c.eq("a second solution from the same arguments", out2[3](T), keep[3])
    if nm is not None:
        c.same("list of reflectance modes", len(a["BDRF_Fourier_modes"]) == len(nm) and all(x is y for x, y in zip(a["BDRF_Fourier_modes"], nm)), True)
    unchanged(c, a, b, "a second solution")


def helpers(c):
    v = lambda n, k, lo=0.1, hi=3: c.A([c.var("%s%d" % (n, i), lo, hi) for i in range(k)])
    S = c.sub

    def run(name, f, *arrs):
        b = [x.copy() for x in arrs]
        f(*arrs)
        for x, y in zip(arrs, b):
            c.eq("arguments of " + name, x, y)
    x = v("x", 3)
    run("transform_interval", lambda a: S.transform_interval(a, 0, 2, -1, 1), x)
    run("transform_weights", lambda a: S.transform_weights(a, 0, 2, -1, 1), x)
    run("prepend", lambda a: S.prepend(a, 3, 0), x)
    run("atleast_2d_append", lambda a: S.atleast_2d_append(a), x)
    P = c.A([[c.var("p%d_%d" % (i, j), -2, 2) for j in range(3)] for i in range(2)])
    run("affine_transform_poly_coeffs", lambda a, b, d: S.affine_transform_poly_coeffs(a, b, d), P, v("a", 2), v("b", 2))
    run("linear_spline_coefficients", lambda a, b: S.linear_spline_coefficients(a, b, False), c.A([x[0], x[0] + x[1], x[0] + x[1] + x[2]]), v("y", 3))
    run("to_diag_ordered_form", lambda a: S.to_diag_ordered_form(a, 1, 1), c.A([[c.var("m%d_%d" % (i, j), 0, 1) for j in range(3)] for i in range(3)]))
    run("calculate_nu", lambda a, b, d, e: S.calculate_nu(a, b, d, e), v("mu", 2, 0.1, 0.9), v("ph", 2), v("mup", 2, 0.1, 0.9), v("php", 2))
    run("Planck", lambda a: S.Planck(a, 100), v("T", 2, 200, 300))
    run("blackbody_contrib_to_BCs", lambda a: S.blackbody_contrib_to_BCs(a, 100, 200), v("T", 2, 200, 300))
    run("generate_s_poly_coeffs", lambda a, b: S.generate_s_poly_coeffs(a, b, 100, 200), c.A([x[0], x[0] + x[1]]), v("T", 3, 200, 300))


def jobs(tier):
    J = []

    def add(fn, weight=1, **kw):
        J.append(dict(fn=fn, params=kw, weight=weight, cfg=dict(max_paths=30)))
    add("inputs", N=1, L=1, NF=2, bc="matrix", f="all", iso=1, bdrf=["f", "s"])
    add("inputs", N=1, L=2, NF=1, bc="vector", f="all", iso=2)
    add("inputs", N=1, L=1, g0=0.5, NF=1)
    add("inputs", N=1, L=2, g0=0.5, NF=2, f="all", NLeg_all=3)
    add("inputs", N=1, L=2, NF=1, NT=True, f="all", NLeg_all=3, iso=1, weight=2)
    add("inputs", N=1, L=3, NF=1, banded=3, beam=False, iso=3, omega0=[1], bc="scalar")
    add("inputs", N=1, L=2, only_flux=True, f="some", bc="vector")
    add("inputs", N=2, L=1, NF=2, bc="matrix", iso=1, weight=2)
    add("helpers")
    add("inputs", N=2, L=3, NF=3, bc="matrix", f="all", iso=3, bdrf=["f", "s"], banded=3, weight=2)
    add("inputs", N=3, L=10, NF=1, bc="vector", f="all", iso=1, weight=3)
    add("inputs", N=2, L=2, NF=2, NT=True, f="some", NLeg_all=6, iso=2, bc="vector", weight=4)
    if tier == "thorough":
        add("inputs", N=2, L=3, NF=2, bc="matrix", f="all", iso=3, bdrf=["s", "f"], banded=3, weight=6)
        add("inputs", N=1, L=2, NF=2, NT=True, f="all", NLeg_all=4, g0=0.25, autograd=True, weight=4)
    return J
