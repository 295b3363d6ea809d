"""C06: delta-M scaling solves the explicitly scaled problem and moves the truncated forward peak into the diffuse downward flux."""
from math import comb
from props.common import *

INFO = dict(
    functions=["pydisort (delta-M scaling)", "_assemble_intensity_and_fluxes (scaled optical depth, direct beam reclassification)",
               "subroutines.affine_transform_poly_coeffs", "subroutines._mathscr_v", "_solve_for_coeffs", "_solve_for_gen_and_part_sols"],
    bounds="sizes as listed, dense and banded solver; 0-4 source coefficients; scaling fractions 0 or in [0.01,0.8]; one optical depth anywhere in one layer; "
           "other parameter ranges as in C01",
)


def shifted(c, p, l):
    """source polynomial of layer l in terms of the scaled optical depth"""
    # tau = a + b tau*
    b = 1 / p.sc[l]
    a = p.tops[l] - p.tops_s[l] * b
    n = len(p.s[l])
    out = []
    for j in range(n):
        v = 0
        for k in range(j, n):
            v = v + p.s[l][k] * comb(k, j) * b**j * a**(k - j)
        out.append(v)
    return out


def scaled(c, l=0, **kw):
    p = make(c, **kw)
    for r in p.g_s:      # the explicitly scaled coefficients must themselves be acceptable
        for x in r[1:]:
            c.assume(x > (Fr(-9, 10) if c.sym else -0.9))
    top, s = inside(c, p, l)
    t, ts = top + s, p.tops_s[l] + p.sc[l] * s
    a = c.pd(**args(p))
    k = args(p, tau_arr=c.A(p.bots_s), omega_arr=c.A(p.w_s), Leg_coeffs_all=c.A(p.g_s))
    k.pop("f_arr")
    k.pop("NT_cor", None)
    if p.iso:
        k["s_poly_coeffs"] = c.A([shifted(c, p, i) for i in range(p.L)])
    b = c.pd(**k)
    for where, x, y in (("inside a layer", t, ts), ("at the bottom of a layer", p.bots[l], p.bots_s[l]), ("at the top", c.num(0), c.num(0))):
        c.eq("upward flux of the scaled problem, " + where, a[1](x), b[1](y))
        da, db = a[2](x), b[2](y)
        c.eq("total downward flux of the scaled problem, " + where, da[0] + da[1], db[0] + db[1])
        c.eq("zeroth mode of the scaled problem, " + where, a[3](x), b[3](y))
        beam = p.I0 * p.mu0 * c.exp(-x / p.mu0) if p.beam else c.num(0)
        c.eq("true direct flux, " + where, da[1], beam)
        ua, ub = c.sub.generate_diff_act_flux_funcs(a[3]), c.sub.generate_diff_act_flux_funcs(b[3])
        c.eq("upward actinic flux of the scaled problem, " + where, ua[0](x), ub[0](y))
        ba, bb = (p.I0 * c.exp(-x / p.mu0), p.I0 * c.exp(-y / p.mu0)) if p.beam else (c.num(0), c.num(0))
        c.eq("total downward actinic flux of the scaled problem, " + where, ua[1](x) + ba, ub[1](y) + bb)
        if len(a) > 4:
            phi = c.var("phi", 0, 6)
            c.eq("intensity of the scaled problem, " + where, a[4](x, phi), b[4](y, phi))


def jobs(tier):
    J = []

    def add(weight=1, **kw):
        J.append(dict(fn="scaled", params=kw, weight=weight, cfg=dict(lazy_where=True)))
    add(N=1, L=1, NF=2, f="all")
    add(N=1, L=1, NF=1, f="all", iso=1, beam=False)
    add(N=1, L=2, l=1, NF=2, f="all", iso=1)
    add(N=1, L=2, l=1, NF=1, f="some", iso=2, bdrf=["f"])
    add(N=1, L=2, l=0, NF=1, f="first", iso=3, bc="scalar")
    add(N=1, L=2, l=1, NF=1, f="first", iso=2)
    add(N=1, L=3, l=1, NF=1, f="all", bc="vector", banded=3)
    add(N=1, L=3, l=2, NF=1, f="all", omega0=[1])
    add(N=2, L=1, NF=2, f="all", weight=2)
    add(N=2, L=2, l=1, NF=3, f="some", bc="matrix", bdrf=["s"], weight=3)
    add(N=2, L=2, l=1, only_flux=True, f="all", iso=1, weight=3)
    add(N=1, L=10, l=5, NF=1, f="some", iso=1, weight=1)
    add(N=3, L=2, l=1, NF=3, f="all", iso=1, weight=2)
    add(N=2, L=3, l=1, NF=4, f="all", iso=2, bc="matrix", bdrf=["f", "f"], banded=3, weight=2)
    if tier == "thorough":
        add(N=2, L=3, l=1, NF=4, f="all", iso=2, bc="matrix", bdrf=["f", "f"], banded=3, weight=6)
        add(N=2, L=2, l=1, NF=2, f="all", iso=4, weight=6)
        add(N=1, L=4, l=3, NF=2, f="all", iso=3, weight=5)
        add(N=3, L=1, NF=2, NLeg=4, f="all", weight=6)
    return J
