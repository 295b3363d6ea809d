"""C23: a solution depends on its arguments only, not on what was solved or evaluated before."""
from props.common import *
from props.c09 import everything, same

INFO = dict(
    functions=["pydisort", "_assemble_intensity_and_fluxes", "_solve_for_gen_and_part_sols", "_solve_for_coeffs", "subroutines (quadrature, moments of reflectances, actinic fluxes)"],
    bounds="sizes as listed, dense and banded solver; histories of four solutions of two problems in one process, each evaluated at two depths in between; the two problems differ in all parameters, "
           "in one argument, or in size; parameter ranges as in C01",
)


def place(c, p, l, name):
    s = c.var(name, 0, None, los=True)
    c.assume(s < p.d[l])
    return (p.tops[l] if l else 0) + s


def history(c, l=0, only=None, other=None, share=(), reuse=False, **kw):
    """solve and evaluate one problem, then another, in one package; compare with the other one in an untouched package"""
    p = make(c, **kw)
    q = make(c, tag="q", **dict(kw, **(other or {})))
    a, b = args(p), args(q)
    if only is not None:
        b = {k: (b[k] if k in only else v) for k, v in a.items()}
        if "f_arr" in only and "Leg_coeffs_all" not in only:
            for i in range(p.L):
                c.assume(p.g[i][p.NLeg - 1] >= q.f[i] + (Fr(1, 100) if c.sym else 0.01))
    for k in share:
        b[k] = a[k]
    ph = c.A([c.var("phi", 0, 6), c.num(1)])
    t, t2 = place(c, p, l, "t"), place(c, p, l, "t2")
    tq = t if only is not None and "tau_arr" not in only else place(c, q, 0, "tq")
    used, unused = c.fresh(), c.fresh()
    first = used(**b)
    Q = everything(c, q, first, tq, ph)
    if reuse:   # the caller keeps one set of arrays and overwrites it with the next problem
        old = {k: v.copy() for k, v in b.items() if k in a and hasattr(v, "copy") and hasattr(v, "shape") and c.np.ndim(v)}
        for k in old:
            b[k][...] = a[k]
        same(c, "first problem after the caller reused its arrays", Q, everything(c, q, first, tq, ph))
        A, B = used(**dict(a, **{k: b[k] for k in old})), unused(**a)
        same(c, "the caller's arrays reused", everything(c, p, B, t, ph), everything(c, p, A, t, ph))
        b.update(old)
        same(c, "first problem after the caller reused its arrays", Q, everything(c, q, first, tq, ph))
    A, B = used(**a), unused(**a)
    same(c, "after another problem", everything(c, p, B, t, ph), everything(c, p, A, t, ph))
    same(c, "after another evaluation", everything(c, p, B, t2, ph), everything(c, p, A, t2, ph))
    same(c, "first problem again", Q, everything(c, q, first, tq, ph))
    same(c, "first problem solved again", Q, everything(c, q, used(**b), tq, ph))
    same(c, "second problem solved again", everything(c, p, B, t, ph), everything(c, p, used(**a), t, ph))


def jobs(tier):
    J = []

    def add(weight=1, **kw):
        J.append(dict(fn="history", params=kw, weight=weight))
    full = dict(N=1, L=2, NF=2, f="all", iso=2, bc="matrix", bdrf=["f", "s"], l=1)
    for k in (["omega_arr"], ["tau_arr"], ["mu0"], ["I0"], ["phi0"], ["f_arr"], ["b_pos"], ["b_neg"], ["s_poly_coeffs"], ["BDRF_Fourier_modes"]):
        add(only=k, **full)
    add(only=["Leg_coeffs_all"], N=1, L=2, NF=2, iso=2, l=1)
    add(**full)
    add(N=2, L=2, NF=3, f="all", iso=1, bdrf=["f", "f"], l=0, weight=2)
    add(N=2, L=2, NF=3, l=1, other=dict(NF=2), weight=2)
    add(N=2, L=2, NF=2, l=1, other=dict(N=1, NLeg=2), weight=2)
    add(N=1, L=3, NF=2, l=2, other=dict(L=2, iso=2, f="all"))
    add(N=1, L=3, NF=2, l=2, banded=3, iso=1, bdrf=["s"], other=dict(banded=10, bdrf=["f", "f"]))
    add(N=1, L=2, NF=2, l=1, iso=3, other=dict(beam=False, iso=1))
    add(N=1, L=2, NF=2, l=0, f="some", other=dict(autograd=True))
    add(N=1, L=2, NF=1, l=1, f="all", NT=True, NLeg_all=3, weight=3)
    add(N=1, L=2, NF=1, l=1, f="all", NT=True, NLeg_all=3, only=["mu0"], weight=3)
    add(N=2, L=1, NF=2, bdrf=["f", "f"], other=dict(N=1, NLeg=2), share=["BDRF_Fourier_modes"], weight=2)
    add(reuse=True, **full)
    add(reuse=True, N=1, L=2, NF=1, l=1, f="all", NT=True, NLeg_all=3, weight=3)
    if tier == "thorough":
        big = dict(N=2, L=3, NF=4, f="all", iso=2, bc="matrix", bdrf=["f", "s", "f"], l=1)
        for k in (["omega_arr"], ["tau_arr"], ["mu0"], ["f_arr"], ["s_poly_coeffs"], None):
            add(only=k, weight=6, **big)
    return J
