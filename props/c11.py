"""C11: the output functions are evaluated pointwise: every value depends on its own optical depth and azimuth only."""
from props.common import *

INFO = dict(
    functions=["_assemble_intensity_and_fluxes (u, u0, flux_up, flux_down)", "pydisort (u_corrected, TMS_correction, IMS_correction)",
               "subroutines._mathscr_v", "subroutines.generate_diff_act_flux_funcs"],
    bounds="sizes as listed, dense and banded solver; vectors of 3-4 optical depths, two of them anywhere in the atmosphere (every combination of layers is a path), "
           "one repeated, one at an interface; 2 azimuths; parameter ranges as in C01",
)


def sample(c, p, n):
    """optical depths in no particular order: two arbitrary ones, a repetition, an interface"""
    free = [c.var("t%d" % k, 0, 20) for k in range(2)]
    for t in free:
        c.assume(t <= p.tau_bot)
    return [free[1], p.bots[0], free[0], free[1]][:n]


def pointwise(c, n=4, anti=False, what=("u", "u0", "Fp", "Fm", "act"), **kw):
    p = solve(make(c, **kw))
    ts = sample(c, p, n)
    T = c.A(ts)
    flag = (True,) if anti else ()

    def col(label, vec, one, shape=()):
        """vec[..., j] against one(tau_j)"""
        c.same("shape of " + label, tuple(c.np.shape(vec)), tuple(shape) + (n,))
        if tuple(c.np.shape(vec)) != tuple(shape) + (n,):
            return
        for j, t in enumerate(ts):
            c.eq("%s at one of several optical depths" % label, vec[..., j], one(t))
    if "u0" in what:
        col("the zeroth mode", p.u0(T, *flag), lambda t: p.u0(t, *flag), (p.NQ,))
    if "Fp" in what:
        col("the upward flux", p.Fp(T, *flag), lambda t: p.Fp(t, *flag))
    if "Fm" in what:
        v = p.Fm(T, *flag)
        for k, name in enumerate(("the downward diffuse flux", "the direct flux")):
            col(name, v[k], lambda t: p.Fm(t, *flag)[k])
    if "act" in what:
        for f, name in zip(c.sub.generate_diff_act_flux_funcs(p.u0), ("the upward actinic flux", "the downward actinic flux")):
            col(name, f(T, *flag), lambda t: f(t, *flag))
    if "u" in what and p.u is not None:
        ph = [c.var("phi0_", 0, 6), c.var("phi1_", 0, 6)]
        v = p.u(T, c.A(ph), *flag)
        c.same("shape of the intensity", tuple(c.np.shape(v)), (p.NQ, n, 2))
        if tuple(c.np.shape(v)) == (p.NQ, n, 2):
            for j, t in enumerate(ts):
                for k in range(2):
                    c.eq("the intensity at one of several points", v[:, j, k], p.u(t, ph[k], *flag))
            w = p.u(T, ph[0], *flag)
            c.eq("the intensity at several optical depths and one azimuth", w, v[:, :, 0])
            c.eq("the intensity at several azimuths and one optical depth", p.u(ts[0], c.A(ph), *flag), v[:, 0, :])


def flags(c, **kw):
    """flags append outputs and change nothing else; calls do not influence each other"""
    p = solve(make(c, **kw))
    top, s = inside(c, p, p.L - 1)
    t = top + s
    T = c.A([t, p.bots[0]])
    ph = c.A([c.var("phi", 0, 6), p.phi0])
    full = c.A(p.bots)
    for anti in (False, True):
        a = p.u0(T, anti)
        r = p.u0(T, anti, True)
        c.same("u0 with the optical depth flag returns a pair", len(r), 2)
        c.eq("u0 with the optical depth flag", r[0], a)
        c.eq("optical depths returned by u0", r[1], full)
        a = p.Fp(T, anti)
        r = p.Fp(T, anti, True)
        c.same("upward flux with the optical depth flag returns a pair", len(r), 2)
        c.eq("upward flux with the optical depth flag", r[0], a)
        c.eq("optical depths returned by the upward flux", r[1], full)
        a = p.Fm(T, anti)
        r = p.Fm(T, anti, True)
        c.same("downward flux with the optical depth flag returns a triple", len(r), 3)
        c.eq("downward flux with the optical depth flag", c.A(list(r[:2])), c.A(list(a)))
        c.eq("optical depths returned by the downward flux", r[2], full)
        for f in c.sub.generate_diff_act_flux_funcs(p.u0):
            a = f(T, anti)
            r = f(T, anti, True)
            c.same("actinic flux with the optical depth flag returns a pair", len(r), 2)
            c.eq("actinic flux with the optical depth flag", r[0], a)
            c.eq("optical depths returned by the actinic flux", r[1], full)
        if p.u is not None:
            a = p.u(T, ph, anti)
            r = p.u(T, ph, anti, True, True)
            c.same("the intensity with both flags returns a triple", len(r), 3)
            c.eq("the intensity with both flags", r[0], a)
            c.eq("optical depths returned by the intensity", r[2], full)
            q = p.u(T, ph, anti, True)
            c.same("the intensity with the convergence flag returns a pair", len(q), 2)
            c.eq("the intensity with the convergence flag", q[0], a)
            c.eq("the convergence value does not depend on the other flag", q[1], r[1])
            q = p.u(T, ph, anti, False, True)
            c.same("the intensity with the optical depth flag returns a pair", len(q), 2)
            c.eq("the intensity with the optical depth flag", q[0], a)
            c.eq("optical depths returned by the intensity alone", q[1], full)
            c.eq("a repeated call", p.u(T, ph, anti), a)


def jobs(tier):
    J = []

    def add(fn, weight=1, **kw):
        cfg = dict(max_paths=60, validate=1, lazy_where=True)
        J.append(dict(fn=fn, params=kw, weight=weight, cfg=cfg))
    P = "pointwise"
    add(P, N=1, L=1, NF=2)
    add(P, N=1, L=2, NF=2, iso=2, f="all", weight=3)
    add(P, N=1, L=3, NF=1, iso=3, f="some", omega0=[1], beam=False, what=["u", "u0", "Fp", "Fm"], weight=4)
    add(P, N=1, L=3, NF=1, iso=1, f="all", anti=True, what=["u0", "Fp", "Fm", "act"], weight=4)
    add(P, N=1, L=2, NF=1, iso=3, f="all", anti=True, what=["u", "act"], weight=3)
    add(P, N=1, L=2, NF=2, iso=1, f="all", autograd=True, weight=3)
    add(P, N=2, L=2, NF=1, f="first", only_flux=True, weight=3)
    add(P, N=1, L=2, NF=1, f="all", NT=True, NLeg_all=3, iso=1, what=["u"], weight=4)
    add(P, N=1, L=2, NF=1, f="all", NT=True, NLeg_all=3, what=["u"], anti=True, weight=4)
    add(P, N=1, L=2, NF=1, f="all", NT=True, NLeg_all=3, iso=1, what=["u"], anti=True, weight=4)
    add("flags", N=1, L=2, NF=2, iso=2, f="all")
    add("flags", N=1, L=2, NF=1, f="all", NT=True, NLeg_all=3, iso=1)
    add("flags", N=1, L=1, NF=2, beam=False, iso=1)
    add("flags", N=1, L=2, only_flux=True, f="some")
    add("pointwise", N=2, L=2, NF=3, f="some", iso=3, anti=True, n=3, weight=5)
    add("pointwise", N=2, L=3, NF=2, iso=2, f="all", n=3, weight=9)
    add("pointwise", N=1, L=4, NF=2, iso=2, f="all", banded=3, n=3, weight=9)
    add("pointwise", N=3, L=1, NF=5, n=3)
    add("pointwise", N=1, L=3, NF=2, iso=2, f="all", anti=True, n=3, weight=5)
    if tier == "thorough":
        add(P, N=2, L=3, NF=2, iso=3, f="all", weight=8)
        add(P, N=2, L=3, NF=2, iso=2, f="all", anti=True, weight=8)
        add(P, N=1, L=4, NF=2, iso=4, f="some", weight=8)
        add(P, N=2, L=2, NF=1, f="all", NT=True, NLeg_all=5, iso=2, what=["u"], weight=8)
        add(P, N=1, L=3, NF=1, f="all", NT=True, NLeg_all=3, anti=True, autograd=True, what=["u"], weight=8)
        add("flags", N=2, L=3, NF=3, iso=3, f="all", banded=3, weight=4)
    return J
