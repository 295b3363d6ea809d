"""C19: the convergence value is the largest contribution of the last Fourier term relative to the intensity."""
from props.common import *

INFO = dict(
    functions=["_assemble_intensity_and_fluxes (u: return_Fourier_error)", "pydisort (u_corrected)"],
    bounds="sizes as listed, dense and banded solver; 1-2 optical depths and azimuths; intensities of magnitude above 0.01; parameter ranges as in C01",
)


def convergence(c, l=0, both=False, anti=False, **kw):
    p = solve(make(c, **kw))
    top, s = inside(c, p, l)
    taus = [top + s] + ([c.num(0)] if both else [])
    n = p.NF
    ph = phis(p)[:2] if both else phis(p)[-1:]
    v = p.u(c.A(taus), c.A(ph), anti).reshape((p.NQ, len(taus), len(ph)))
    ratios = []
    for j, t in enumerate(taus):
        last = modes(p, p.u, t, anti)[n - 1]
        for k in range(len(ph)):
            cs = c.cos((n - 1) * (p.phi0 - ph[k]))
            for i in range(p.NQ):
                c.assume(c.abs(v[i, j, k]) >= (Fr(1, 100) if c.sym else 0.01))
                ratios.append((c.abs(last[i] * cs), c.abs(v[i, j, k])))
    w, err = p.u(c.A(taus), c.A(ph), anti, True)
    q = [a / b for a, b in ratios]
    c.eq("convergence value", err, c.np.max(c.A(q)), 1e-6)


def jobs(tier):
    J = []

    def add(weight=1, **kw):
        J.append(dict(fn="convergence", params=kw, weight=weight, cfg=dict(max_paths=30, lazy_where=True, try_where=True)))
    add(N=1, L=1)
    add(N=1, L=1, NF=1, f="all")
    add(N=1, L=2, l=1, iso=2, f="all")
    add(N=1, L=1, NF=2, beam=False, bc="matrix", both=True)
    add(N=1, L=3, l=1, bc="matrix", beam=False)
    add(N=2, L=1, NF=3)
    add(N=2, L=2, l=1, NF=2, f="all")
    add(N=1, L=2, l=0, f="all", iso=1, anti=True)
    add(N=1, L=2, l=1, f="some", iso=1, autograd=True)
    add(N=2, L=2, NF=4, weight=1)
    if tier == "thorough":
        add(N=2, L=3, l=1, NF=3, iso=2, f="all", both=True, banded=3, weight=4)
        add(N=2, L=1, NF=4, weight=4)
        add(N=3, L=2, l=1, NF=2, NLeg=3, f="all", weight=4)
    return J
