"""Stand-ins for numpy / scipy / math / autograd through which the real source of
PythonicDISORT is executed on symbolic values, and the stubs (with contracts) for
the numerical library calls that cannot be evaluated symbolically.

Contracts (hypotheses handed to the solver):
  linalg.eig(M)        M V = V diag(K^2), K > 0, V invertible
  linalg.inv(M)        M M^-1 = I = M^-1 M
  linalg.solve(A, b)   A x = b, unique            (solve_banded: the same, from the band storage)
  leggauss(N)          nodes 0 < m_1 < .. < m_N < 1 (after mapping to [0,1]), positive weights;
                       exact nodes and weights for N = 1, or on request for N = 2, 3
  lpmv, Legendre       exact where the argument is a known number, else interned by argument with
                       the parity P_l^m(-x) = (-1)^(l+m) P_l^m(x)
  max                  >= every argument and equal to one of them
  quad_vec             an uninterpreted integral, equal for equal integrands and bounds
"""
import builtins
import functools
import itertools
import math
import os
import types
from fractions import Fraction

import numpy as np
import scipy.special
import scipy.linalg
import scipy.constants
import scipy.integrate

from . import sym, arr, agrad
from .sym import Sym, SymBool, S, Unsupported, rat, ssqrt, sdiv, is_zero
from .arr import SArr, sarr, base, out_wrap, is_symbolic, has_float, SPECIAL, prep, array_ufunc

CONFIG = {"nodes": "opaque", "solve": "x", "zero_rhs": 0, "inv_exact": 2, "repo": "/repo"}
HYPS = []          # (frozenset of stub gids, list of Sym == 0, label)
STUBCALLS = {}
WARNINGS = []
_memo = {}
sym.ON_EIGDEF[0] = lambda G: HYPS.append((frozenset([G.gid]), [sym.gen_sym(G) - Sym(G.arg)],
                                                         "idef" if G.info == "invdef" else "def"))


def reset():
    sym.reset()
    HYPS.clear()
    STUBCALLS.clear()
    WARNINGS.clear()
    _memo.clear()
    arr.MAXREG.clear()
    arr.ITEREG.clear()
    arr.PRODUCTS.clear()
    for k, v in dict(h="6.62607015e-34", c="299792458", k="1.380649e-23").items():
        x = sym.var("const_" + k, Fraction(v), Fraction(v))


def count(name):
    STUBCALLS[name] = STUBCALLS.get(name, 0) + 1


def _key(entries):
    return tuple(sym.fingerprint(e.p) for e in entries)


def memo(kind, entries, make):
    """memoise on expressions equal as rational functions (fingerprint, confirmed exactly)"""
    k = (kind, len(entries)) + _key(entries)
    for old, val in _memo.get(k, []):
        if all(a.p == b.p or is_zero(a - b) for a, b in zip(old, entries)):
            return val
    val = make()
    _memo.setdefault(k, []).append((list(entries), val))
    return val


def _num(mat, env, memo_):
    return np.array([[sym.evalf(x, env, memo_) for x in row] for row in mat], dtype=float)


_ctr = itertools.count()


def _stub_gens(tag, n, fn, **kw):
    """n fresh generators; fn(env, memo) -> list of n floats"""
    cid = next(_ctr)
    box = ("stub", cid)

    def make(i):
        def ev(em):
            env, m = em
            if box not in m:
                m[box] = fn(env, m)
            return float(m[box][i])
        return ev
    gens = []
    for i in range(n):
        g = sym.Gen("var", "%s%d_%d" % (tag, cid, i), evalf=make(i), **kw)
        g.info = "stub"
        gens.append(g)
    return gens


# --------------------------------------------------------------------------- linear algebra stubs

def _mat(a):
    a = sarr(a)
    return [[S(x) for x in row] for row in base(a)]


def _bad(mat):
    for row in mat:
        for x in row:
            for m in x.p:
                for g, _ in m:
                    if sym.GENS[g].name in ("uninit!", "nan!"):
                        return True
    return False


def eig1(M):
    n = len(M)
    ent = [x for r in M for x in r]

    def make():
        if n == 1:
            return [M[0][0]], [[sym.ONE]]

        def fn(env, m):
            w, v = np.linalg.eig(_num(M, env, m))
            return list(np.sqrt(w.real)) + list(v.real.reshape(-1))
        gens = _stub_gens("K", n + n * n, fn)
        for g in gens:
            g.info = "eig"
        for g in gens[:n]:
            g.lo, g.los = 0, True
        for g in gens[n:]:
            g.name = g.name.replace("K", "V", 1)
        K = [sym.gen_sym(g) for g in gens[:n]]
        V = [[sym.gen_sym(gens[n + i * n + j]) for j in range(n)] for i in range(n)]
        fac = arr.PRODUCTS.get(tuple(frozenset(x.p.items()) for x in ent)) if sym.CUT_ON[0] else None
        if fac is not None:
            # M = A B: A (B V) = V K^2, with B V named
            A, B = fac
            for j in range(n):
                BV = [sym.cut(arr.ssum([B[i][k] * V[k][j] for k in range(n)])) for i in range(n)]
                HYPS.append((frozenset([gens[j].gid] + [gens[n + i * n + j].gid for i in range(n)]),
                             [arr.ssum([A[i][k] * BV[k] for k in range(n)]) - K[j] * K[j] * V[i][j] for i in range(n)], "eig"))
            return [k * k for k in K], V
        for j in range(n):
            hyp = []
            for i in range(n):
                hyp.append(arr.ssum([M[i][k] * V[k][j] for k in range(n)]) - K[j] * K[j] * V[i][j])
            HYPS.append((frozenset([gens[j].gid] + [gens[n + i * n + j].gid for i in range(n)]), hyp, "eig"))
        return [k * k for k in K], V
    return memo("eig", ent, make)


def eig(a, *args, **kw):
    count("eig")
    a = sarr(a)
    n = a.shape[-1]
    lam = np.empty(a.shape[:-1], dtype=object)
    vec = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape[:-2]):
        w, v = eig1(_mat(base(a)[i]))
        for j in range(n):
            lam[i + (j,)] = w[j]
            for k in range(n):
                vec[i + (j, k)] = v[j][k]
    return lam.view(SArr), vec.view(SArr)


def inv1(M):
    n = len(M)
    ent = [x for r in M for x in r]
    if n == 1:
        return [[sdiv(1, M[0][0])]]
    if n == 2 and CONFIG["inv_exact"] >= 2:
        (a, b), (c, d) = M
        det = a * d - b * c
        r = sdiv(1, det)
        return [[d * r, -b * r], [-c * r, a * r]]

    def make():
        gens = _stub_gens("I", n * n, lambda env, m: list(np.linalg.inv(_num(M, env, m)).reshape(-1)))
        X = [[sym.gen_sym(gens[i * n + j]) for j in range(n)] for i in range(n)]
        ids = frozenset(g.gid for g in gens)
        for g in gens:
            g.info = "inv"
        for i in range(n):
            hyp = []
            for j in range(n):
                hyp.append(arr.ssum([M[i][k] * X[k][j] for k in range(n)]) - (1 if i == j else 0))
                hyp.append(arr.ssum([X[i][k] * M[k][j] for k in range(n)]) - (1 if i == j else 0))
            HYPS.append((ids, [S(h) for h in hyp], "inv"))
        return X
    return memo("inv", ent, make)


def inv(a, *args, **kw):
    count("inv")
    a = sarr(a)
    out = np.empty(a.shape, dtype=object)
    n = a.shape[-1]
    if a.shape[-2] != n:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    for i in np.ndindex(*a.shape[:-2]):
        X = inv1(_mat(base(a)[i]))
        for j in range(n):
            for k in range(n):
                out[i + (j, k)] = X[j][k]
    return out.view(SArr)


SYSTEMS = []      # (A, b, x gens) of every x-mode solve


def zero_if_proved(x):
    """right-hand sides the solver shows to be zero (implied by the contracts) are replaced by zero"""
    if not x.p:
        return x
    from . import prove
    st, info = prove.prove_zero(x, seconds=CONFIG["zero_rhs"])
    return sym.ZERO if st == "proved" else x


def triangular(A, b):
    """solution by substitution if the rows can be ordered so that each has one new unknown, with a single term as its coefficient"""
    n = len(A)
    X, rows = [None] * n, set(range(n))
    while rows:
        for i in sorted(rows):
            new = [j for j in range(n) if X[j] is None and A[i][j].p]
            if len(new) == 1 and len(A[i][new[0]].p) == 1:
                break
        else:
            return None
        rows.remove(i)
        j = new[0]
        X[j] = sdiv(S(b[i] - arr.ssum([A[i][k] * X[k] for k in range(n) if X[k] is not None and A[i][k].p])), A[i][j])
    return X


def solve1(A, b):
    """A: n x n Syms, b: n Syms"""
    n = len(A)
    if CONFIG.get("zero_rhs"):
        b = [zero_if_proved(x) for x in b]
    if _bad(A) or _bad([b]):
        u = sym.var("uninit!")
        return [u] * n
    if n == 1:
        return [sdiv(b[0], A[0][0])]
    ent = [x for r in A for x in r]
    if n == 2 and CONFIG.get("solve2"):
        (e, f), (g, h) = A
        r = sdiv(1, e * h - f * g)
        return [(h * b[0] - f * b[1]) * r, (e * b[1] - g * b[0]) * r]
    if CONFIG.get("solve_tri"):
        X = triangular(A, b)
        if X is not None:
            return X
    if CONFIG["solve"] == "inv":
        def make():
            gens = _stub_gens("Y", n * n, lambda env, m: list(np.linalg.inv(_num(A, env, m)).reshape(-1)))
            ids = frozenset(g.gid for g in gens)
            Y = [[sym.gen_sym(gens[i * n + j]) for j in range(n)] for i in range(n)]
            if CONFIG.get("inv_hyps"):
                hyp = []
                for i in range(n):
                    for j in range(n):
                        hyp.append(arr.ssum([A[i][k] * Y[k][j] for k in range(n)]) - (1 if i == j else 0))
                        hyp.append(arr.ssum([Y[i][k] * A[k][j] for k in range(n)]) - (1 if i == j else 0))
                HYPS.append((ids, [S(h) for h in hyp], "solve"))
            return Y
        Y = memo("solveinv", ent, make)
        return [S(arr.ssum([Y[i][k] * b[k] for k in range(n) if b[k].p])) for i in range(n)]

    if all(not x.p for x in b):
        return [sym.ZERO] * n

    def make():
        gens = _stub_gens("C", n, lambda env, m: list(np.linalg.solve(_num(A, env, m), np.array([sym.evalf(x, env, m) for x in b]))))
        X = [sym.gen_sym(g) for g in gens]
        ids = frozenset(g.gid for g in gens)
        hyps = []
        for i in range(n):
            hyps.append(S(arr.ssum([A[i][k] * X[k] for k in range(n) if A[i][k].p]) - b[i]))
        HYPS.append((ids, hyps, "solve"))
        SYSTEMS.append((A, b, gens, hyps))
        return X
    return memo("solve", ent + list(b), make)


def solve(a, b, *args, **kw):
    count("solve")
    a, b = sarr(a), sarr(b)
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    n = a.shape[-1]
    if b.ndim == 1:
        if b.shape[0] != n:
            raise ValueError("solve: mismatch in core dimension")
        bs = a.shape[:-2]
        out = np.empty(bs + (n,), dtype=object)
        for i in np.ndindex(*bs):
            x = solve1(_mat(base(a)[i]), [S(v) for v in base(b)])
            for k in range(n):
                out[i + (k,)] = x[k]
        return out.view(SArr)
    if b.shape[-2] != n:
        raise ValueError("solve: mismatch in core dimension")
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(base(a), bs + a.shape[-2:])
    B = np.broadcast_to(base(b), bs + b.shape[-2:])
    out = np.empty(B.shape, dtype=object)
    for i in np.ndindex(*bs):
        M = _mat(A[i])
        for c in range(B.shape[-1]):
            x = solve1(M, [S(v) for v in B[i][:, c]])
            for k in range(n):
                out[i + (k, c)] = x[k]
    return out.view(SArr)


def _poison(a):
    if isinstance(a, np.ndarray):
        u = sym.var("uninit!", evalf=lambda env: math.nan)
        a[...] = u


def solve_banded(l_and_u, ab, b, overwrite_ab=False, overwrite_b=False, check_finite=True):
    count("solve_banded")
    l, u = (int(x) for x in l_and_u)
    ab_, b_ = sarr(ab), sarr(b)
    if ab_.shape[-1] != b_.shape[0]:
        raise ValueError("shapes of ab and b are not compatible.")
    if l + u + 1 != ab_.shape[0]:
        raise ValueError("invalid values for the number of lower and upper diagonals: l+u+1 (%d) does not equal ab.shape[0] (%d)" % (l + u + 1, ab_.shape[0]))
    n = ab_.shape[1]
    A = [[sym.ZERO] * n for _ in range(n)]
    for j in range(n):
        for i in range(max(0, j - u), min(n - 1, j + l) + 1):
            A[i][j] = S(base(ab_)[u + i - j, j])
    if b_.ndim == 1:
        r = sarr(solve1(A, [S(x) for x in base(b_)]))
    else:
        cols = [solve1(A, [S(x) for x in base(b_)[:, c]]) for c in range(b_.shape[1])]
        r = sarr(cols).T
    if overwrite_ab:
        _poison(ab)
    if overwrite_b:
        _poison(b)
    return r


class _LU:
    def __init__(self, A):
        self.A = A


def lu_factor(a, overwrite_a=False, check_finite=True):
    A = sarr(a).copy()
    if overwrite_a:
        _poison(a)
    return _LU(A), None


def lu_solve(lu, b, trans=0, overwrite_b=False, check_finite=True):
    A = lu[0].A
    r = solve(A.T if trans else A, b)
    if overwrite_b:
        _poison(b)
    return r


def sc_solve(a, b, *args, **kw):
    r = solve(a, b)
    if kw.get("overwrite_a"):
        _poison(a)
    if kw.get("overwrite_b"):
        _poison(b)
    return r


def det(a):
    a = sarr(a)
    M = _mat(a)

    def d(M):
        if len(M) == 1:
            return M[0][0]
        return S(arr.ssum([(-1) ** j * M[0][j] * d([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M)) if M[0][j].p]))
    return d(M)


# --------------------------------------------------------------------------- quadrature, special functions

def leggauss(N):
    count("leggauss")
    N = int(N)
    if N <= 0:
        raise ValueError("deg must be a positive integer")
    if N == 1:
        return sarr([0]), sarr([2])
    if CONFIG["nodes"] == "exact":
        if N == 2:
            s = ssqrt(S(3)) / 3
            return sarr([-s, s]), sarr([1, 1])
        if N == 3:
            s = ssqrt(S(15)) / 5
            return sarr([-s, S(0), s]), sarr([Fraction(5, 9), Fraction(8, 9), Fraction(5, 9)])
        if N == 4:
            r = ssqrt(S(30))
            a, b = ssqrt((15 - 2 * r) / 35), ssqrt((15 + 2 * r) / 35)
            u, v = (18 + r) / 36, (18 - r) / 36
            return sarr([-b, -a, a, b]), sarr([v, u, u, v])
        if N == 5:
            r = ssqrt(S(70))
            a, b = ssqrt((35 - 2 * r) / 63), ssqrt((35 + 2 * r) / 63)
            u, v = (322 + 13 * r) / 900, (322 - 13 * r) / 900
            return sarr([-b, -a, S(0), a, b]), sarr([v, u, Fraction(128, 225), u, v])
        raise Unsupported("exact nodes for N=%d" % N)
    x, w = np.polynomial.legendre.leggauss(N)
    xs, ws = [], []
    for i in range(N):
        # declared ranges: around the true node and weight, disjoint
        c = Fraction((x[i] + 1) / 2).limit_denominator(10**6)
        cw = Fraction(w[i] / 2).limit_denominator(10**6)
        d = Fraction(1, 1000)
        m = sym.var("node%d_%d" % (N, i), c - d, c + d, evalf=lambda em, i=i: float((x[i] + 1) / 2))
        ww = sym.var("weight%d_%d" % (N, i), cw - d, cw + d, evalf=lambda em, i=i: float(w[i] / 2))
        xs.append(2 * m - 1)
        ws.append(2 * ww)
    if CONFIG.get("moments") and not any(h[2] == "quadrature%d" % N for h in HYPS):
        # exactness up to degree 2N-1, stated for degree 1 and the Legendre polynomials of even degree on [0, 1]
        half = [(v + 1) / 2 for v in xs]
        eqs = [arr.ssum(ws) / 2 - 1, arr.ssum([v * x for v, x in zip(ws, half)]) - 1]
        for l in range(2, 2 * N, 2):
            eqs.append(arr.ssum([v * lpmv1(0, l, x) for v, x in zip(ws, half)]))
        HYPS.append((frozenset(g for v in ws for mm in v.p for g, _ in mm), [S(e) for e in eqs], "quadrature%d" % N))
    return sarr(xs), sarr(ws)


def _leg_poly(m, l):
    """P_l^m without the (1-x^2)^(m/2) factor: coefficients (ascending) as Fractions, with Condon-Shortley phase"""
    # derivative of order m of P_l
    c = [Fraction(0)] * (l + 1)
    for k in range(l // 2 + 1):
        c[l - 2 * k] = Fraction((-1) ** k * math.comb(l, k) * math.comb(2 * l - 2 * k, l), 2**l)
    for _ in range(m):
        c = [c[i] * i for i in range(1, len(c))] or [Fraction(0)]
    return [(-1) ** m * v for v in c]


def lpmv1(m, l, x):
    m, l = int(m), int(l)
    x = S(x)
    if m > l:
        return sym.ZERO
    if m < 0:
        raise Unsupported("lpmv with negative order")
    isconst = all(sym.GENS[g].kind == "sqrt" and set(sym.GENS[g].arg) == {()} for mm in x.p for g, _ in mm)
    if l == 0 and m == 0:
        return sym.ONE
    if isconst or (l == 1 and m == 0):
        c = _leg_poly(m, l)
        r = sym.ZERO
        for v in reversed(c):
            r = r * x + v
        if m:
            r = r * sym.spow(ssqrt(1 - x * x), m)
        return r
    sign = 1
    p, s = sym._odd_split(x)
    if s < 0:
        sign = (-1) ** (l + m)
        x = Sym(p)

    def rebuild(mm, ll, xx):
        return lpmv1(mm, ll, xx)
    r = sym.fn_gen("P", (m, l, x), lambda em, m=m, l=l, x=x: float(scipy.special.lpmv(m, l, sym.evalf(x, *em))))
    G = sym.GENS[list(r.p)[0][0][0]]
    G.info = rebuild
    return r * sign


def _vec(f, nin):
    uf = np.frompyfunc(f, nin, 1)

    def g(*a, **k):
        r = uf(*[base(sarr(x)) for x in a])
        if isinstance(r, np.ndarray):
            return sarr(r)
        return r
    return g


lpmv = _vec(lpmv1, 3)
eval_legendre = _vec(lambda n, x: lpmv1(0, n, x), 2)


def _poch1(a, n):
    a, n = rat_const(a), rat_const(n)
    # Gamma(a+n)/Gamma(a) for integers
    if Fraction(n).denominator != 1:
        raise Unsupported("poch")
    r = Fraction(1)
    if n >= 0:
        for i in range(n):
            r *= a + i
    else:
        for i in range(1, -n + 1):
            d = a - i
            if d == 0:
                return sym.NAN()
            r /= d
    return sym.nrm(r)


def rat_const(x):
    if isinstance(x, Sym):
        c = x.const()
        if c is None:
            raise Unsupported("symbolic argument where a number is needed")
        return c
    return rat(x)


poch = _vec(_poch1, 2)
factorial = _vec(lambda n, *a: math.factorial(int(rat_const(n))), 1)
gamma_fn = _vec(lambda n: math.factorial(int(rat_const(n)) - 1), 1)
comb = _vec(lambda n, k: math.comb(int(rat_const(n)), int(rat_const(k))), 2)


class Legendre:
    def __init__(self, coef, domain=None, window=None, symbol="x"):
        self.coef = sarr(coef)
        if self.coef.ndim != 1:
            raise ValueError("Coefficient array is not 1-d")

    def __call__(self, x):
        return legval(x, self.coef)


def legval(x, c, tensor=True):
    x, c = sarr(x), sarr(c)
    cc = base(c)
    if c.ndim != 1:
        raise Unsupported("legval with multi-dimensional coefficients")
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = S(arr.ssum([S(cc[l]) * lpmv1(0, l, base(x)[i]) for l in range(len(cc)) if not arr._z(cc[l])]))
    if out.ndim == 0:
        return out[()]
    return out.view(SArr)


def legvander(x, deg):
    x = sarr(x)
    out = np.empty(x.shape + (deg + 1,), dtype=object)
    for i in np.ndindex(*x.shape):
        for l in range(deg + 1):
            out[i + (l,)] = lpmv1(0, l, base(x)[i])
    return out.view(SArr)


def idct(x, type=2, n=None, axis=-1, norm=None, **kw):
    x = sarr(x)
    if x.ndim != 1 or type != 1 or norm is not None or n is not None:
        raise Unsupported("idct variant")
    N = x.shape[0]
    b = base(x)
    out = []
    for k in range(N):
        v = b[0] + (-1) ** k * b[N - 1] + arr.ssum([2 * S(b[j]) * sym.scos(sym.PI * Fraction(j * k, N - 1)) for j in range(1, N - 1)])
        out.append(S(v) / (2 * (N - 1)))
    return sarr(out)


def dct(x, type=2, n=None, axis=-1, norm=None, **kw):
    if type != 1:
        raise Unsupported("dct variant")
    x = sarr(x)
    return idct(x, type=1) * (2 * (x.shape[0] - 1))


def quad_vec(f, a, b, **kw):
    count("quad_vec")
    qv = sym.var("quadvar!", lo=0, los=True)
    r = f(qv)
    shape = np.shape(base(r)) if isinstance(r, np.ndarray) else ()
    r_ = sarr(r)
    out = np.empty(r_.shape, dtype=object)
    for i in np.ndindex(*r_.shape):
        out[i] = integral(S(base(r_)[i]), qv, S(a), S(b))
    res = out.view(SArr) if shape else out[()]
    return res, sym.ZERO


def integral(e, qv, a, b):
    qg = list(qv.p)[0][0][0]
    memo_ = {}
    if not e.p:
        return sym.ZERO

    def ev(em, e=e):
        env, m = em
        m0 = dict(m)

        def g(x):
            mm = {k: v for k, v in m0.items() if not (isinstance(k, int) and sym.gen_contains(k, qg, memo_))}
            env2 = dict(env)
            env2["quadvar!"] = x
            return sym.evalf(e, env2, mm)
        return scipy.integrate.quad(g, sym.evalf(a, env, m), sym.evalf(b, env, m))[0]
    return sym.fn_gen("Int", (e, a, b), ev)


def quad(f, a, b, args=(), **kw):
    qv = sym.var("quadvar!", lo=0, los=True)
    return integral(S(f(qv, *args)), qv, S(a), S(b)), sym.ZERO


class BarycentricInterpolator:
    def __init__(self, xi, yi=None, axis=0, **kw):
        self.xi = [S(x) for x in base(sarr(xi)).reshape(-1)]
        self.yi = None
        if yi is not None:
            self.set_yi(yi)

    def set_yi(self, yi, axis=None):
        y = sarr(yi)
        if y.shape[0] != len(self.xi):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        self.yi = y

    def __call__(self, x):
        shape = np.shape(base(sarr(x)))
        xs = base(sarr(x)).reshape(-1)
        n = len(self.xi)
        rows = []
        for x in xs:
            x = S(x)
            basis = []
            for j in range(n):
                t = sym.ONE
                for k in range(n):
                    if k != j:
                        t = t * sdiv(x - self.xi[k], self.xi[j] - self.xi[k])
                basis.append(t)
            rows.append(arr.matmul(sarr(basis), self.yi.reshape(n, -1)))
        out = sarr([base(sarr(r)) for r in rows]) if rows else arr.empty((0, 1))
        return out.reshape(shape + self.yi.shape[1:])


class LilMatrix:
    """enough of a scipy sparse matrix"""

    def __init__(self, dense):
        self.a = dense
        self.shape = dense.shape

    def setdiag(self, values, k=0):
        v = base(sarr(values))
        n = self.shape[0]
        i0, j0 = (0, k) if k >= 0 else (-k, 0)
        L = min(self.shape[0] - i0, self.shape[1] - j0)
        for i in range(L):
            self.a[i0 + i, j0 + i] = v[i] if v.ndim else v[()]

    def __setitem__(self, i, v):
        self.a[i] = v

    def __getitem__(self, i):
        return self.a[i]

    def tocsr(self, *a, **k):
        return self

    tocsc = tolil = tocoo = asformat = copy = tocsr

    def toarray(self):
        return self.a.copy()

    todense = toarray

    def dot(self, o):
        return arr.matmul(self.a, o)

    __matmul__ = dot

    def __mul__(self, o):
        if isinstance(o, (Sym, int, Fraction)):
            return LilMatrix(self.a * o)
        return self.dot(o)

    def __truediv__(self, o):
        return LilMatrix(self.a / o)

    def __add__(self, o):
        return LilMatrix(self.a + (o.a if isinstance(o, LilMatrix) else o))

    __array_ufunc__ = None


def _sparse_from(x, shape=None, **k):
    if isinstance(x, LilMatrix):
        return x
    if isinstance(x, tuple):
        if len(x) == 2 and all(isinstance(v, (int, np.integer)) for v in x):
            return LilMatrix(arr.zeros(x))
        if len(x) == 2 and isinstance(x[1], tuple) and shape is not None:
            d = arr.zeros(shape)
            for v, i, j in zip(base(sarr(x[0])), *x[1]):
                d[int(i), int(j)] = d[int(i), int(j)] + v
            return LilMatrix(d)
        raise Unsupported("sparse constructor")
    return LilMatrix(sarr(x).copy())


def sp_diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if isinstance(offsets, (int, np.integer)):
        offs = [int(offsets)]
        ds = [sarr(diagonals)] if sarr(diagonals).ndim == 1 else [sarr(d) for d in diagonals]
    else:
        offs = [int(o) for o in offsets]
        ds = [sarr(d) for d in diagonals]
    if shape is None:
        n = len(ds[0]) + abs(offs[0])
        shape = (n, n)
    m = LilMatrix(arr.zeros(shape))
    for d, o in zip(ds, offs):
        d = d.reshape(-1)
        if d.shape[0] == 1:
            d = np.repeat(base(d), min(shape))
        m.setdiag(d, o)
    return m


# --------------------------------------------------------------------------- numpy namespace

def _array(x, dtype=None, copy=None, **kw):
    if arr._native(dtype):
        if isinstance(x, SArr):
            return x.astype(dtype)
        if is_symbolic(x):
            return sarr(x).astype(dtype)
        return np.array(x, dtype=dtype, **{k: v for k, v in kw.items() if k in ("ndmin",)})
    if is_symbolic(x):
        r = sarr(x)
        r = r.copy() if (copy is None or copy) else r
    else:
        if hasattr(x, "toarray"):
            return sarr(x.toarray())
        r = np.array(x)
        if r.dtype.kind == "f":
            r = sarr(r)
        elif r.dtype == object:
            raise Unsupported("object array")
    nd = kw.get("ndmin", 0)
    while r.ndim < nd:
        r = r[None]
    return r


def _asarray(x, dtype=None, *a, **kw):
    if arr._native(dtype):
        return _array(x, dtype)
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray) and x.dtype.kind in "biu":
        return x
    return _array(x, copy=False)


def _atleast(nd):
    def f(*xs):
        out = []
        for x in xs:
            r = _asarray(x)
            if nd == 1:
                r = r.reshape(1) if r.ndim == 0 else r
            elif nd == 2:
                if r.ndim == 0:
                    r = r.reshape(1, 1)
                elif r.ndim == 1:
                    r = r[None, :]
            out.append(r)
        return out[0] if len(out) == 1 else tuple(out)
    return f


def _like(fill):
    def f(a, *args, **kw):
        a = np.shape(base(a)) if isinstance(a, np.ndarray) else np.shape(base(sarr(a)))
        dt = kw.get("dtype")
        return {"zeros": arr.zeros, "ones": arr.ones, "empty": arr.empty}[fill](kw.get("shape") or a, dt)
    return f


def _full(shape, v, dtype=None, order="C"):
    if isinstance(shape, (int, np.integer)):
        shape = (int(shape),)
    r = arr.zeros(shape)
    r[...] = v
    return r


def _full_like(a, v, **kw):
    return _full(np.shape(base(a)) if isinstance(a, np.ndarray) else (), v)


def _eye(n, m=None, k=0, **kw):
    return sarr(np.eye(n, m, k, dtype=int))


def _arange(*a, **kw):
    if any(isinstance(x, Sym) for x in a):
        a = [int(x) for x in a]
    dt = kw.pop("dtype", None)
    r = np.arange(*a)
    if r.dtype.kind == "f" or (dt is not None and not arr._native(dt)):
        return sarr(r)
    return r if dt is None else r.astype(dt)


def _linspace(a, b, n=50, endpoint=True, **kw):
    n = int(n)
    a, b = S(a), S(b)
    d = n - 1 if endpoint else n
    return sarr([a + (b - a) * Fraction(i, d) for i in range(n)] if n > 1 else [a])


def _reduce(name):
    uf = getattr(np, name)

    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=np._NoValue, **kw):
        if keepdims is np._NoValue:
            keepdims = False
        if isinstance(a, np.ndarray) and a.dtype != object and a.dtype.kind != "f":
            r = uf.reduce(a, axis=axis, keepdims=keepdims) if name not in ("logical_or", "logical_and") else (
                np.any(a, axis=axis, keepdims=keepdims) if name == "logical_or" else np.all(a, axis=axis, keepdims=keepdims))
            return r
        if hasattr(a, "__next__"):
            a = list(a)
        return array_ufunc(uf, "reduce", (sarr(a),), dict(axis=axis, keepdims=keepdims, initial=initial,
                                                         where=True if where is np._NoValue else where, out=out))
    return f


def _accum(name):
    uf = getattr(np, name)

    def f(a, axis=None, dtype=None, out=None):
        if isinstance(a, np.ndarray) and a.dtype != object and a.dtype.kind != "f":
            return uf.accumulate(a.ravel() if axis is None else a, axis=0 if axis is None else axis)
        a = sarr(a)
        if axis is None:
            a = a.ravel()
            axis = 0
        return array_ufunc(uf, "accumulate", (a,), dict(axis=axis))
    return f


def _isscalar(x):
    return isinstance(x, (Sym, Fraction)) or np.isscalar(x)


def _isclose(a, b, rtol=1e-05, atol=1e-08, **kw):
    a, b = sarr(a), sarr(b)
    r = abs(a - b) <= abs(b) * rat(rtol) + rat(atol)
    return r


def _allclose(a, b, rtol=1e-05, atol=1e-08, **kw):
    return bool(sym._b(_reduce("logical_and")(sarr(_isclose(a, b, rtol, atol)))))


def _array_equal(a, b, **kw):
    a, b = sarr(a), sarr(b)
    if a.shape != b.shape:
        return False
    return bool(sym._b(sym.s_and(list(base(sarr(a == b)).reshape(-1)))))


def _searchsorted(a, v, side="left", sorter=None):
    a = sarr(a)
    n = a.shape[0]
    A = base(a)

    def one(x):
        k = 0
        while k < n:
            c = (S(A[k]) < S(x)) if side == "left" else (S(A[k]) <= S(x))
            if not bool(sym._b(c)):
                break
            k += 1
        return k
    if isinstance(v, (Sym, int, float, Fraction, np.number)):
        return one(v)
    v = sarr(v)
    out = np.empty(v.shape, dtype=int)
    for i in np.ndindex(*v.shape):
        out[i] = one(base(v)[i])
    return out if out.ndim else int(out)


def _digitize(x, bins, right=False):
    return _searchsorted(bins, x, side="left" if right else "right")


def _interp(x, xp, fp, left=None, right=None, period=None):
    if not any(is_symbolic(y) for y in (x, xp, fp)):
        return np.interp(x, xp, fp, left, right, period)
    if period is not None:
        raise Unsupported("interp")
    x, xp, fp = sarr(x), sarr(xp), sarr(fp)
    n = xp.shape[0]
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        v = base(x)[i]
        k = int(_searchsorted(xp, v, side="left"))
        if k == 0:
            out[i] = fp[0] if left is None or bool(sym._b(S(v) == xp[0])) else left
        elif k >= n:
            out[i] = fp[n - 1] if right is None else right
        else:
            out[i] = fp[k - 1] + (fp[k] - fp[k - 1]) * (v - xp[k - 1]) / (xp[k] - xp[k - 1])
    return out.view(SArr) if out.ndim else out[()]


def _vectorize(f, otypes=None, signature=None, excluded=None, **k):
    if signature is not None or excluded:
        raise Unsupported("vectorize with signature")

    def g(*a):
        a = [base(sarr(x)) for x in a]
        sh = np.broadcast_shapes(*[x.shape for x in a])
        a = [np.broadcast_to(x, sh) for x in a]
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            out[i] = f(*[x[i] for x in a])
        return sarr(out) if out.ndim else out[()]
    return g


def _fromiter(it, dtype=None, count=-1, **k):
    return sarr(list(it))


def _norm(a, ord=None, axis=None, keepdims=False):
    a = sarr(a)
    if ord not in (None, 2, "fro") or (ord == 2 and a.ndim == 2 and axis is None):
        raise Unsupported("norm of order %s" % (ord,))
    return UfuncShim(np.sqrt)(_sum(a * a, axis=axis, keepdims=keepdims))


def _multi_dot(ms, **k):
    r = sarr(ms[0])
    for m in ms[1:]:
        r = arr.matmul(r, sarr(m))
    return r


def _matrix_power(m, n):
    if n < 0:
        m, n = inv(m), -n
    r = None
    for _ in range(n):
        r = sarr(m) if r is None else arr.matmul(r, m)
    return _eye(sarr(m).shape[-1]) if r is None else r


def _window(x, window_shape, axis=None, **k):
    return np.lib.stride_tricks.sliding_window_view(base(sarr(x)), window_shape, axis=axis).view(SArr)


def _polyvander(x, deg):
    x = sarr(x)
    return np.stack([x**k for k in range(deg + 1)], axis=-1)


def _block(x):
    if not is_symbolic(x):
        return np.block(x)
    f = lambda y: [f(z) for z in y] if isinstance(y, list) else base(sarr(y))
    return np.block(f(x)).view(SArr)


def _issubdtype(a, b):
    f = lambda t: np.float64 if t is F64 or t is SFloat or t is object or t == np.dtype(object) else t
    return np.issubdtype(f(a), f(b))


def _unique(a, *args, **kw):
    if isinstance(a, np.ndarray) and a.dtype != object:
        return np.unique(a, *args, **kw)
    if is_symbolic(a) or has_float(a):
        b = base(sarr(a)).reshape(-1)
        if all(type(x) is int for x in b):
            return np.unique(np.array(list(b), dtype=int), *args, **kw)
        raise Unsupported("unique of symbolic values")
    return np.unique(a, *args, **kw)


def _size(a, axis=None):
    if isinstance(a, np.ndarray):
        return a.size if axis is None else a.shape[axis]
    return sarr(a).size if axis is None else sarr(a).shape[axis]


def _shape(a):
    if isinstance(a, (np.ndarray, Sym)):
        return a.shape
    if hasattr(a, "shape"):
        return a.shape
    if is_symbolic(a):
        return sarr(a).shape
    return np.shape(a)


def _ndim(a):
    return len(_shape(a))


def _diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = _asarray(a)
    parts = []
    if prepend is not np._NoValue:
        p = _asarray(prepend)
        parts.append(sarr(p).reshape([1 if i == axis % a.ndim else s for i, s in enumerate(a.shape)]) if p.ndim == 0 else sarr(p))
    parts.append(sarr(a))
    if append is not np._NoValue:
        p = _asarray(append)
        parts.append(sarr(p).reshape([1 if i == axis % a.ndim else s for i, s in enumerate(a.shape)]) if p.ndim == 0 else sarr(p))
    a = np.concatenate([base(x) for x in parts], axis=axis).view(SArr)
    for _ in range(n):
        b = np.moveaxis(a, axis, -1)
        a = np.moveaxis(b[..., 1:] - b[..., :-1], -1, axis)
    return a


def _squeeze(a, axis=None):
    if isinstance(a, Sym):
        return sarr(a)
    a = _asarray(a)
    return a.squeeze() if axis is None else a.squeeze(axis)


def _dot(a, b):
    a, b = _asarray(a), _asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return sarr(a) * b
    if b.ndim > 2:
        raise Unsupported("dot")
    return arr.matmul(a, b)


def _outer(a, b, out=None):
    a, b = sarr(a).ravel(), sarr(b).ravel()
    return a[:, None] * b[None, :]


def _trace(a, *args, **k):
    return arr.ssum([sarr(a)[i, i] for i in range(min(sarr(a).shape))])


def _diagonal_guard(*a, **k):
    raise Unsupported("diag")


def _diag(v, k=0):
    v = sarr(v)
    if v.ndim == 1:
        n = v.shape[0] + abs(k)
        r = arr.zeros((n, n))
        for i in range(v.shape[0]):
            r[i + max(0, -k), i + max(0, k)] = base(v)[i]
        return r
    return sarr(np.diag(base(v), k))


def _count_nonzero(a, *args, **k):
    return int(np.count_nonzero(arr.realize(sarr(a) != 0) if not isinstance(sarr(a).reshape(-1)[0], (SymBool, bool)) else arr.realize(sarr(a))))


def _nonzero(a):
    return np.nonzero(arr.realize(sarr(a)))


def _polyval(p, x):
    p = list(base(sarr(p)))
    x = sarr(x)
    r = arr.zeros(x.shape)
    for c in p:
        r = r * x + c
    return r if x.ndim else r[()]


def _poly_polyval(x, c, tensor=True):
    c = sarr(c)
    if c.ndim != 1:
        raise Unsupported("polyval")
    return _polyval(c[::-1], x)


def _nan_to_num(x, **k):
    return sarr(x)


def _round(x, *a, **k):
    if not is_symbolic(x):
        return np.round(np.asarray(base(sarr(x)), dtype=float) if isinstance(x, SArr) else x, *a)
    n = a[0] if a else k.get("decimals", 0)
    return np_shim.rint(x * 10**n) / 10**n if n >= 0 else np_shim.rint(x / 10**-n) * 10**-n


def _ordering(a):
    """permutation that sorts a one-dimensional array, decided comparison by comparison"""
    import functools
    b = [S(x) for x in base(sarr(a))]
    return sorted(range(len(b)), key=functools.cmp_to_key(lambda i, j: 0 if bool(sym._b(b[i] == b[j])) else (-1 if bool(sym._b(b[i] < b[j])) else 1)))


def _sort(a, axis=-1, **k):
    if isinstance(a, np.ndarray) and a.dtype != object:
        return np.sort(a, axis)
    if sarr(a).ndim != 1:
        raise Unsupported("sort")
    return sarr(a)[np.array(_ordering(a), dtype=int)]


def _argsort(a, axis=-1, **k):
    if isinstance(a, np.ndarray) and a.dtype != object:
        return np.argsort(a, axis)
    if sarr(a).ndim != 1:
        raise Unsupported("argsort")
    return np.array(_ordering(a), dtype=int)


def _clip(a, lo=None, hi=None, **k):
    return sarr(a).clip(lo, hi)


def _as_strided(x, shape=None, strides=None, subok=False, writeable=True):
    from numpy.lib.stride_tricks import as_strided as real
    if isinstance(x, SArr):
        r = real(base(x), shape=shape, strides=strides, writeable=writeable)
        return r.view(SArr)
    return real(x, shape=shape, strides=strides, subok=subok, writeable=writeable)


def _take(a, indices, axis=None, out=None, mode="raise"):
    a = sarr(a)
    return np.take(base(a), arr._ri(indices), axis=axis).view(SArr) if not np.isscalar(indices) or axis is not None else a.reshape(-1)[indices]


def _copy(a, **k):
    a = _asarray(a)
    return a.copy()


def _tensordot(a, b, axes=2):
    a, b = sarr(a), sarr(b)
    if isinstance(axes, int):
        ax_a = list(range(a.ndim - axes, a.ndim))
        ax_b = list(range(axes))
    else:
        ax_a, ax_b = axes
        ax_a = [ax_a] if isinstance(ax_a, int) else list(ax_a)
        ax_b = [ax_b] if isinstance(ax_b, int) else list(ax_b)
    ax_a = [x % a.ndim for x in ax_a]
    ax_b = [x % b.ndim for x in ax_b]
    ra = [i for i in range(a.ndim) if i not in ax_a]
    rb = [i for i in range(b.ndim) if i not in ax_b]
    A = a.transpose(ra + ax_a).reshape(int(np.prod([a.shape[i] for i in ra], initial=1)), -1)
    B = b.transpose(ax_b + rb).reshape(-1, int(np.prod([b.shape[i] for i in rb], initial=1)))
    return sarr(arr.matmul(A, B)).reshape([a.shape[i] for i in ra] + [b.shape[i] for i in rb])


def _sum(a, axis=None, *args, **kw):
    if hasattr(a, "__next__"):
        a = list(a)
    return _reduce("add")(a, axis, *args, **kw)


def _average(a, axis=None, weights=None, **k):
    a = sarr(a)
    if weights is None:
        return a.mean(axis)
    w = sarr(weights)
    return (a * w).sum(axis) / w.sum(axis if w.ndim == a.ndim else None)


def _trapz(y, x=None, dx=1.0, axis=-1):
    y = sarr(y)
    d = _diff(x) if x is not None else rat(dx)
    y = np.moveaxis(y, axis, -1)
    return (d * (y[..., 1:] + y[..., :-1]) / 2).sum(-1)


def _real_if_close(x, *a, **k):
    return x


def _iscomplexobj(x):
    return False


SPECIAL.update(
    array=_array, asarray=_asarray, asanyarray=_asarray, ascontiguousarray=_asarray, asfortranarray=_asarray,
    atleast_1d=_atleast(1), atleast_2d=_atleast(2),
    zeros=arr.zeros, ones=arr.ones, empty=arr.empty, zeros_like=_like("zeros"), ones_like=_like("ones"),
    empty_like=_like("empty"), full=_full, full_like=_full_like, eye=_eye, identity=_eye,
    arange=_arange, linspace=_linspace, einsum=arr.einsum, where=arr.where,
    any=_reduce("logical_or"), all=_reduce("logical_and"), max=_reduce("maximum"), amax=_reduce("maximum"),
    min=_reduce("minimum"), amin=_reduce("minimum"), sum=_sum, prod=_reduce("multiply"),
    nanmax=_reduce("maximum"), nansum=_sum,
    cumsum=_accum("add"), cumprod=_accum("multiply"), argmax=arr.argmax,
    argmin=lambda a, axis=None, **k: arr.argmax(a, axis, minimum=True),
    isscalar=_isscalar, isclose=_isclose, allclose=_allclose, array_equal=_array_equal,
    searchsorted=_searchsorted, digitize=_digitize, interp=_interp, unique=_unique, size=_size, shape=_shape,
    ndim=_ndim, diff=_diff, squeeze=_squeeze, dot=_dot, outer=_outer, inner=lambda a, b: arr.matmul(a, sarr(b).T),
    trace=_trace, diag=_diag, count_nonzero=_count_nonzero, nonzero=_nonzero, flatnonzero=lambda a: _nonzero(sarr(a).ravel())[0],
    polyval=_polyval, nan_to_num=_nan_to_num, round=_round, around=_round, sort=_sort, argsort=_argsort, vectorize=_vectorize, block=_block, fromiter=_fromiter, issubdtype=_issubdtype, clip=_clip,
    take=_take, copy=_copy, tensordot=_tensordot, average=_average, mean=lambda a, axis=None, **k: sarr(a).mean(axis),
    trapezoid=_trapz, trapz=_trapz, real_if_close=_real_if_close, iscomplexobj=_iscomplexobj,
    real=lambda x: x, matmul=arr.matmul, vdot=_dot, as_strided=_as_strided,
    iscomplex=lambda x: False, isrealobj=lambda x: True,
)
# functions that must stay native when their arguments are native
_NATIVE_OK = {"arange", "shape", "size", "ndim", "isscalar", "any", "all", "unique", "sum", "prod", "max", "min", "amax",
              "amin", "cumsum", "cumprod", "nonzero", "where", "diff"}


class UfuncShim:
    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        uf = self._uf
        if not is_symbolic(a) and not is_symbolic(list(k.values())) and not has_float(a):
            if uf.__name__ in ("add", "subtract", "multiply", "less", "less_equal", "greater", "greater_equal", "equal",
                               "not_equal", "logical_and", "logical_or", "logical_not", "invert", "negative", "maximum",
                               "minimum", "absolute", "remainder", "mod", "floor_divide", "bitwise_and", "bitwise_or",
                               "isfinite", "isnan"):
                return uf(*a, **k)
        if uf.__name__ == "matmul":
            return arr.matmul(*a)
        if len(a) > uf.nin:
            k = dict(k, out=a[uf.nin])
            a = a[:uf.nin]
        if "out" in k and not isinstance(k["out"], tuple) and k["out"] is not None:
            k["out"] = (k["out"],)
        if k.get("out") is None:
            k.pop("out", None)
        return array_ufunc(uf, "__call__", a, k)

    def reduce(self, a, axis=0, **k):
        return array_ufunc(self._uf, "reduce", (sarr(a),), dict(axis=axis, **k))

    def accumulate(self, a, axis=0, **k):
        return array_ufunc(self._uf, "accumulate", (sarr(a),), dict(axis=axis))

    def outer(self, a, b, **k):
        return array_ufunc(self._uf, "outer", (sarr(a), sarr(b)), {})

    def at(self, a, i, b=None):
        return array_ufunc(self._uf, "at", (a, i, b), {})


class F64(float):
    """np.float64: a conversion, or (as dtype=) object"""
    def __new__(cls, x=0):
        return S(x)


class NS:
    """module look-alike"""

    def __init__(self, name, table, fallback=None):
        self.__dict__["_n"] = name
        self.__dict__["_t"] = table
        self.__dict__["_f"] = fallback
        self.__dict__["_cache"] = {}

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            if a == "__name__":
                return self._n
            raise AttributeError(a)
        t = self._t
        if a in t:
            return t[a]
        c = self._cache
        if a in c:
            return c[a]
        f = self._f
        if f is not None and hasattr(f, a):
            r = c[a] = wrap_attr(self._n, a, getattr(f, a))
            return r
        raise AttributeError("module '%s' has no attribute '%s'" % (self._n, a))


def wrap_attr(mod, name, x):
    if isinstance(x, np.ufunc):
        return UfuncShim(x)
    if isinstance(x, (float, np.floating)):
        return x
    if isinstance(x, types.ModuleType):
        return NS(mod + "." + name, {}, x)
    if isinstance(x, type):
        return x
    if callable(x):
        def f(*a, **k):
            if mod == "numpy":
                h = SPECIAL.get(name)
                if h is not None:
                    return h(*a, **k)
                a = [prep(y) for y in a]
                k = {kk: prep(y) for kk, y in k.items()}
                return out_wrap(x(*a, **k))
            if is_symbolic(list(a)) or is_symbolic(list(k.values())):
                raise Unsupported("%s.%s on symbolic values" % (mod, name))
            return out_wrap(x(*a, **k))
        f.__name__ = name
        return f
    return x


np_legendre = NS("numpy.polynomial.legendre", dict(leggauss=leggauss, Legendre=Legendre, legval=legval, legvander=legvander), np.polynomial.legendre)
np_polynomial = NS("numpy.polynomial", dict(legendre=np_legendre, Legendre=Legendre,
                                            polynomial=NS("numpy.polynomial.polynomial", dict(polyval=_poly_polyval, polyvander=_polyvander), np.polynomial.polynomial)), np.polynomial)
np_linalg = NS("numpy.linalg", dict(eig=eig, inv=inv, solve=solve, det=det, eigvals=lambda a: eig(a)[0],
                                    LinAlgError=np.linalg.LinAlgError, norm=_norm, multi_dot=_multi_dot, matrix_power=_matrix_power), np.linalg)
np_stride = NS("numpy.lib.stride_tricks", dict(as_strided=_as_strided, sliding_window_view=_window), np.lib.stride_tricks)
np_lib = NS("numpy.lib", dict(stride_tricks=np_stride), np.lib)


class _PiTable(dict):
    def __contains__(self, k):
        return k == "pi" or dict.__contains__(self, k)

    def __getitem__(self, k):
        if k == "pi":
            return sym.PI
        return dict.__getitem__(self, k)


np_shim = NS("numpy", _PiTable(dict(SPECIAL, polynomial=np_polynomial, linalg=np_linalg, lib=np_lib, ndarray=np.ndarray,
                                    newaxis=None, float64=F64, float32=F64, double=F64, longdouble=F64, float_=F64)), np)

sc_special = NS("scipy.special", dict(lpmv=lpmv, poch=poch, factorial=factorial, gamma=gamma_fn, comb=comb, binom=comb,
                                      eval_legendre=eval_legendre), scipy.special)
sc_linalg = NS("scipy.linalg", dict(solve_banded=solve_banded, pascal=scipy.linalg.pascal, solve=sc_solve, inv=inv, eig=eig,
                                    lu_factor=lu_factor, lu_solve=lu_solve, det=det), scipy.linalg)
sc_fft = NS("scipy.fft", dict(idct=idct, dct=dct), None)
sc_integrate = NS("scipy.integrate", dict(quad_vec=quad_vec, quad=quad), None)
sc_interpolate = NS("scipy.interpolate", dict(BarycentricInterpolator=BarycentricInterpolator, barycentric_interpolate=lambda xi, yi, x, axis=0, **k: BarycentricInterpolator(xi, yi, axis)(x)), None)
sc_sparse = NS("scipy.sparse", dict(diags=sp_diags, diags_array=lambda d, offsets=0, **k: sp_diags(d, offsets, **k),
                                    lil_matrix=lambda s, **k: LilMatrix(arr.zeros(s)), lil_array=lambda s, **k: LilMatrix(arr.zeros(s)), **{k: _sparse_from for k in
                               ("csr_matrix", "csr_array", "csc_matrix", "csc_array", "dok_matrix", "coo_matrix", "coo_array", "bsr_matrix")}), None)


class _Consts:
    def __getattr__(self, k):
        if k in ("h", "Planck"):
            return sym.var("const_h")
        if k in ("c", "speed_of_light"):
            return sym.var("const_c")
        if k in ("k", "Boltzmann"):
            return sym.var("const_k")
        if k == "pi":
            return sym.PI
        return S(getattr(scipy.constants, k))


sc_constants = _Consts()
sc_shim = NS("scipy", dict(special=sc_special, linalg=sc_linalg, fft=sc_fft, integrate=sc_integrate, interpolate=sc_interpolate,
                           sparse=sc_sparse, constants=sc_constants), None)


def _m1(f):
    def g(x):
        if isinstance(x, (Sym,)):
            return f(x)
        return f(S(x))
    return g


class _MathTable(_PiTable):
    pass


def _whole(f):
    def g(x):
        v = f(x)
        c = v.const() if isinstance(v, Sym) else v
        return v if c is None else int(c)
    return g


math_shim = NS("math", _MathTable(dict(log=lambda x, b=None: sym.slog(S(x)) if b is None else sym.slog(S(x)) / sym.slog(S(b)),
                                      log1p=arr.sc_log1p, floor=_whole(arr.sc_floor), ceil=_whole(arr.sc_ceil),
                                      trunc=_whole(arr.sc_trunc), fmod=arr.sc_fmod, exp=_m1(sym.sexp), sqrt=_m1(ssqrt), cos=_m1(sym.scos), sin=_m1(sym.ssin), factorial=math.factorial,
                                      comb=math.comb, isnan=arr.sc_isnan, isfinite=lambda x: True, fabs=lambda x: abs(x), fsum=lambda xs: arr.ssum([S(x) for x in xs]), prod=lambda xs, start=1: functools.reduce(lambda a, b: a * b, xs, start),
                                      pow=lambda a, b: S(a)**b, hypot=lambda *xs: ssqrt(sum(S(x) * S(x) for x in xs)),
                                      isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(sym._b(abs(S(a) - S(b)) <= rat(abs_tol)))
                                      )), math)


class WarnShim:
    def warn(self, *a, **k):
        cat = k.get("category", a[1] if len(a) > 1 else None) or UserWarning
        if isinstance(cat, type) and issubclass(cat, UserWarning):
            WARNINGS.append(str(a[0]) if a else "")

    def simplefilter(self, *a, **k):
        pass

    filterwarnings = simplefilter

    class catch_warnings:
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return []

        def __exit__(self, *a):
            return False


class GuardNS:
    """numpy, as functions that know of values under differentiation"""

    def __init__(self, rule):
        self._cache = {}
        self._rule = rule

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__") or a in ("_cache", "_rule"):
            raise AttributeError(a)
        if a in self._cache:
            return self._cache[a]
        f = getattr(np_shim, a)
        if callable(f) and not isinstance(f, (type, NS)):
            g, rule = f, self._rule

            def f(*args, **kw):
                return rule(a, g, args, kw)
            if isinstance(g, UfuncShim):
                f = UfuncGuard(g, f)
            else:
                f.__name__ = a
            self._cache[a] = f
        return f


class UfuncGuard:
    def __init__(self, g, f):
        self._g, self._f = g, f

    def __call__(self, *a, **k):
        return self._f(*a, **k)

    def __getattr__(self, a):
        return getattr(self._g, a)


agrad.NS0["np"] = np_shim
autograd_shim = NS("autograd", dict(numpy=GuardNS(agrad.call)), None)
MODULES = {"numpy": GuardNS(agrad.plain), "scipy": sc_shim, "math": math_shim, "warnings": WarnShim(), "autograd": autograd_shim}


# --------------------------------------------------------------------------- loading the real source

class Package:
    """PythonicDISORT executed from the repository's current source through the shims"""

    def __init__(self, root=None):
        self.root = os.path.join(root or CONFIG["repo"], "src")
        self.mods = {}
        self.files = []

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        up = name.rpartition(".")[0]
        if up and up not in self.mods:
            self.load(up)
            if name in self.mods:
                return self.mods[name]
        rel = name.replace(".", "/")
        d = os.path.join(self.root, rel)
        if os.path.isdir(d):
            path, ispkg = os.path.join(d, "__init__.py"), True
        else:
            path, ispkg = d + ".py", False
        if not os.path.exists(path):
            raise ModuleNotFoundError("No module named '%s'" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [d]
        b = dict(vars(builtins))
        b["__import__"] = self._import
        b["float"] = SFloat
        m.__dict__["__builtins__"] = b
        self.mods[name] = m
        self.files.append(path)
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        exec(compile(src, path, "exec"), m.__dict__)
        par, _, child = name.rpartition(".")
        if par and par in self.mods:
            setattr(self.mods[par], child, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = (pkg + "." + name) if name else pkg
        top = name.split(".")[0]
        if top == "PythonicDISORT":
            self.load(top)
            parts = name.split(".")
            for i in range(2, len(parts) + 1):
                self.load(".".join(parts[:i]))
            if fromlist:
                mod = self.mods[name]
                for f in fromlist:
                    if f != "*" and not hasattr(mod, f) and hasattr(mod, "__path__"):
                        try:
                            self.load(name + "." + f)
                        except ModuleNotFoundError:
                            pass
                return mod
            return self.mods[top]
        if top in MODULES:
            m = MODULES[top]
            if fromlist:
                for p in name.split(".")[1:]:
                    m = getattr(m, p)
            return m
        return builtins.__import__(name, globals, locals, fromlist, level)


class _SFloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))


class SFloat(float, metaclass=_SFloatMeta):
    """float as seen by the code under test: keeps symbolic values symbolic"""
    def __new__(cls, x=0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray) and x.size == 1:
            return S(x.reshape(-1)[0])
        return float(x)


reset()
