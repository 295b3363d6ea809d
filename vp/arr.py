"""Object arrays of exact symbolic scalars that numpy's own machinery operates on.

`SArr` is an ndarray subclass (dtype object): indexing, views, reshaping,
broadcasting, concatenation, strides ... are numpy's; every ufunc goes through
`array_ufunc`, which applies exact scalar operations.
"""
import math
from fractions import Fraction

import numpy as np

from . import sym
from .sym import Sym, SymBool, Unsupported, S, rat, sdiv, spow, sexp, ssqrt, scos, ssin, sabs, s_and, s_or, s_not, _b


class SArr(np.ndarray):
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return np_dispatch(func, args, kwargs)

    def __getitem__(self, idx):
        r = super().__getitem__(real_index(idx))
        return r

    def __setitem__(self, idx, val):
        idx = real_index(idx)
        if isinstance(val, np.ndarray):
            val = base(sarr(val))
            super().__setitem__(idx, val)
        elif isinstance(val, (list, tuple)):
            super().__setitem__(idx, base(sarr(val)))
        else:
            cell = np.empty((), dtype=object)
            cell[()] = scal(val)
            super().__setitem__(idx, cell)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.reshape(-1)[0])

    def __float__(self):
        return float(self.reshape(-1)[0])

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if return_scalar and arr.ndim == 0:
            return arr[()]
        return arr.view(SArr)

    # methods that would use C loops over Python objects in a way we do not want
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return array_ufunc(np.add, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return array_ufunc(np.multiply, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        s = self.sum(axis=axis, keepdims=keepdims)
        n = self.size if axis is None else self.shape[axis]
        return s / n

    def any(self, axis=None, out=None, keepdims=False, **k):
        return array_ufunc(np.logical_or, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def all(self, axis=None, out=None, keepdims=False, **k):
        return array_ufunc(np.logical_and, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return array_ufunc(np.maximum, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def min(self, axis=None, out=None, keepdims=False, **k):
        return array_ufunc(np.minimum, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def cumsum(self, axis=None, dtype=None, out=None):
        a = self.ravel() if axis is None else self
        return array_ufunc(np.add, "accumulate", (a,), dict(axis=0 if axis is None else axis))

    def cumprod(self, axis=None, dtype=None, out=None):
        a = self.ravel() if axis is None else self
        return array_ufunc(np.multiply, "accumulate", (a,), dict(axis=0 if axis is None else axis))

    def dot(self, o):
        return matmul(self, o)

    def argmax(self, axis=None, out=None, **k):
        return argmax(self, axis)

    def argmin(self, axis=None, out=None, **k):
        return argmax(self, axis, minimum=True)

    def astype(self, dtype, *a, **k):
        try:
            dt = np.dtype(dtype)
        except TypeError:
            return self.copy()
        if dt.kind == "b":
            return realize(self)
        if dt.kind in "iu":
            return np.array([int(x) for x in self.ravel()], dtype=dt).reshape(self.shape)
        return self.copy()

    def tobytes(self, *a):
        """content, usable as a key"""
        return repr([hash(x) for x in np.asarray(self, dtype=object).reshape(-1)]).encode()

    def tolist(self):
        return super().tolist()

    def nonzero(self):
        return np.nonzero(realize(self))

    def conj(self):
        return self

    conjugate = conj

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = np.maximum(r, lo)
        if hi is not None:
            r = np.minimum(r, hi)
        return r

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return zeros(self.shape)

    def fill(self, v):
        self[...] = v


def scal(x):
    """canonical scalar stored in an SArr"""
    t = type(x)
    if t is Sym or t is int or t is SymBool or t is bool:
        return x
    if isinstance(x, np.ndarray):
        if x.size == 1:
            return scal(x.reshape(-1)[0])
        raise ValueError("setting an array element with a sequence.")
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if x is None:
        return None
    if isinstance(x, (float, np.floating)) and math.isinf(x):
        return sym.INF(1 if x > 0 else -1)
    if isinstance(x, (float, np.floating)) and math.isnan(x):
        return sym.NAN()
    try:
        return rat(x)
    except TypeError:
        raise Unsupported("array element of type %s" % type(x))


def base(a):
    return a.view(np.ndarray) if isinstance(a, np.ndarray) else a


def sarr(x):
    """anything array-like -> SArr of canonical scalars"""
    if type(x) is SArr:
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            f, g = out.reshape(-1), x.reshape(-1)
            for i in range(g.size):
                f[i] = scal(g[i])
            return out.view(SArr)
        out = np.empty(x.shape, dtype=object)
        if x.size:
            it = np.nditer(x, flags=["multi_index"])
            for v in it:
                out[it.multi_index] = scal(v[()])
        return out.view(SArr)
    if isinstance(x, (list, tuple)):
        parts = [sarr(e) for e in x]
        if not parts:
            return np.empty((0,), dtype=object).view(SArr)
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape.")
        out = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            out[i] = base(p) if sh else p[()]
        return out.view(SArr)
    if hasattr(x, "toarray"):
        return sarr(x.toarray())
    out = np.empty((), dtype=object)
    out[()] = scal(x)
    return out.view(SArr)


def is_symbolic(x):
    if isinstance(x, (Sym, SymBool, SArr, Fraction)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(is_symbolic(e) for e in x)
    return False


def has_float(x):
    if isinstance(x, (float, np.floating)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype.kind == "f"
    if isinstance(x, (list, tuple)):
        return any(has_float(e) for e in x)
    return False


def out_wrap(r):
    """results of numpy functions: object or float arrays become SArr"""
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return r if type(r) is SArr else sarr(r)
        if r.dtype.kind == "f":
            return sarr(r)
        return r
    if isinstance(r, tuple) and type(r) is not tuple:      # named tuples
        return r
    if isinstance(r, (list, tuple)):
        return type(r)(out_wrap(e) for e in r)
    if isinstance(r, np.floating):
        return S(r)
    return r


def realize(a):
    """array of (symbolic) booleans -> native bool array, forking as needed"""
    if not isinstance(a, np.ndarray):
        return bool(_b(a))
    out = np.empty(a.shape, dtype=bool)
    f, g = out.reshape(-1), base(a).reshape(-1)
    for i in range(g.size):
        f[i] = bool(_b(g[i]))
    return f.reshape(a.shape)


def _ri(i):
    if isinstance(i, SArr):
        if i.size and isinstance(i.reshape(-1)[0], (SymBool, bool)):
            return realize(i)
        if i.size == 0:
            return np.zeros(i.shape, dtype=int)
        return np.array([int(x) for x in base(i).reshape(-1)], dtype=int).reshape(i.shape)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, Sym):
        return int(i)
    if isinstance(i, list):
        return [_ri(x) for x in i]
    return i


def real_index(idx):
    if isinstance(idx, tuple):
        return tuple(_ri(i) for i in idx)
    return _ri(idx)


# --------------------------------------------------------------------------- scalar functions

def sc_add(a, b):
    return a + b


def _n(x):
    if isinstance(x, (Sym, int, Fraction)) and not isinstance(x, bool):
        return x
    return scal(x) if not isinstance(x, (SymBool, bool)) else int(bool(_b(x)))


def sc_div(a, b):
    a, b = _n(a), _n(b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return sdiv(a, b)
    if b == 0:
        return sym.NAN()
    return sym.nrm(Fraction(a) / b)


def sc_pow(a, b):
    a, b = _n(a), _n(b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return spow(a, b)
    r = spow(a, b)
    c = r.const()
    return r if c is None else c


def sc_mul(a, b):
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return s_and([a, b])
    a, b = _n(a), _n(b)
    return a * b


def sc_addd(a, b):
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return s_or([a, b])
    return _n(a) + _n(b)


def sc_cmp(op):
    def f(a, b):
        a, b = _n(a), _n(b)
        ia, ib = sym.is_inf(a), sym.is_inf(b)
        if ia != ib:
            return {"<": ia < ib, "<=": ia < ib, ">": ia > ib, ">=": ia > ib, "==": False, "!=": True}[op]
        r = {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
             "==": lambda: a == b, "!=": lambda: a != b}[op]()
        return r
    return f


def sc_eq(a, b):
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return bool(_b(a)) == bool(_b(b))
    a, b = _n(a), _n(b)
    return a == b


def sc_ne(a, b):
    return s_not(sc_eq(a, b))


def sc_abs(a):
    a = _n(a)
    return sabs(a) if isinstance(a, Sym) else abs(a)


def _wrap1(f):
    def g(a):
        return f(S(_n(a)))
    return g


LAZY_WHERE = [False]     # masked operations (where=) select lazily instead of exploring both sides of every mask element
ITEREG = []      # (generator, condition, value if true, value if false)


def sc_ite(b, x, y):
    """x if b else y, as one symbol (b an undecided atom)"""
    x, y = S(_n(x)), S(_n(y))
    if ITEREG:
        # choices on the same condition inside the alternatives are decided by it
        same = [(g, u, v) for g, c, u, v in ITEREG if c.t[0] == b.t[0] and S(c.t[1]).p == S(b.t[1]).p]
        if same:
            x = sym.subs(x, {g.gid: u for g, u, v in same})
            y = sym.subs(y, {g.gid: v for g, u, v in same})
    if x.p == y.p:
        return x
    key = ("ite", b.t[0], frozenset(S(b.t[1]).p.items()), frozenset(x.p.items()), frozenset(y.p.items()))
    G = sym._intern.get(key)
    if G is None:
        G = sym.Gen("var", "ite#%d" % len(ITEREG))

        def ev(em):
            env, memo = em
            return sym.evalf(x if sym.eval_bool(b, env, memo) else y, env, memo)
        G.evalf = ev
        G.info = ("ite", (b, x, y))
        G.deps = set()
        for v in (S(b.t[1]), x, y):
            sym.gens_of(v, True, G.deps)
        (xl, xh), (yl, yh) = sym.interval(x.p), sym.interval(y.p)
        if xl is not None and yl is not None:
            G.lo = min(xl, yl)
        if xh is not None and yh is not None:
            G.hi = max(xh, yh)
        sym._intern[key] = G
        ITEREG.append((G, b, x, y))
    return sym.gen_sym(G)


MAXREG = []      # (generator, [args], 'max'|'min')


def sc_max(args, which="max"):
    """maximum of scalars: exact if the order is known, else a fresh symbol with the contract of max"""
    vals = []
    for a in args:
        a = _n(a)
        if sym.is_inf(a):
            if (sym.is_inf(a) > 0) == (which == "max"):
                return a
            continue
        a = S(a)
        if any(v.p == a.p for v in vals):
            continue
        vals.append(a)
    keep = []
    for i, a in enumerate(vals):
        dom = False
        for j, b in enumerate(vals):
            if i == j:
                continue
            r = (a <= b) if which == "max" else (a >= b)
            if r is True and not (j > i and ((b <= a) if which == "max" else (b >= a)) is True):
                dom = True
                break
        if not dom:
            keep.append(a)
    vals = keep
    if len(vals) == 1:
        return vals[0]
    key = ("max", which, frozenset(frozenset(v.p.items()) for v in vals))
    G = sym._intern.get(key)
    if G is None:
        # the same values in another form
        fps = {sym.fingerprint(v.p): v for v in vals}
        for G2, vs2, w2 in MAXREG:
            if w2 == which and len(vs2) == len(vals) and {sym.fingerprint(v.p) for v in vs2} == set(fps) \
                    and all(sym.is_zero(v - fps[sym.fingerprint(v.p)]) for v in vs2):
                G = sym._intern[key] = G2
                break
    if G is None:
        f = max if which == "max" else min
        G = sym.Gen("var", "%s#%d" % (which, len(MAXREG)))
        vs = list(vals)

        def ev(em, vs=vs, f=f):
            env, memo = em
            xs = [sym.evalf(v, env, memo) for v in vs]
            return math.nan if any(x != x for x in xs) else f(xs)
        G.evalf = ev
        los = [sym.interval(v.p) for v in vals]
        if which == "max":
            l = [x[0] for x in los if x[0] is not None]
            if l:
                G.lo = max(l)
                G.los = any(sym.rel("<", S(G.lo) - v) is True for v in vals) if G.lo is not None else False
            if any(len(v.p) == 1 and all(sym.GENS[g].positive for m in v.p for g, _ in m) and list(v.p.values())[0] > 0 for v in vals):
                G.lo, G.los = max(0, G.lo or 0), True if not (G.lo or 0) > 0 else G.los
            h = [x[1] for x in los]
            if None not in h:
                G.hi = max(h)
        G.info = (which, vs)
        G.deps = set()
        for v in vs:
            sym.gens_of(v, True, G.deps)
        sym._intern[key] = G
        MAXREG.append((G, vs, which))
    return sym.gen_sym(G)


def sc_max2(a, b):
    return sc_max([a, b])


def sc_min2(a, b):
    return sc_max([a, b], "min")


def sc_sign(a):
    a = _n(a)
    if bool(_b(S(a) > 0)):
        return 1
    if bool(_b(S(a) < 0)):
        return -1
    return 0


def sc_log(a):
    return sym.slog(S(_n(a)))


def sc_expm1(a):
    return sexp(S(_n(a))) - 1


def sc_log1p(a):
    return sym.slog(1 + S(_n(a)))


def sc_isfinite(a):
    return not sym.is_inf(S(_n(a))) and not sc_isnan(a)


def sc_isnan(a):
    a = S(_n(a))
    return any(sym.GENS[g].name == "nan!" for m in a.p for g, _ in m)


def sc_floor(a):
    return sym.sfloor(S(_n(a)))


def sc_ceil(a):
    return -sym.sfloor(-S(_n(a)))


def sc_trunc(a):
    a = S(_n(a))
    return sym.sfloor(a) if bool(_b(a >= 0)) else -sym.sfloor(-a)


def sc_rint(a):
    """to the nearest integer; of a number exactly in the middle, to the even one"""
    a = S(_n(a))
    c = a.const()
    return S(round(c)) if c is not None else sym.sfloor(a + Fraction(1, 2))


def _plain(v, *args):
    """integers stay integers"""
    if all(isinstance(x, (int, np.integer)) for x in args):
        c = v.const()
        if c is not None and Fraction(c).denominator == 1:
            return int(c)
    return v


def sc_floordiv(a, b):
    a, b = _n(a), _n(b)
    return _plain(sym.sfloor(S(sc_div(a, b))), a, b)


def sc_mod(a, b):
    a, b = _n(a), _n(b)
    return _plain(S(a) - b * sym.sfloor(S(sc_div(a, b))), a, b)


def sc_fmod(a, b):
    a, b = _n(a), _n(b)
    return S(a) - b * S(sc_trunc(S(sc_div(a, b))))


def _half(sign):
    def g(a):
        e = sexp(S(_n(a)))
        return (e + sign * sc_div(1, e)) / 2
    return g


def _tanh(a):
    e = sexp(2 * S(_n(a)))
    return sc_div(e - 1, e + 1)


UF = {
    "hypot": lambda a, b: ssqrt(_n(a) * _n(a) + _n(b) * _n(b)), "floor": sc_floor, "ceil": sc_ceil,
    "rint": sc_rint, "trunc": sc_trunc, "cosh": _half(1), "sinh": _half(-1), "tanh": _tanh,
    "add": sc_addd, "subtract": lambda a, b: _n(a) - _n(b), "multiply": sc_mul,
    "divide": sc_div, "true_divide": sc_div, "power": sc_pow, "float_power": sc_pow,
    "floor_divide": sc_floordiv, "remainder": sc_mod, "mod": sc_mod, "fmod": sc_fmod,
    "negative": lambda a: -_n(a), "positive": lambda a: _n(a),
    "absolute": sc_abs, "fabs": sc_abs, "exp": _wrap1(sexp), "expm1": sc_expm1,
    "sqrt": _wrap1(ssqrt), "cos": _wrap1(scos), "sin": _wrap1(ssin), "square": lambda a: _n(a) * _n(a),
    "reciprocal": lambda a: sc_div(1, a),
    "less": sc_cmp("<"), "less_equal": sc_cmp("<="), "greater": sc_cmp(">"), "greater_equal": sc_cmp(">="),
    "equal": sc_eq, "not_equal": sc_ne,
    "logical_and": lambda a, b: s_and([a, b]), "logical_or": lambda a, b: s_or([a, b]),
    "logical_not": s_not, "invert": s_not, "bitwise_and": lambda a, b: s_and([a, b]),
    "bitwise_or": lambda a, b: s_or([a, b]),
    "logical_xor": lambda a, b: s_or([s_and([a, s_not(b)]), s_and([s_not(a), b])]),
    "bitwise_xor": lambda a, b: s_or([s_and([a, s_not(b)]), s_and([s_not(a), b])]),
    "maximum": sc_max2, "minimum": sc_min2, "fmax": sc_max2, "fmin": sc_min2,
    "sign": sc_sign, "log": sc_log, "log1p": sc_log1p, "isfinite": sc_isfinite, "isnan": sc_isnan,
    "isinf": lambda a: bool(sym.is_inf(S(_n(a)))), "conjugate": lambda a: a, "deg2rad": lambda a: _n(a) * sym.PI / 180,
    "radians": lambda a: _n(a) * sym.PI / 180, "exp2": lambda a: (_ for _ in ()).throw(Unsupported("exp2")),
    "tan": lambda a: sc_div(ssin(S(_n(a))), scos(S(_n(a)))),
}
_PF = {}


def _pf(name, nin):
    k = (name, nin)
    if k not in _PF:
        _PF[k] = np.frompyfunc(UF[name], nin, 1)
    return _PF[k]


def ob(x):
    """operand -> plain object ndarray"""
    return base(sarr(x))


def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    if name == "matmul":
        r = matmul(*inputs)
        return _out(r, kw.get("out"))
    if name in ("vecdot",):
        a, b = (sarr(x) for x in inputs)
        return (a * b).sum(axis=-1)
    if name not in UF:
        raise Unsupported("ufunc %s" % name)
    if method == "__call__":
        where = kw.get("where", True)
        out = kw.get("out")
        if where is True:
            args = [ob(x) for x in inputs]
            r = _pf(name, len(args))(*args)
            if isinstance(r, np.ndarray):
                r = r.view(SArr)
            return _out(r, out)
        args = [ob(x) for x in inputs]
        w = where
        bshape = np.broadcast_shapes(*[a.shape for a in args], np.shape(base(w)))
        if LAZY_WHERE[0] and isinstance(w, np.ndarray) and out is not None and out[0] is not None:
            w = np.broadcast_to(base(w), bshape)
            args = [np.broadcast_to(a, bshape) for a in args]
            res = out[0]
            f = UF[name]
            for i in np.ndindex(*bshape):
                b = w[i]
                if isinstance(b, SymBool):
                    known = sym.TRY[0](b) if sym.TRY[0] else None
                    b = b if known is None else known
                if isinstance(b, SymBool) and b.t[0] in ("<", "<=", "="):
                    res[i] = sc_ite(b, f(*[a[i] for a in args]), res[i])
                elif b:
                    res[i] = f(*[a[i] for a in args])
            return res
        w = np.broadcast_to(realize(sarr(w)) if isinstance(w, np.ndarray) or isinstance(w, SymBool) else w, bshape)
        args = [np.broadcast_to(a, bshape) for a in args]
        if out is not None and out[0] is not None:
            res = out[0]
        else:
            res = empty(bshape)
        f = UF[name]
        for i in np.ndindex(*bshape):
            if w[i]:
                res[i] = f(*[a[i] for a in args])
        return res
    a = sarr(inputs[0])
    if method == "reduce":
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        init = kw.get("initial", None)
        if init is np._NoValue:
            init = None
        where = kw.get("where", True)
        if where is not True and where is not np._NoValue:
            w = realize(sarr(where)) if isinstance(where, np.ndarray) else where
            w = np.broadcast_to(w, a.shape)
            ident = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}.get(name)
            if ident is None:
                raise Unsupported("reduce with where")
            a = a.copy()
            for i in np.ndindex(*a.shape):
                if not w[i]:
                    a[i] = ident
        r = reduce_(name, base(a), axis, keep, init)
        return _out(r, kw.get("out"))
    if method == "accumulate":
        axis = kw.get("axis", 0)
        b = np.moveaxis(base(a), axis, 0)
        res = np.empty(b.shape, dtype=object)
        f = _pf(name, 2)
        for i in range(b.shape[0]):
            res[i] = b[i] if i == 0 else (f(res[i - 1], b[i]) if b.ndim > 1 else UF[name](res[i - 1], b[i]))
        return _out(np.moveaxis(res, 0, axis).view(SArr), kw.get("out"))
    if method == "outer":
        x, y = ob(inputs[0]), ob(inputs[1])
        r = _pf(name, 2)(x.reshape(x.shape + (1,) * y.ndim), y)
        return r.view(SArr)
    if method == "at":
        tgt, idx, val = inputs[0], real_index(inputs[1]), inputs[2]
        f = UF[name]
        idx = np.atleast_1d(idx)
        vals = np.broadcast_to(ob(val), idx.shape)
        for i, v in zip(idx, vals):
            tgt[i] = f(tgt[i], v)
        return None
    raise Unsupported("ufunc method %s.%s" % (name, method))


def _out(r, out):
    if out is None:
        return r
    o = out[0] if isinstance(out, tuple) else out
    if o is None:
        return r
    if not isinstance(o, SArr):
        if isinstance(o, np.ndarray) and o.dtype == object:
            o[...] = base(sarr(r))
            return o
        raise Unsupported("out= into a native array")
    o[...] = r
    return o


def reduce_(name, b, axis, keep, init):
    if axis is None:
        axes = tuple(range(b.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(int(x) % b.ndim for x in axis)
    else:
        if b.ndim == 0:
            axes = ()
        else:
            axes = (int(axis) % b.ndim,)
    rest = [i for i in range(b.ndim) if i not in axes]
    t = b.transpose(rest + list(axes)).reshape([b.shape[i] for i in rest] + [-1])
    out = np.empty([b.shape[i] for i in rest], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = _red(name, list(t[i]), init)
    if keep:
        out = out.reshape([1 if i in axes else b.shape[i] for i in range(b.ndim)])
    if out.ndim == 0:
        return out[()]
    return out.view(SArr)


def _red(name, xs, init):
    if init is not None:
        xs = [init] + xs
    if name == "add":
        return ssum(xs)
    if name == "multiply":
        r = 1
        for x in xs:
            r = sc_mul(r, _n(x))
        return r
    if name in ("logical_or", "bitwise_or"):
        return s_or(xs)
    if name in ("logical_and", "bitwise_and"):
        return s_and(xs)
    if name in ("maximum", "fmax", "minimum", "fmin"):
        if not xs:
            raise ValueError("zero-size array to reduction operation has no identity")
        return sc_max(xs, "max" if "max" in name else "min")
    f = UF[name]
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def ssum(xs):
    acc = None
    c = 0
    for x in xs:
        x = _n(x)
        if isinstance(x, Sym):
            if acc is None:
                acc = dict(x.p)
            else:
                for m, v in x.p.items():
                    o = acc.get(m)
                    if o is None:
                        acc[m] = v
                    else:
                        o = o + v
                        if o:
                            acc[m] = sym.nrm(o)
                        else:
                            del acc[m]
        else:
            c = c + x
    if acc is None:
        return sym.nrm(c)
    return Sym(acc) + c if c else Sym(acc)


def matmul(a, b):
    a, b = sarr(a), sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    sa = sb = False
    if a.ndim == 1:
        a = a[None, :]
        sa = True
    if b.ndim == 1:
        b = b[:, None]
        sb = True
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from %d)" % (b.shape[-2], a.shape[-1]))
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(base(a), bs + a.shape[-2:])
    B = np.broadcast_to(base(b), bs + b.shape[-2:])
    out = np.empty(bs + (a.shape[-2], b.shape[-1]), dtype=object)
    for i in np.ndindex(*bs):
        for r in range(a.shape[-2]):
            for c in range(b.shape[-1]):
                out[i + (r, c)] = _cut([sc_mul(x, y) for x, y in zip(A[i + (r,)], B[i][:, c]) if not _z(x) and not _z(y)])
    if not sa and not sb and A.shape[-1] > 1:
        for i in np.ndindex(*bs):
            note_product(A[i], B[i], out[i])
    if sb:
        out = out[..., 0]
    if sa:
        out = out[..., 0, :] if not sb else out[..., 0]
    if out.ndim == 0:
        return out[()]
    return out.view(SArr)


PRODUCTS = {}     # entries of a product of two matrices -> the factors


def note_product(A, B, R):
    k = tuple(frozenset(S(x).p.items()) for x in R.reshape(-1))
    PRODUCTS.setdefault(k, ([[S(x) for x in r] for r in A], [[S(x) for x in r] for r in B]))


def _z(x):
    return (type(x) is int and x == 0) or (type(x) is Sym and not x.p)


def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        rest = [spec] + list(ops)
        ops, subs = rest[0::2], rest[1::2]
        out = ops[len(subs):]
        if len(out) > 1 or any(Ellipsis in x for x in list(subs) + list(out)):
            raise Unsupported("einsum with sublists")
        ops = ops[:len(subs)]
        if len(out) == 1 and isinstance(out[0], (list, tuple)):
            pass
        elif len(rest) % 2 == 0:
            out = []
        word = lambda x: "".join(chr(97 + i) for i in x)
        spec = ",".join(word(x) for x in subs) + ("->" + word(out[0]) if out else "")
    spec = spec.replace(" ", "")
    if "..." in spec:
        left, arrow, right = spec.partition("->")
        free = [c for c in "ZYXWVUTSRQPONMLKJIHGFEDCBA" if c not in spec]
        parts = []
        most = max(sarr(o).ndim - len(s.replace("...", "")) for s, o in zip(left.split(","), ops) if "..." in s)
        for s, o in zip(left.split(","), ops):
            n = sarr(o).ndim - len(s.replace("...", ""))
            parts.append(s.replace("...", "".join(free[most - n:most])))
        if not arrow:
            from collections import Counter
            c = Counter(left.replace(".", "").replace(",", ""))
            right = "..." + "".join(sorted(x for x in c if c[x] == 1))
        spec = ",".join(parts) + "->" + right.replace("...", "".join(free[:most]))
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        from collections import Counter
        c = Counter("".join(ins))
        out = "".join(sorted(x for x in c if c[x] == 1))
    if "." in spec:
        raise Unsupported("einsum ellipsis")
    ops = [sarr(o) for o in ops]
    if len(ins) != len(ops):
        raise ValueError("einsum: operand count")
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string contains too many subscripts for operand" if len(s) > o.ndim else
                             "operand has more dimensions than subscripts given in einstein sum")
        for ch, n in zip(s, o.shape):
            if dims.get(ch, 1) in (1, n):
                dims[ch] = n
            elif n != 1:
                raise ValueError("operands could not be broadcast together in einsum")
    if any(ch not in dims for ch in out):
        raise ValueError("einstein sum subscripts string included output subscript which never appeared in an input")
    terms = list(zip(ins, ops))
    while len(terms) > 1:
        # contract the pair with the smallest result
        best = None
        for i in range(len(terms)):
            for j in range(i + 1, len(terms)):
                keep = set(out).union(*[set(t[0]) for k, t in enumerate(terms) if k not in (i, j)])
                res = [c for c in dict.fromkeys(terms[i][0] + terms[j][0]) if c in keep]
                size = int(np.prod([dims[c] for c in res])) if res else 1
                if best is None or size < best[0]:
                    best = (size, i, j, "".join(res))
        _, i, j, res = best
        t = _contract(terms[i], terms[j], res, dims)
        s1, s2 = terms[i][0], terms[j][0]
        if len(s1) == len(s2) == len(res) in (2, 3) and len(set(s1 + s2)) == len(res) + 1:
            x1, x2, xr = (base(sarr(x)) for x in (terms[i][1], terms[j][1], t))
            if len(res) == 2:
                s1, s2, res_ = "." + s1, "." + s2, "." + res
                x1, x2, xr = x1[None], x2[None], xr[None]
            else:
                res_ = res
            if s1[0] == s2[0] == res_[0]:
                if s2[2] != res_[2]:
                    s1, s2, x1, x2 = s2, s1, x2, x1
                if s1[1] == res_[1] and s2[2] == res_[2] and s1[2] == s2[1] and x1.shape[0] == x2.shape[0] == xr.shape[0]:
                    for q in range(xr.shape[0]):
                        note_product(x1[q], x2[q], xr[q])
        terms = [x for k, x in enumerate(terms) if k not in (i, j)] + [(res, t)]
    s, o = terms[0]
    if s == out:
        return o
    r = _contract((s, o), None, out, dims)
    if r.ndim == 0:
        return r[()]
    return r


def _contract(t1, t2, res, dims):
    s1, a = t1
    a = base(a)
    if t2 is None:
        s2, b = "", None
    else:
        s2, b = t2
        b = base(b)
    summed = [c for c in dict.fromkeys(s1 + s2) if c not in res]
    out = np.empty([dims[c] for c in res], dtype=object)

    def pick(arr, s, env):
        return arr[tuple(env[c] if n > 1 else 0 for c, n in zip(s, arr.shape))]
    for idx in np.ndindex(*out.shape):
        env = dict(zip(res, idx))
        acc = []
        for sidx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, sidx))
            x = pick(a, s1, env)
            if _z(x):
                continue
            if b is not None:
                y = pick(b, s2, env)
                if _z(y):
                    continue
                x = sc_mul(x, y)
            acc.append(x)
        out[idx] = _cut(acc) if b is not None and summed else ssum(acc)
    return out.view(SArr)


def _cut(terms):
    """sum of products; sums of several get a name"""
    x = ssum(terms)
    return sym.cut(x) if len(terms) > 1 and sym.CUT_ON[0] and isinstance(x, Sym) else x


def argmax(a, axis=None, minimum=False):
    a = sarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape[:-1], dtype=int)
    for i in np.ndindex(*out.shape):
        row = list(b[i])
        if all(isinstance(x, (bool, SymBool)) for x in row):
            want = not minimum
            k = 0
            for j, x in enumerate(row):
                if bool(_b(x)) == want:
                    k = j
                    break
        else:
            k = 0
            for j in range(1, len(row)):
                c = (S(row[j]) > S(row[k])) if not minimum else (S(row[j]) < S(row[k]))
                if bool(_b(c)):
                    k = j
        out[i] = k
    if out.ndim == 0:
        return int(out)
    return out


def where(cond, x=None, y=None):
    if x is None:
        return np.nonzero(realize(sarr(cond)))
    if isinstance(cond, np.ndarray) and cond.dtype == bool:
        c = cond
    elif LAZY_WHERE[0] and is_symbolic(cond):
        c = np.empty(np.shape(cond), dtype=object)
        cb = base(sarr(cond)) if isinstance(cond, np.ndarray) else None
        for i in np.ndindex(*c.shape):
            b = _b(cond if cb is None else cb[i])
            if isinstance(b, SymBool):
                known = sym.TRY[0](b) if sym.TRY[0] else None
                b = b if known is None else known
            c[i] = b if not isinstance(b, SymBool) or b.t[0] in ("<", "<=", "=") else bool(b)
    elif isinstance(cond, (bool, np.bool_, SymBool)):
        c = np.asarray(bool(_b(cond)))
    else:
        cc = sarr(cond)
        c = realize(cc)
    x, y = sarr(x), sarr(y)
    sh = np.broadcast_shapes(c.shape, x.shape, y.shape)
    c, x, y = np.broadcast_to(c, sh), np.broadcast_to(base(x), sh), np.broadcast_to(base(y), sh)
    out = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh):
        out[i] = sc_ite(c[i], x[i], y[i]) if isinstance(c[i], SymBool) else x[i] if c[i] else y[i]
    if all(type(v) is int for v in out.ravel()):
        return np.array([v for v in out.ravel()], dtype=int).reshape(sh)
    return out.view(SArr)


def _filled(shape, v, order="C"):
    if isinstance(shape, (int, np.integer)):
        shape = (int(shape),)
    a = np.empty(tuple(int(s) for s in shape), dtype=object, order=order if order in "CF" else "C")
    a[...] = v
    return a.view(SArr)


def zeros(shape, dtype=None, order="C"):
    if _native(dtype):
        return np.zeros(shape, dtype=dtype, order=order)
    return _filled(shape, 0, order)


def ones(shape, dtype=None, order="C"):
    if _native(dtype):
        return np.ones(shape, dtype=dtype, order=order)
    return _filled(shape, 1, order)


def empty(shape, dtype=None, order="C"):
    if _native(dtype):
        return np.zeros(shape, dtype=dtype, order=order)
    u = sym.var("uninit!", evalf=lambda env: math.nan)
    return _filled(shape, u, order)


def _native(dtype):
    if dtype is None:
        return False
    try:
        return np.dtype(dtype).kind in "biuSU"
    except TypeError:
        return False


SPECIAL = {}      # numpy function -> implementation; filled by shim


def np_dispatch(func, args, kwargs):
    """numpy API function called on symbolic arrays"""
    h = SPECIAL.get(func.__name__)
    if h is not None:
        return h(*args, **kwargs)
    args = [prep(a) for a in args]
    kwargs = {k: prep(v) for k, v in kwargs.items()}
    if getattr(func, "__module__", "").startswith("numpy.linalg"):
        raise Unsupported("numpy.linalg.%s" % func.__name__)
    impl = getattr(func, "_implementation", None)
    if impl is None:
        raise Unsupported("numpy function %s" % func.__name__)
    return out_wrap(impl(*args, **kwargs))


def prep(a):
    if isinstance(a, (Sym, SymBool)):
        return sarr(a)
    if isinstance(a, (list, tuple)) and is_symbolic(a):
        if all(isinstance(e, (np.ndarray,)) for e in a) and len({e.shape for e in a}) != 1:
            return type(a)(prep(e) for e in a)
        if any(isinstance(e, np.ndarray) for e in a):
            return type(a)(prep(e) if is_symbolic(e) else e for e in a)
        try:
            return sarr(a)
        except ValueError:
            return type(a)(prep(e) for e in a)
    return a
