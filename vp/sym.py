"""Exact symbolic scalars.

A `Sym` is a Laurent polynomial with rational coefficients over *generators*.
Generators are interned objects:

  var    an input of the harness, a quadrature node, or an output of a stubbed
         library call (with the contract of the call as hypotheses)
  exp    exp(m) for one monomial m; exp(a+b) = exp(a)exp(b) makes every
         exponential a product of powers of these
  inv    1/p for a polynomial p with more than one term (rule: lead(p)*inv -> ...)
  sqrt   square root of a polynomial (rule: sqrt^2 -> p)
  cos, sin, abs, fn   interned by (canonical) argument

Arithmetic is exact: the semantics is that of the real numbers, not of floats.
"""
import math
import random
import time
from fractions import Fraction

import numpy as np


class Unsupported(Exception):
    """The engine cannot encode what the code does (never a verdict)."""


# --------------------------------------------------------------------------- generators

class Gen:
    __slots__ = ("gid", "kind", "name", "arg", "lo", "hi", "los", "his", "lead", "lead_c",
                 "rest", "evalf", "res", "is_input", "info", "deps")

    def __init__(self, kind, name, arg=None, lo=None, hi=None, los=False, his=False, evalf=None):
        self.gid = len(GENS)
        self.kind, self.name, self.arg = kind, name, arg
        self.lo, self.hi, self.los, self.his = lo, hi, los, his   # bounds; strict flags
        self.lead = None
        self.evalf = evalf
        self.res = None
        self.is_input = False
        self.info = None
        self.deps = None
        GENS.append(self)

    def __repr__(self):
        return self.name

    @property
    def positive(self):
        return self.kind == "exp" or (self.lo is not None and (self.lo > 0 or (self.lo == 0 and self.los)))

    @property
    def nonneg(self):
        return self.positive or (self.lo is not None and self.lo >= 0)


GENS = []
REDUCIBLE = set()      # gids with an eager rewrite rule (inv, sqrt)
_intern = {}
DIVISORS = []          # (poly, context) recorded by division
EXPARGS = []           # (Sym argument) recorded by exp
RECORD = {"div": False, "exp": False}


def reset():
    GENS.clear()
    REDUCIBLE.clear()
    _intern.clear()
    CUTS.clear()
    _leaf.clear()
    DIVISORS.clear()
    LOGS.clear()
    FRACS.clear()
    EXPARGS.clear()
    global PI
    PI = var("pi", Fraction(31415926535, 10**10), Fraction(31415926536, 10**10))
    GENS[0].evalf = lambda env: math.pi


def rat(x):
    """exact rational meant by a Python number"""
    if type(x) is int:
        return x
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported("non-finite constant")
        if x == int(x) and abs(x) < 2**53:
            return int(x)
        f = Fraction(x).limit_denominator(10**6)
        if float(f) != x:
            f = Fraction(repr(x))
        return f.numerator if f.denominator == 1 else f
    raise TypeError("not a number: %r" % (type(x),))


def nrm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


# --------------------------------------------------------------------------- monomials

def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    if i < la:
        out.extend(a[i:])
    elif j < lb:
        out.extend(b[j:])
    return tuple(out)


def mono_pow(a, k):
    return tuple((g, nrm(e * k)) for g, e in a) if k else ()


def mono_div(a, b):
    return mono_mul(a, tuple((g, -e) for g, e in b))


def divides(lead, m):
    """lead (non-negative exponents) divides m?"""
    d = dict(m)
    for g, e in lead:
        if d.get(g, 0) < e:
            return False
    return True


# --------------------------------------------------------------------------- raw polynomials (dict mono -> coeff)

def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = nrm(v)
            else:
                del r[m]
    return r


def p_scale(a, k):
    if not k:
        return {}
    return {m: nrm(c * k) for m, c in a.items()}


def _needs(m):
    for g, e in m:
        if g in REDUCIBLE:
            G = GENS[g]
            if G.kind == "inv":
                if e < 0 or divides(G.lead, m):
                    return g
            elif e >= 2 or e < 0:
                return g
    return None


TERM_LIMIT = [400000]


def p_reduce(r):
    """apply the eager rules"""
    todo = [m for m in r if _needs(m) is not None]
    while todo:
        m = todo.pop()
        c = r.pop(m, None)
        if c is None:
            continue
        g = _needs(m)
        if g is None:
            r[m] = c
            continue
        G = GENS[g]
        e = dict(m)[g]
        base = tuple(x for x in m if x[0] != g)
        if G.kind == "inv":
            if e < 0:
                new = {mono_mul(base, k): v * c for k, v in p_pow(G.arg, -e).items()}
            else:
                # lead*inv = (1 - rest*inv)/lead_c
                b2 = mono_div(mono_mul(base, ((g, e - 1),) if e > 1 else ()), G.lead)
                new = {}
                k = Fraction(c) / G.lead_c
                new[b2] = nrm(k)
                bi = mono_mul(b2, ((g, 1),))
                for mm, v in G.rest.items():
                    t = mono_mul(bi, mm)
                    new[t] = nrm(new.get(t, 0) - k * v)
        else:  # sqrt
            if e >= 2:
                q, rem = divmod(e, 2)
                b2 = mono_mul(base, ((g, rem),) if rem else ())
                new = {mono_mul(b2, k): v * c for k, v in p_pow(G.arg, q).items()}
            else:  # negative power: s^-1 = s / p
                q = (-e + 1) // 2
                rem = e + 2 * q
                inv = p_inv(G.arg)
                t = p_pow(inv, q)
                b2 = mono_mul(base, ((g, rem),) if rem else ())
                new = {mono_mul(b2, k): v * c for k, v in t.items()}
        for k, v in new.items():
            if not v:
                continue
            o = r.get(k)
            if o is None:
                r[k] = nrm(v)
            else:
                o = o + v
                if o:
                    r[k] = nrm(o)
                else:
                    del r[k]
            if k in r and _needs(k) is not None:
                todo.append(k)
        if len(r) > TERM_LIMIT[0]:
            raise Unsupported("expression too large")
    return r


STOP = [None]       # time limit for rewriting expressions


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 4000000:
        raise Unsupported("product too large")
    if STOP[0] is not None and len(a) * len(b) > 100 and time.time() > STOP[0]:
        raise Unsupported("no time left for this form")
    r = {}
    get = r.get
    for m1, c1 in a.items():
        if not m1:
            for m2, c2 in b.items():
                v = get(m2)
                r[m2] = c1 * c2 if v is None else v + c1 * c2
        else:
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                v = get(m)
                r[m] = c1 * c2 if v is None else v + c1 * c2
    r = {m: nrm(c) for m, c in r.items() if c}
    if len(r) > TERM_LIMIT[0]:
        raise Unsupported("expression too large")
    if REDUCIBLE:
        return p_reduce(r)
    return r


def p_pow(a, n):
    if n == 0:
        return {(): 1}
    if len(a) == 1:
        (m, c), = a.items()
        r = {mono_pow(m, n): c**n}
        return p_reduce(r) if REDUCIBLE else r
    r = None
    base = a
    while n:
        if n & 1:
            r = base if r is None else p_mul(r, base)
        n >>= 1
        if n:
            base = p_mul(base, base)
    return r


def order_key(m):
    return (sum(e for _, e in m), m)


def content(p):
    """monomial content (minimal exponents) of a Laurent polynomial"""
    it = iter(p)
    first = dict(next(it))
    mins = first
    seen_all = set(first)
    for m in it:
        d = dict(m)
        for g in list(mins):
            e = d.get(g, 0)
            if e < mins[g]:
                mins[g] = e
        for g, e in d.items():
            if g not in mins:
                mins[g] = min(0, e)
    return tuple(sorted((g, e) for g, e in mins.items() if e))


def clear_inv(p):
    """multiply by the denominators of all inv generators; returns (poly, list of (gid, k))"""
    mult = []
    for _ in range(80):
        ks = {}
        for m in p:
            for g, e in m:
                if g in REDUCIBLE and GENS[g].kind == "inv" and e > ks.get(g, 0):
                    ks[g] = e
        if not ks:
            return p, mult
        g = max(ks)       # younger ones may contain older ones
        k = ks[g]
        # p = sum of p_e inv^e  ->  sum of p_e arg^(k-e)
        parts = {}
        for m, c in p.items():
            e = 0
            for x in m:
                if x[0] == g:
                    e = x[1]
                    m = tuple(y for y in m if y[0] != g)
                    break
            parts.setdefault(k - e, {})[m] = c
        out = {}
        pw, prev = {(): 1}, 0
        for j in sorted(parts):
            pw = p_mul(pw, p_pow(GENS[g].arg, j - prev)) if j > prev else pw
            prev = j
            out = p_add(out, p_mul(parts[j], pw) if j else parts[j])
        p = out
        mult.append((g, k))
    raise Unsupported("could not clear denominators")


def p_inv(p):
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        (m, c), = p.items()
        r = {mono_pow(m, -1): nrm(Fraction(1) / c)}
        return p_reduce(r) if REDUCIBLE else r
    q, mult = clear_inv(p)
    num = {(): 1}
    for g, k in mult:
        num = p_mul(num, p_pow(GENS[g].arg, k))
    if len(q) == 1:
        (m, c), = q.items()
        return p_mul(num, {mono_pow(m, -1): nrm(Fraction(1) / c)})
    cont = content(q)
    neg = mono_pow(cont, -1)
    q = {mono_mul(m, neg): c for m, c in q.items()}
    num = p_mul(num, {neg: 1})
    # divide out known denominators, so that products of them are recognised
    for g in [x.gid for x in GENS if x.kind == "inv"]:
        while len(q) > 1:
            d = p_divexact(q, GENS[g].arg)
            if d is None:
                break
            q = d
            num = p_mul(num, {((g, 1),): 1})
    if len(q) == 1:
        (m, c), = q.items()
        return p_mul(num, {mono_pow(m, -1): nrm(Fraction(1) / c)})
    lead = max(q, key=order_key)
    c = q[lead]
    q = {m: nrm(Fraction(v) / c) for m, v in q.items()}
    num = p_scale(num, nrm(Fraction(1) / c))
    key = ("inv", frozenset(q.items()))
    G = _intern.get(key)
    if G is None:
        G = Gen("inv", "1/(%s)" % fmt(q)[:60], arg=q)
        G.lead, G.lead_c = lead, 1
        G.rest = {m: v for m, v in q.items() if m != lead}
        REDUCIBLE.add(G.gid)
        _intern[key] = G
    return p_mul(num, {((G.gid, 1),): 1})


def p_divexact(a, b):
    """exact quotient a/b of polynomials, or None"""
    if len(b) > len(a):
        return None
    gb = set(g for m in b for g, _ in m)
    ga = set(g for m in a for g, _ in m)
    if not gb <= ga or len(a) > 3000:
        return None
    lb = max(b, key=lambda m: _lex(m))
    cb = b[lb]
    r = dict(a)
    quo = {}
    n = 0
    while r:
        la = max(r, key=lambda m: _lex(m))
        if not divides(lb, la):
            return None
        m = mono_div(la, lb)
        c = nrm(Fraction(r[la]) / cb)
        quo[m] = c
        for mm, v in b.items():
            t = mono_mul(m, mm)
            x = r.get(t, 0) - c * v
            if x:
                r[t] = nrm(x)
            else:
                r.pop(t, None)
        n += 1
        if n > 2000:
            return None
    return quo


def _lex(m):
    # a monomial order: graded, then lexicographic on generator ids (dense)
    return (sum(e for _, e in m), tuple((-g, e) for g, e in m))


# --------------------------------------------------------------------------- formatting

def fmt_m(m):
    return "*".join((GENS[g].name if e == 1 else "%s^%s" % (GENS[g].name, e)) for g, e in m) or "1"


def fmt(p, n=12):
    t = []
    for i, (m, c) in enumerate(p.items()):
        if i >= n:
            t.append("... %d terms" % len(p))
            break
        t.append("%s*%s" % (c, fmt_m(m)) if m else str(c))
    return " + ".join(t) or "0"


# --------------------------------------------------------------------------- Sym

def _coerce(x):
    if type(x) is Sym:
        return x.p
    if isinstance(x, SymBool):
        return {(): 1} if bool(x) else {}
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _coerce(x[()])
    c = rat(x)
    return {(): c} if c else {}


def _isnum(x):
    return isinstance(x, (int, float, Fraction, np.number, Sym, SymBool, bool, np.bool_)) or (
        isinstance(x, np.ndarray) and x.ndim == 0 and type(x) is np.ndarray)


class Sym:
    __slots__ = ("p", "_fp")
    def __hash__(self):
        c = self.const()
        return hash(c) if c is not None else hash(frozenset(self.p.items()))

    def __init__(self, p):
        self.p = p
        self._fp = None

    # numpy scalar look-alike
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(object)

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def astype(self, *a, **k):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def reshape(self, *shape, **k):
        from .arr import sarr
        return sarr(self).reshape(*shape, **k)

    def ravel(self, *a):
        from .arr import sarr
        return sarr(self).ravel()

    def squeeze(self, *a):
        return self

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self != 0

    def all(self, *a, **k):
        return self != 0

    def __getitem__(self, i):
        from .arr import sarr
        return sarr(self)[i]

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import array_ufunc
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .arr import np_dispatch
        return np_dispatch(func, args, kwargs)

    # arithmetic
    def __add__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = _coerce(o)
        if not o:
            return self
        return Sym(p_add(self.p, o))

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = _coerce(o)
        return Sym(p_add(self.p, {m: -c for m, c in o.items()}))

    def __rsub__(self, o):
        if not _isnum(o):
            return NotImplemented
        return Sym(p_add(_coerce(o), {m: -c for m, c in self.p.items()}))

    def __mul__(self, o):
        if not _isnum(o):
            return NotImplemented
        return Sym(p_mul(self.p, _coerce(o)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return sdiv(self, o)

    def __rtruediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return sdiv(o, self)

    def __pow__(self, k):
        if not _isnum(k):
            return NotImplemented
        return spow(self, k)

    def __rpow__(self, b):
        if not _isnum(b):
            return NotImplemented
        return spow(b, self)

    def __mod__(self, o):
        return NotImplemented if isinstance(o, np.ndarray) else self - o * sfloor(sdiv(self, S(o)))

    def __rmod__(self, o):
        return S(o) - self * sfloor(sdiv(S(o), self))

    def __floordiv__(self, o):
        return NotImplemented if isinstance(o, np.ndarray) else sfloor(sdiv(self, S(o)))

    def __rfloordiv__(self, o):
        return sfloor(sdiv(S(o), self))

    def __round__(self, n=None):
        k = 10**(n or 0)
        return sfloor(self * k + Fraction(1, 2)) / k

    def log(self):
        return slog(self)

    def __abs__(self):
        return sabs(self)

    # comparisons
    def __lt__(self, o):
        return rel("<", self - o) if _isnum(o) else NotImplemented

    def __le__(self, o):
        return rel("<=", self - o) if _isnum(o) else NotImplemented

    def __gt__(self, o):
        return rel("<", o - self) if _isnum(o) else NotImplemented

    def __ge__(self, o):
        return rel("<=", o - self) if _isnum(o) else NotImplemented

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return rel("=", self - o) if _isnum(o) else NotImplemented

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return s_not(rel("=", self - o)) if _isnum(o) else NotImplemented

    def __bool__(self):
        return bool(self != 0)

    def const(self):
        if not self.p:
            return 0
        if len(self.p) == 1 and () in self.p:
            return self.p[()]
        return None

    def __float__(self):
        c = self.const()
        if c is None:
            raise Unsupported("float() of a symbolic value")
        return float(c)

    def __int__(self):
        c = self.const()
        if c is None or Fraction(c).denominator != 1:
            raise Unsupported("int() of a symbolic value")
        return int(c)

    __index__ = __int__

    def __repr__(self):
        return "Sym(%s)" % fmt(self.p)

    # numpy calls these on elements of plain object arrays
    def exp(self):
        return sexp(self)

    def expm1(self):
        return sexp(self) - 1

    def sqrt(self):
        return ssqrt(self)

    def cos(self):
        return scos(self)

    def sin(self):
        return ssin(self)

    def square(self):
        return self * self


ZERO = Sym({})
ONE = Sym({(): 1})


def S(x):
    return x if type(x) is Sym else Sym(_coerce(x))


def gen_sym(G):
    return Sym({((G.gid, 1),): 1})


def var(name, lo=None, hi=None, los=False, his=False, evalf=None, kind="var"):
    key = ("var", name)
    G = _intern.get(key)
    if G is None:
        conv = lambda b: None if b is None else rat(b)
        G = Gen(kind, name, None, conv(lo), conv(hi), los, his, evalf)
        _intern[key] = G
    return gen_sym(G)


def INF(sign):
    """an infinite value: only maxima, minima, comparisons and exponentials know it"""
    return var("inf!", evalf=lambda env: math.inf) * sign


def is_inf(a):
    """1 or -1 for an infinite value, else 0"""
    if not isinstance(a, Sym) or len(a.p) != 1:
        return 0
    (m, c), = a.p.items()
    if len(m) != 1 or GENS[m[0][0]].name != "inf!" or m[0][1] <= 0:
        return 0
    return 1 if c > 0 else -1


def NAN():
    return var("nan!", evalf=lambda env: math.nan)


def sdiv(a, b):
    pb = _coerce(b)
    pa = _coerce(a)
    if not pb:
        return NAN()
    if len(pb) > 1 and not is_nonzero_known(pb):
        q, _ = clear_inv(pb)
        if not q:
            return NAN()
    if RECORD["div"] and not (len(pb) == 1 and () in pb):
        DIVISORS.append(Sym(pb))
    if len(pb) == 1 and () in pb:
        return Sym(p_scale(pa, nrm(Fraction(1) / pb[()])))
    if pa == pb:
        return ONE
    return Sym(p_mul(pa, p_inv(pb)))


def is_nonzero_known(p):
    return not any(g in REDUCIBLE for m in p for g, _ in m)


def spow(a, k):
    if isinstance(k, Sym):
        c = k.const()
        if c is None:
            if isinstance(a, Sym) and a.const() is None:
                raise Unsupported("symbolic power")
            raise Unsupported("symbolic exponent")
        k = c
    k = rat(k)
    if not isinstance(a, Sym):
        c = rat(a)
        if type(k) is int:
            if k < 0 and c == 0:
                return NAN()
            return Sym({(): nrm(Fraction(c) ** k)}) if c ** 0 and Fraction(c) ** k else ZERO
        a = S(a)
    if type(k) is int:
        if k == 0:
            return ONE
        if k > 0:
            return Sym(p_pow(a.p, k))
        return sdiv(ONE, Sym(p_pow(a.p, -k)))
    if k.denominator == 2:
        s = ssqrt(a)
        return spow(s, k.numerator)
    raise Unsupported("fractional power")


def sexp(a):
    a = S(a)
    if RECORD["exp"]:
        EXPARGS.append(a)
    out = []
    if is_inf(a) < 0:
        return S(0)
    q = a.p
    for m, c in q.items():
        if LOGS and len(m) == 1 and m[0][1] == 1 and m[0][0] in LOGS and Fraction(c).denominator == 1:
            rest = sexp(Sym({k: v for k, v in q.items() if k != m}))
            x, k = LOGS[m[0][0]], int(c)
            return rest * x**k if k > 0 else sdiv(rest, x**-k)
        key = ("exp", m)
        G = _intern.get(key)
        if G is None:
            G = Gen("exp", "exp(%s)" % fmt_m(m), arg=m, lo=0, los=True)
            _intern[key] = G
        out.append((G.gid, c))
    out.sort()
    return Sym({tuple(out): 1})


def _sqfree(n):
    """n = s^2 * r"""
    s, d = 1, 2
    while d * d <= n and d < 1000:
        while n % (d * d) == 0:
            n //= d * d
            s *= d
        d += 1
    r = math.isqrt(n)
    if r * r == n:
        return s * r, 1
    return s, n


def ssqrt(a):
    a = S(a)
    if not a.p:
        return ZERO
    p = a.p
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(Fraction(e).denominator == 1 and e % 2 == 0 for g, e in m):
            # sqrt(g^2) = |g|
            n, d = Fraction(c).numerator, Fraction(c).denominator
            s, r = _sqfree(n * d)
            base = Sym({(): nrm(Fraction(s, d))})
            if r != 1:
                base = base * _sqrt_gen({(): r})
            for g, e in m:
                k = e // 2
                gs = gen_sym(GENS[g])
                if not GENS[g].nonneg and k % 2:
                    gs = sabs(gs)
                base = base * spow(gs, k)
            return base
    return _sqrt_gen(p)


def _sqrt_gen(p):
    key = ("sqrt", frozenset(p.items()))
    G = _intern.get(key)
    if G is None:
        G = Gen("sqrt", "sqrt(%s)" % fmt(p)[:60], arg=p, lo=0)
        if len(p) == 1 and () in p:
            G.los = True
            v = math.sqrt(p[()])
            G.lo, G.hi = rat(Fraction(v).limit_denominator(10**9) - Fraction(1, 10**8)), rat(
                Fraction(v).limit_denominator(10**9) + Fraction(1, 10**8))
        REDUCIBLE.add(G.gid)
        _intern[key] = G
    return gen_sym(G)


def _pi_multiple(p):
    if not p:
        return 0
    if len(p) == 1:
        (m, c), = p.items()
        if m == ((0, 1),):
            return Fraction(c)
    return None


_COS = {0: (1, 1), 1: (1, 1)}


def _cos_pi(r):
    """exact cos(pi r) for r multiple of 1/12-ish denominators 1,2,3,4,6; else None"""
    r = r % 2
    sign = 1
    if r > 1:
        r = 2 - r
    if r > Fraction(1, 2):
        r = 1 - r
        sign = -1
    t = {Fraction(0): S(1), Fraction(1, 2): S(0), Fraction(1, 3): S(Fraction(1, 2))}
    if r in t:
        return t[r] * sign
    if r == Fraction(1, 4):
        return ssqrt(S(2)) / 2 * sign
    if r == Fraction(1, 6):
        return ssqrt(S(3)) / 2 * sign
    if r == Fraction(1, 8):
        return ssqrt(2 + ssqrt(S(2))) / 2 * sign
    if r == Fraction(3, 8):
        return ssqrt(2 - ssqrt(S(2))) / 2 * sign
    if r == Fraction(1, 12):
        return (ssqrt(S(2)) * ssqrt(S(3)) + ssqrt(S(2))) / 4 * sign
    if r == Fraction(5, 12):
        return (ssqrt(S(2)) * ssqrt(S(3)) - ssqrt(S(2))) / 4 * sign
    if r == Fraction(1, 10):
        return ssqrt(10 + 2 * ssqrt(S(5))) / 4 * sign
    if r == Fraction(3, 10):
        return ssqrt(10 - 2 * ssqrt(S(5))) / 4 * sign
    if r == Fraction(1, 5):
        return (ssqrt(S(5)) + 1) / 4 * sign
    if r == Fraction(2, 5):
        return (ssqrt(S(5)) - 1) / 4 * sign
    return None


def _odd_split(a):
    """(canonical polynomial, sign) with leading coefficient positive"""
    p = a.p
    lead = max(p, key=order_key)
    if p[lead] < 0:
        return {m: -c for m, c in p.items()}, -1
    return p, 1


def _turns(a):
    """(a - k pi, (-1)^k) with the multiple of pi in a reduced to [-1/2, 1/2)"""
    c = a.p.get(((0, 1),), 0)
    if not c:
        return a, 1
    k = math.floor(Fraction(c) + Fraction(1, 2))
    if not k:
        return a, 1
    return a - PI * k, -1 if k % 2 else 1


LOGS, FRACS = {}, {}    # generator -> argument


def slog(a):
    """logarithm of a positive expression"""
    a = S(a)
    if a.p == {(): 1}:
        return S(0)
    if len(a.p) == 1:
        (m, c), = a.p.items()
        if c > 0 and m and all(GENS[g].positive for g, _ in m) and (len(m) > 1 or c != 1 or m[0][1] != 1 or GENS[m[0][0]].kind == "exp"):
            s = slog(S(c))
            for g, e in m:
                G = GENS[g]
                s = s + e * (Sym({G.arg: 1}) if G.kind == "exp" else slog(gen_sym(G)))
            return s
    lo, hi = interval(a.p)
    r = fn_gen("log", (a,), lambda em: math.log(evalf(a, *em)),
               lo=Fraction(math.log(lo)) - Fraction(1, 10**9) if lo is not None and lo > 0 else None,
               hi=Fraction(math.log(hi)) + Fraction(1, 10**9) if hi is not None and hi > 0 else None)
    g = next(iter(r.p))[0][0]
    GENS[g].info = slog
    LOGS[g] = a
    return r


def sfrac(a):
    """fractional part: a minus the largest integer not above it"""
    a = S(a)
    c = a.p.get((), 0)
    if isinstance(c, Fraction) or isinstance(c, int):
        a = a - math.floor(c)
    if not a.p or list(a.p) == [()]:
        return a
    lo, hi = interval(a.p)
    if lo is not None and hi is not None and math.floor(lo) == math.floor(hi):
        return a - math.floor(lo)
    r = fn_gen("frac", (a,), lambda em: evalf(a, *em) % 1, lo=0, hi=1)
    g = next(iter(r.p))[0][0]
    GENS[g].info = sfrac
    GENS[g].his = True
    FRACS[g] = a
    return r


def sfloor(a):
    a = S(a)
    return a - sfrac(a)


def _unwind(a):
    """2 pi times a fractional part is the same angle as 2 pi times the number"""
    for m, c in a.p.items():
        if len(m) == 2 and m[0] == (0, 1) and m[1][1] == 1 and m[1][0] in FRACS and Fraction(c) % 2 == 0:
            return _unwind(a + c * PI * (FRACS[m[1][0]] - gen_sym(GENS[m[1][0]])))
    return a


def scos(a):
    a = S(a)
    if FRACS:
        a = _unwind(a)
    r = _pi_multiple(a.p)
    if r is not None:
        v = _cos_pi(r)
        if v is not None:
            return v
    a, sign = _turns(a)
    p, _ = _odd_split(a)
    return _trig("cos", p) * sign


def ssin(a):
    a = S(a)
    if FRACS:
        a = _unwind(a)
    r = _pi_multiple(a.p)
    if r is not None:
        v = _cos_pi(r - Fraction(1, 2))
        if v is not None:
            return v
    a, sign = _turns(a)
    p, s = _odd_split(a)
    return _trig("sin", p) * (s * sign)


def _trig(kind, p):
    key = (kind, frozenset(p.items()))
    G = _intern.get(key)
    if G is None:
        G = Gen(kind, "%s(%s)" % (kind, fmt(p)[:60]), arg=p, lo=-1, hi=1)
        _intern[key] = G
    return gen_sym(G)


def sabs(a):
    a = S(a)
    c = a.const()
    if c is not None:
        return Sym(_coerce(abs(c)))
    p = a.p
    lo, hi = interval(p)
    if lo is not None and lo >= 0:
        return a
    if hi is not None and hi <= 0:
        return -a
    cont = content(p)
    base = ONE
    if cont:
        for g, e in cont:
            gs = gen_sym(GENS[g])
            if not GENS[g].nonneg:
                gs = _abs_gen(gs.p)
            base = base * spow(gs, e)
        neg = mono_pow(cont, -1)
        p = {mono_mul(m, neg): v for m, v in p.items()}
    lead = max(p, key=order_key)
    c = p[lead]
    p = {m: nrm(Fraction(v) / c) for m, v in p.items()}
    base = base * abs(c)
    if len(p) == 1 and () in p:
        return base
    return base * _abs_gen(p)


def _abs_gen(p):
    key = ("abs", frozenset(p.items()))
    G = _intern.get(key)
    if G is None:
        G = Gen("abs", "|%s|" % fmt(p)[:60], arg=p, lo=0)
        _intern[key] = G
    return gen_sym(G)


def fn_gen(name, args, evalf, lo=None, hi=None, nonneg=False):
    """uninterpreted function application, interned by its arguments"""
    key = ("fn", name) + tuple(a if not isinstance(a, Sym) else frozenset(a.p.items()) for a in args)
    G = _intern.get(key)
    if G is None:
        G = Gen("fn", "%s(%s)" % (name, ",".join(fmt(a.p)[:30] if isinstance(a, Sym) else str(a) for a in args)),
                arg=tuple(args), lo=lo, hi=hi)
        G.evalf = evalf
        _intern[key] = G
    return gen_sym(G)


# --------------------------------------------------------------------------- calculus

def gen_contains(g, vg, memo):
    r = memo.get(g)
    if r is not None:
        return r
    if g == vg:
        r = True
    else:
        G = GENS[g]
        r = False
        if G.kind == "exp":
            r = any(gen_contains(x, vg, memo) for x, _ in G.arg)
        elif G.kind in ("inv", "sqrt", "cos", "sin", "abs", "def"):
            r = any(gen_contains(x, vg, memo) for m in G.arg for x, _ in m)
        elif G.kind == "fn":
            r = any(gen_contains(x, vg, memo) for a in G.arg if isinstance(a, Sym) for m in a.p for x, _ in m)
        elif G.deps:
            r = vg in G.deps
    memo[g] = r
    return r


def diff(a, v):
    """derivative with respect to the variable v (a Sym that is one generator)"""
    a = S(a)
    ((vg, _),), = v.p.keys()
    memo = {}
    dmemo = {}
    out = {}
    for m, c in a.p.items():
        for i, (g, e) in enumerate(m):
            if not gen_contains(g, vg, memo):
                continue
            d = dmemo.get(g)
            if d is None:
                d = dmemo[g] = _dgen(g, vg, v)
            t = p_mul({mono_mul(m, ((g, -1),)): nrm(c * e)}, d)
            out = p_add(out, t)
    return Sym(p_reduce(out) if REDUCIBLE else out)


def _dgen(g, vg, v):
    if g == vg:
        return {(): 1}
    G = GENS[g]
    if G.kind == "exp":
        return p_mul(diff(Sym({G.arg: 1}), v).p, {((g, 1),): 1})
    if G.kind == "def":
        return diff(Sym(G.arg), v).p
    if G.kind == "inv":
        return p_mul(p_scale(diff(Sym(G.arg), v).p, -1), {((g, 2),): 1})
    if G.kind == "sqrt":
        return p_mul(p_scale(diff(Sym(G.arg), v).p, Fraction(1, 2)), p_inv({((g, 1),): 1}))
    if G.kind == "cos":
        return p_mul(p_scale(diff(Sym(G.arg), v).p, -1), _trig("sin", G.arg).p)
    if G.kind == "sin":
        return p_mul(diff(Sym(G.arg), v).p, _trig("cos", G.arg).p)
    if G.name.startswith("log("):
        return p_mul(diff(G.arg[0], v).p, p_inv(G.arg[0].p))
    raise Unsupported("derivative of %s" % G.kind)


def subs(a, mapping, memo=None):
    """substitute generators: mapping gid -> Sym, recursively"""
    if memo is None:
        memo = {}
    a = S(a)
    out = {}
    for m, c in a.p.items():
        t = {(): c}
        for g, e in m:
            r = _sub_gen(g, mapping, memo)
            if r is None:
                t = p_mul(t, {((g, e),): 1})
            else:
                if Fraction(e).denominator != 1:
                    (mm, cc), = r.p.items()
                    if cc != 1:
                        raise Unsupported("fractional power in substitution")
                    t = p_mul(t, {mono_pow(mm, e): 1})
                else:
                    t = p_mul(t, spow(r, e).p)
        out = p_add(out, t)
    return Sym(out)


def _sub_gen(g, mapping, memo):
    if g in mapping:
        return mapping[g]
    if g in memo:
        return memo[g]
    G = GENS[g]
    r = None
    if G.kind == "exp":
        n = subs(Sym({G.arg: 1}), mapping, memo)
        if n.p != {G.arg: 1}:
            r = sexp(n)
    elif G.kind in ("inv", "sqrt", "cos", "sin", "abs", "def"):
        n = subs(Sym(G.arg), mapping, memo)
        if n.p != G.arg:
            r = {"def": cut, "inv": lambda x: sdiv(1, x), "sqrt": ssqrt, "cos": scos, "sin": ssin, "abs": sabs}[G.kind](n)
    elif G.kind == "fn":
        new = [subs(x, mapping, memo) if isinstance(x, Sym) else x for x in G.arg]
        if any(isinstance(x, Sym) and x.p != y.p for x, y in zip(new, G.arg)):
            rebuild = G.info
            if rebuild is None:
                raise Unsupported("substitution in %s" % G.name)
            r = rebuild(*new)
    memo[g] = r
    return r


# --------------------------------------------------------------------------- numeric evaluation, intervals, fingerprints

def evalf(a, env, memo=None):
    """float value; env: input name -> float; memo gid -> float"""
    if memo is None:
        memo = {}
    a = S(a)
    s = 0.0
    for m, c in a.p.items():
        t = float(c)
        for g, e in m:
            v = gen_evalf(g, env, memo)
            t *= v ** float(e) if Fraction(e).denominator != 1 else (v ** int(e) if (v or e > 0) else math.nan)
        s += t
    return s


def gen_evalf(g, env, memo):
    v = memo.get(g)
    if v is not None:
        return v
    G = GENS[g]
    if G.evalf is not None:
        v = G.evalf((env, memo))
    elif G.kind == "var":
        v = env[G.name]
    elif G.kind == "exp":
        v = math.exp(evalf(Sym({G.arg: 1}), env, memo))
    elif G.kind == "inv":
        d = evalf(Sym(G.arg), env, memo)
        v = 1.0 / d if d else math.nan
    elif G.kind == "sqrt":
        d = evalf(Sym(G.arg), env, memo)
        v = math.sqrt(d) if d >= 0 else math.nan
    elif G.kind == "cos":
        v = math.cos(evalf(Sym(G.arg), env, memo))
    elif G.kind == "sin":
        v = math.sin(evalf(Sym(G.arg), env, memo))
    elif G.kind == "abs":
        v = abs(evalf(Sym(G.arg), env, memo))
    elif G.kind == "def":
        v = evalf(Sym(G.arg), env, memo)
    else:
        raise Unsupported("no value for %s" % G.name)
    memo[g] = v
    return v


def _imul(a, b):
    (al, ah), (bl, bh) = a, b
    c = []
    for x in (al, ah):
        for y in (bl, bh):
            if x is None or y is None:
                c.append(None)
            else:
                c.append(x * y)
    # careful with infinities: only handle the sign-definite cases exactly
    if None not in c:
        return min(c), max(c)
    if al is not None and al >= 0 and bl is not None and bl >= 0:
        return al * bl, (ah * bh if ah is not None and bh is not None else None)
    return None, None


def gen_interval(g):
    G = GENS[g]
    lo, hi = G.lo, G.hi
    if G.kind == "inv" and lo is None and hi is None:
        a, b = interval(G.arg)
        if a is not None and a > 0:
            lo = Fraction(1) / b if b else 0
            hi = Fraction(1) / a
        elif b is not None and b < 0:
            hi = Fraction(1) / a if a else 0
            lo = Fraction(1) / b
    elif G.kind == "def" and lo is None and hi is None:
        lo, hi = interval(G.arg)
    elif G.kind == "exp":
        a, b = interval({G.arg: 1})
        lo = 0
        hi = None
        if a is not None and a >= 0:
            lo = 1
        if b is not None and b <= 0:
            hi = 1
    return lo, hi


def _ipow(iv, e):
    lo, hi = iv
    if Fraction(e).denominator != 1:
        if lo is not None and lo >= 1 and e > 0:
            return 1, None
        if hi is not None and hi <= 1 and e > 0:
            return 0, 1
        return 0, None
    e = int(e)
    if e < 0:
        if lo is not None and lo > 0:
            return _ipow((Fraction(1) / hi if hi is not None else 0, Fraction(1) / lo), -e)
        if lo is not None and lo >= 0 and hi is not None and hi > 0:
            return (Fraction(1) / hi) ** (-e), None
        return None, None
    r = (1, 1)
    if e % 2 == 0 and not (lo is not None and lo >= 0):
        if lo is None or hi is None:
            return 0, None
        m = max(abs(lo), abs(hi))
        l = 0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        return l**e, m**e
    for _ in range(e):
        r = _imul(r, (lo, hi))
    return r


def interval(p):
    lo = hi = 0
    if len(p) > 60:
        return None, None
    for m, c in p.items():
        iv = (1, 1)
        for g, e in m:
            iv = _imul(iv, _ipow(gen_interval(g), e))
            if iv == (None, None):
                break
        a, b = iv
        if c < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + c * a
        hi = None if hi is None or b is None else hi + c * b
        if lo is None and hi is None:
            return None, None
    return lo, hi


PRIME = (1 << 61) - 1
_rng = random.Random(20240229)


# residues live in F_p, or in F_p[i] where a square root needs it (p = 3 mod 4): (re, im)

def _cmul(a, b):
    if type(a) is int and type(b) is int:
        return a * b % PRIME
    a0, a1 = a if type(a) is tuple else (a, 0)
    b0, b1 = b if type(b) is tuple else (b, 0)
    re, im = (a0 * b0 - a1 * b1) % PRIME, (a0 * b1 + a1 * b0) % PRIME
    return (re, im) if im else re


def _cpow(a, e):
    if type(a) is int:
        return pow(a, e % (PRIME - 1), PRIME)
    if e < 0:
        n = pow(a[0] * a[0] + a[1] * a[1], PRIME - 2, PRIME)
        a, e = (a[0] * n % PRIME, -a[1] * n % PRIME), -e
    r = 1
    while e:
        if e & 1:
            r = _cmul(r, a)
        a = _cmul(a, a)
        e >>= 1
    return r


def gen_res(g):
    G = GENS[g]
    if G.res is None:
        if G.kind == "inv":
            G.res = _cpow(fingerprint(G.arg), -1)
        elif G.kind == "def":
            G.res = fingerprint(G.arg)
        elif G.kind == "sqrt":
            a = fingerprint(G.arg)
            if type(a) is not int:
                G.res = _rng.randrange(2, PRIME - 1)
            elif pow(a, (PRIME - 1) // 2, PRIME) == PRIME - 1:
                G.res = (0, pow(PRIME - a, (PRIME + 1) // 4, PRIME))
            else:
                G.res = pow(a, (PRIME + 1) // 4, PRIME)
        else:
            G.res = _rng.randrange(2, PRIME - 1)
    return G.res


def fingerprint(p):
    s, im = 0, 0
    for m, c in p.items():
        if type(c) is Fraction:
            t = c.numerator * pow(c.denominator, PRIME - 2, PRIME) % PRIME
        else:
            t = c % PRIME
        for g, e in m:
            r = gen_res(g)
            if type(r) is tuple:
                t = _cmul(t, _cpow(r, int(e)))
                continue
            if type(e) is Fraction:
                # exp generators: value is the 5040-th power of the residue, so that
                # rational exponents with denominators dividing 5040 make sense
                e5 = e * 5040
                if e5.denominator != 1:
                    e5 = Fraction(hash(e) % PRIME)
                x = pow(r, int(e5) % (PRIME - 1), PRIME)
            elif GENS[g].kind == "exp":
                x = pow(r, (e * 5040) % (PRIME - 1), PRIME)
            else:
                x = pow(r, e % (PRIME - 1), PRIME)
            t = t * x % PRIME if type(t) is int else _cmul(t, x)
        if type(t) is int:
            s += t
        else:
            s += t[0]
            im += t[1]
    im %= PRIME
    return (s % PRIME, im) if im else s % PRIME


def is_zero(a):
    """exact: is the expression identically zero (modulo the eager rules and inv clearing)?"""
    p = S(a).p
    if not p:
        return True
    if fingerprint(p) != 0:
        return False
    q, _ = clear_inv(p)
    if q and CUTS:
        q, _ = clear_inv(expand(Sym(q)).p)
    return not q


# --------------------------------------------------------------------------- cut points

CUT_ON = [True]
ON_EIGDEF = [lambda G: None]
CUTS = []        # gids of definitional generators
_leaf = {}


def leaf(g):
    """depends on inputs only: no exponential, library result or cut point"""
    r = _leaf.get(g)
    if r is None:
        G = GENS[g]
        if G.kind == "inv" or G.kind == "sqrt":
            r = all(leaf(x) for m in G.arg for x, _ in m)
        elif G.kind == "fn":
            r = True
        else:
            r = G.kind == "var" and G.info not in ("stub", "eig", "inv")
        _leaf[g] = r
    return r


RANK = {"eig": 1, "eigdef": 2, "inv": 2}


def cut(a):
    """name a subexpression: content times a generator defined as the primitive part (interned)"""
    a = S(a)
    p = a.p
    if len(p) < 2 or len(p) > 4000:
        return a
    rank, defs = 0, False
    for m in p:
        for g, _ in m:
            if not leaf(g):
                G = GENS[g]
                if G.info in RANK:
                    rank = max(rank, RANK[G.info])
                elif G.kind == "def" and G.info is None:
                    defs = True
                else:
                    return a
    if not rank and defs:
        return a
    cont = content(p)
    neg = mono_pow(cont, -1)
    q = {mono_mul(m, neg): c for m, c in p.items()}
    if len(q) == 2 and () in q and any(len(m) == 1 and m[0][1] == 1 for m in q):
        return a          # 1 - x: as simple as a name
    lead = max(q, key=order_key)
    c = q[lead]
    q = {m: nrm(Fraction(v) / c) for m, v in q.items()}
    key = ("def", frozenset(q.items()))
    G = _intern.get(key)
    if G is None:
        G = Gen("def", "{%s}" % fmt(q)[:40], arg=q)
        _intern[key] = G
        CUTS.append(G.gid)
        if rank:
            G.info = ("eigdef", "eigdef", "invdef")[rank]
            ON_EIGDEF[0](G)
    return Sym({mono_mul(cont, ((G.gid, 1),)): c})


def expand(a):
    """replace the cut points by their definitions, everywhere"""
    a = S(a)
    if not CUTS:
        return a
    return subs(a, {g: Sym(GENS[g].arg) for g in CUTS})


# --------------------------------------------------------------------------- booleans

TRY = [None]      # asks the solver whether a condition is implied or refuted by the path condition, without exploring both sides


class SymBool:
    """lazy boolean over atoms (op, poly): op in '<', '<=', '=' meaning poly op 0"""
    __slots__ = ("t",)
    __hash__ = None
    shape = ()
    ndim = 0

    def __init__(self, t):
        self.t = t

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import array_ufunc
        return array_ufunc(ufunc, method, inputs, kw)

    def __invert__(self):
        return SymBool(("not", self))

    def __and__(self, o):
        return s_and([self, o])

    __rand__ = __and__

    def __or__(self, o):
        return s_or([self, o])

    __ror__ = __or__

    def __xor__(self, o):
        return s_or([s_and([self, s_not(o)]), s_and([s_not(self), o])])

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, int)):
            return self if o else s_not(self)
        return bool(self) == bool(o)

    def __ne__(self, o):
        return s_not(self == o)

    def __bool__(self):
        return decide(self)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return o if bool(self) else (o * 0)

    __rmul__ = __mul__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __rsub__(self, o):
        return o - int(bool(self))

    def __sub__(self, o):
        return int(bool(self)) - o

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def copy(self):
        return self

    def item(self):
        return bool(self)

    def __repr__(self):
        return "SymBool(%s)" % (show_bool(self),)


def show_bool(b):
    if isinstance(b, (bool, np.bool_)):
        return str(bool(b))
    t = b.t
    if t[0] == "not":
        return "not(%s)" % show_bool(t[1])
    if t[0] in ("and", "or"):
        return "(" + (" %s " % t[0]).join(show_bool(x) for x in t[1]) + ")"
    return "%s %s 0" % (fmt(t[1].p), t[0])


def rel(op, d):
    d = S(d)
    c = d.const()
    if c is not None:
        return {"<": c < 0, "<=": c <= 0, "=": c == 0}[op]
    if op == "=" and is_zero(d):
        return True
    lo, hi = interval(d.p)
    if op == "<":
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
        if len(d.p) == 1:
            (m, c), = d.p.items()
            if all(GENS[g].positive for g, _ in m):
                return c < 0
    elif op == "<=":
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
        if len(d.p) == 1:
            (m, c), = d.p.items()
            if all(GENS[g].positive for g, _ in m):
                return c < 0
    else:
        if (hi is not None and hi < 0) or (lo is not None and lo > 0):
            return False
        if len(d.p) == 1:
            (m, c), = d.p.items()
            if all(GENS[g].positive for g, _ in m):
                return False
    return SymBool((op, d))


def _b(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _b(x[()])
    return bool(x)


def s_not(x):
    x = _b(x)
    if isinstance(x, bool):
        return not x
    if x.t[0] == "not":
        return x.t[1]
    return SymBool(("not", x))


def s_and(xs):
    out = []
    for x in xs:
        x = _b(x)
        if x is False:
            return False
        if x is not True:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool(("and", out))


def s_or(xs):
    out = []
    for x in xs:
        x = _b(x)
        if x is True:
            return True
        if x is not False:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool(("or", out))


_decider = [None]


def decide(b):
    b = _b(b)
    if isinstance(b, bool):
        return b
    if _decider[0] is None:
        raise Unsupported("branch outside an exploration: %r" % b)
    return _decider[0](b)


def eval_bool(b, env, memo=None, eps=0.0):
    b = _b(b)
    if isinstance(b, bool):
        return b
    if memo is None:
        memo = {}
    t = b.t
    if t[0] == "not":
        return not eval_bool(t[1], env, memo)
    if t[0] == "and":
        return all(eval_bool(x, env, memo) for x in t[1])
    if t[0] == "or":
        return any(eval_bool(x, env, memo) for x in t[1])
    v = evalf(t[1], env, memo)
    return {"<": v < 0, "<=": v <= 0, "=": v == 0}[t[0]]


def gens_of(a, deep=True, acc=None):
    """all generator ids occurring (recursively) in a Sym"""
    if acc is None:
        acc = set()
    for m in S(a).p:
        for g, _ in m:
            _gens_rec(g, acc, deep)
    return acc


def _gens_rec(g, acc, deep):
    if g in acc:
        return
    acc.add(g)
    if not deep:
        return
    G = GENS[g]
    if G.kind == "exp":
        for x, _ in G.arg:
            _gens_rec(x, acc, deep)
    elif G.kind in ("inv", "sqrt", "cos", "sin", "abs", "def"):
        for m in G.arg:
            for x, _ in m:
                _gens_rec(x, acc, deep)
    elif G.kind == "fn":
        for a in G.arg:
            if isinstance(a, Sym):
                gens_of(a, deep, acc)


reset()
