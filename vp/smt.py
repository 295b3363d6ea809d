"""Translation of symbolic scalars and booleans to z3 (real arithmetic), feasibility and models."""
import time
from fractions import Fraction

import z3

from . import sym, arr
from .sym import Sym, SymBool, GENS, S

STATS = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "time": 0.0}


def q(c):
    f = Fraction(c)
    return z3.RealVal(str(f.numerator)) / z3.RealVal(str(f.denominator)) if f.denominator != 1 else z3.RealVal(str(f.numerator))


class Enc:
    """one encoding (per path): generator id -> z3 real, with axioms collected per generator"""

    def __init__(self):
        self.v = {}
        self.ax = {}        # gid -> list of z3 formulas
        self.dep = {}       # gid -> set of gids the axioms mention
        self.expbase = {}   # gid -> denominator

    def var(self, g):
        x = self.v.get(g)
        if x is None:
            x = self.v[g] = z3.Real("x%d" % g)
        return x

    def powr(self, g, e):
        """x^e; rational exponents (of exponentials) through an integer-power base"""
        x = self.var(g)
        f = Fraction(e)
        if f.denominator != 1:
            y = z3.Real("x%d_r%d" % (g, f.denominator))
            self.ax.setdefault(g, []).append(z3.And(y > 0, self._ipow(y, f.denominator) == x))
            return self._ipow(y, f.numerator)
        return self._ipow(x, int(f))

    @staticmethod
    def _ipow(x, n):
        if n == 0:
            return z3.RealVal(1)
        r = x
        for _ in range(abs(n) - 1):
            r = r * x
        return r if n > 0 else 1 / r

    def mono(self, m, c=1):
        num, den = [], []
        for g, e in m:
            if e > 0:
                num.append(self.powr(g, e))
            else:
                den.append(self.powr(g, -e))
        r = q(c)
        for x in num:
            r = r * x
        if den:
            d = den[0]
            for x in den[1:]:
                d = d * x
            r = r / d
        return r

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        return z3.Sum([self.mono(m, c) for m, c in p.items()]) if len(p) > 1 else self.mono(*next(iter(p.items())))

    def cleared(self, p):
        """multiply by positive generators to remove negative powers of them"""
        mins = {}
        for m in p:
            for g, e in m:
                if e < 0 and GENS[g].positive and e < mins.get(g, 0):
                    mins[g] = e
        if not mins:
            return p
        k = tuple(sorted((g, -e) for g, e in mins.items()))
        return {sym.mono_mul(m, k): c for m, c in p.items()}

    def boolean(self, b):
        b = sym._b(b)
        if isinstance(b, bool):
            return z3.BoolVal(b)
        t = b.t
        if t[0] == "not":
            return z3.Not(self.boolean(t[1]))
        if t[0] == "and":
            return z3.And([self.boolean(x) for x in t[1]])
        if t[0] == "or":
            return z3.Or([self.boolean(x) for x in t[1]])
        e = self.poly(self.cleared(t[1].p))
        return e < 0 if t[0] == "<" else (e <= 0 if t[0] == "<=" else e == 0)

    def axioms(self, g):
        """axioms about generator g (and the generators they mention)"""
        if g in self.dep:
            return self.ax[g]
        G = GENS[g]
        x = self.var(g)
        out = self.ax.setdefault(g, [])
        dep = self.dep[g] = set()
        if G.lo is not None:
            out.append(x > q(G.lo) if G.los else x >= q(G.lo))
        if G.hi is not None:
            out.append(x < q(G.hi) if G.his else x <= q(G.hi))
        if G.kind == "exp":
            out.append(x > 0)
            a = self.mono(G.arg)
            out.append(z3.Implies(a <= 0, x <= 1))
            out.append(z3.Implies(a >= 0, x >= 1 + a))
            out.append(z3.Implies(a < 0, x < 1))
            dep.update(gg for gg, _ in G.arg)
        elif G.kind == "inv":
            a = self.poly(G.arg)
            out.append(x * a == 1)
            dep.update(gg for m in G.arg for gg, _ in m)
        elif G.kind == "def":
            out.append(x == self.poly(G.arg))
            dep.update(gg for m in G.arg for gg, _ in m)
        elif G.kind == "sqrt":
            out.append(x >= 0)
            out.append(x * x == self.poly(G.arg))
            dep.update(gg for m in G.arg for gg, _ in m)
        elif G.kind == "abs":
            a = self.poly(G.arg)
            out.append(z3.Or(x == a, x == -a))
            out.append(x >= 0)
            dep.update(gg for m in G.arg for gg, _ in m)
        if isinstance(G.info, tuple) and G.info and G.info[0] in ("max", "min"):
            vals = [self.poly(v.p) for v in G.info[1]]
            for v in vals:
                out.append(x >= v if G.info[0] == "max" else x <= v)
            out.append(z3.Or([x == v for v in vals]))
            for v in G.info[1]:
                dep.update(gg for m in v.p for gg, _ in m)
        return out


def bool_gens(b, acc=None):
    if acc is None:
        acc = set()
    b = sym._b(b)
    if isinstance(b, bool):
        return acc
    t = b.t
    if t[0] == "not":
        bool_gens(t[1], acc)
    elif t[0] in ("and", "or"):
        for x in t[1]:
            bool_gens(x, acc)
    else:
        for m in t[1].p:
            acc.update(g for g, _ in m)
    return acc


def closure(enc, gens):
    todo, seen, ax = list(gens), set(), []
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        enc.axioms(g)
        todo.extend(enc.dep[g] - seen)
    for g in seen:
        ax.extend(enc.ax[g])
    return seen, ax


def slice_constraints(enc, gens, cons):
    """constraints sharing generators (transitively) with gens; returns (gens, list)"""
    seen, _ = closure(enc, gens)
    rest = [(c, closure(enc, bool_gens(c))[0]) for c in cons]
    used = []
    changed = True
    while changed:
        changed = False
        left = []
        for it in rest:
            if it[1] & seen or not it[1]:
                used.append(it[0])
                seen |= it[1]
                changed = True
            else:
                left.append(it)
        rest = left
    return seen, used


def run(formulas, timeout_ms=3000, want_model=False, logic=None):
    t = time.time()
    s = z3.SolverFor(logic) if logic else z3.Solver()
    s.set("timeout", timeout_ms)
    for f in formulas:
        s.add(f)
    r = str(s.check())
    STATS["queries"] += 1
    STATS[r] += 1
    STATS["time"] += time.time() - t
    if want_model:
        return r, (s.model() if r == "sat" else None)
    return r


def decide_sat(enc, cons, extra, timeout_ms=3000):
    """sat/unsat/unknown of extra (SymBools) together with the relevant constraints"""
    gens = set()
    for e in extra:
        bool_gens(e, gens)
    seen, used = slice_constraints(enc, gens, cons)
    fs = [enc.boolean(b) for b in used] + [enc.boolean(b) for b in extra]
    _, ax = closure(enc, seen)
    r = run(ax + fs, timeout_ms)
    if r == "unknown":
        r = run(ax + fs, timeout_ms, logic="QF_NRA")
    return r


def model(enc, cons, inputs, rng, tries=6, timeout_ms=3000, box=True):
    """input assignment (name -> Fraction) satisfying the constraints; inputs: name -> gid.
    Diversified by asking for solutions inside random sub-boxes first."""
    gens = set(inputs.values())
    for c in cons:
        bool_gens(c, gens)
    base_fs = [enc.boolean(c) for c in cons]
    _, ax = closure(enc, gens)
    for k in range(tries):
        fs = list(ax) + base_fs
        if box and k < tries - 1:
            for name, g in inputs.items():
                G = GENS[g]
                lo = G.lo if G.lo is not None else Fraction(-2)
                hi = G.hi if G.hi is not None else lo + 4
                # sub-box of relative width 1/4 .. growing with the number of failures
                w = min(Fraction(1), Fraction(1, 4) * (k + 1))
                a = Fraction(rng.randrange(0, 1000), 1000) * (1 - w)
                span = Fraction(hi) - Fraction(lo)
                l = Fraction(lo) + span * (a + w * Fraction(rng.randrange(0, 400), 1000))
                h = Fraction(lo) + span * (a + w)
                x = enc.var(g)
                fs.append(x >= q(l))
                fs.append(x <= q(h))
        r, m = run(fs, timeout_ms, True)
        if r == "sat":
            env = {}
            for name, g in inputs.items():
                v = m.eval(enc.var(g), model_completion=True)
                env[name] = _fr(v)
            return env
    return None


def _fr(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        return _fr(v.approx(20))
    raise ValueError(str(v))
