"""Equality obligations: target == 0 follows from the stub contracts.

The contracts are polynomial equations h = 0.  A search proposes multipliers m (Laurent
monomials); m*h = 0 is then a consequence of the contract.  Monomials become real
variables and the solver decides the linear problem
        { m*h = 0 }  and  target != 0         (unsat: the equality holds)
The search only proposes instances of the contracts; it decides nothing.

Large targets are first split: generators that occur in no contract factor out, so that
target = sum of outer_i * q_i, and every q_i = 0 is an obligation of its own.  Contracts are
brought in by levels (eigenvectors, inverses, linear systems); a level may leave a rest r_i,
the solver then decides { m*h = 0 } and q_i != r_i, and the rests go to the next level.
"""
import time
from collections import defaultdict
from fractions import Fraction

import numpy as np
import z3

from . import sym, shim, smt
from .sym import Sym, S, GENS, mono_mul, mono_div, p_mul, p_add, p_scale, nrm

LIMIT = {"terms": 60000, "seconds": 60}


def _upart(m, U):
    return tuple((g, e) for g, e in m if g in U)


class Hyp:
    def __init__(self, p, U, label):
        self.p, self.U, self.label = p, U, label
        self.ms = sorted(p, key=lambda m: (len(_upart(m, U)) == 0, len(m), m))
        # signature monomials: a few, with different unknown parts
        seen, sig = set(), []
        for m in self.ms:
            u = _upart(m, U)
            if u and u not in seen:
                seen.add(u)
                sig.append((m, u))
        self.sig = sig[:6]


def hyps_for(target_gens, hyps):
    """contracts whose unknowns occur in the target (transitively)"""
    gens = set(target_gens)
    use = []
    rest = list(hyps)
    changed = True
    while changed:
        changed = False
        left = []
        for h in rest:
            if h[0] & gens:
                use.append(h)
                for e in h[1]:
                    for m in e.p:
                        gens.update(g for g, _ in m)
                changed = True
            else:
                left.append(h)
        rest = left
    allu = set()
    for h in use:
        allu |= h[0]
    return [Hyp(e.p, allu, lab) for U, es, lab in use for e in es if e.p]


def relevant(p, hyps):
    gens = set(g for m in p for g, _ in m)
    use, rest, changed = [], list(hyps), True
    seen = set()
    while changed:
        for g in list(gens):
            if g not in seen:
                seen.add(g)
                if GENS[g].kind == "def":
                    gens.update(x for m in GENS[g].arg for x, _ in m)
        changed = False
        left = []
        for h in rest:
            if h[0] & gens:
                use.append(h)
                for e in h[1]:
                    for m in e.p:
                        gens.update(g for g, _ in m)
                changed = True
            else:
                left.append(h)
        rest = left
    return use


def _bad_q(qm):
    for g, e in qm:
        if e < 0 and (g in sym.REDUCIBLE):
            return True
    return False


def _matches(d, u):
    for g, e in u:
        x = d.get(g, 0)
        if x == 0:
            return False
        if not GENS[g].positive and ((e > 0) != (x > 0) or abs(x) < abs(e)):
            return False
    return True


def search(target, hyps, deadline, rounds=300, grow=4):
    """propose instances; returns (remaining target, [(hyp index, multiplier, product poly, coefficient)])"""
    used = []
    tried = set()
    t = dict(target)
    best_t, best_n = t, 0
    stale = 0
    byu = []
    for hi, h in enumerate(hyps):
        for s, u in h.sig:
            byu.append((hi, h, s, u))
    dicts = {}
    for _ in range(rounds):
        if not t or time.time() > deadline:
            break
        ds = []
        index = defaultdict(list)
        for m in t:
            d = dicts.get(m)
            if d is None:
                d = dicts[m] = dict(m)
            for g in d:
                index[g].append((m, d))
        best = []
        quots = {}
        for hi, h, s, u in byu:
            lst = index.get(u[0][0])
            if not lst:
                continue
            if len(u) > 1:
                l2 = index.get(u[1][0])
                if not l2:
                    continue
                if len(l2) < len(lst):
                    lst = l2
            for m, d in lst:
                if _matches(d, u):
                    qm = mono_div(m, s)
                    if (hi, qm) in tried or (hi, qm) in quots or _bad_q(qm):
                        continue
                    quots[(hi, qm)] = (s, m)
        for (hi, qm), (s, m) in quots.items():
            h = hyps[hi]
            hits = 0
            n = 0
            c = Fraction(t[m]) / h.p[s]
            for k, v in h.p.items():
                n += 1
                x = t.get(mono_mul(qm, k))
                if x is not None:
                    hits += 1 if x == c * v else 0.6
                if n > 40 and hits < n * 0.2:
                    break
            best.append(((2 * hits - len(h.p)) / len(h.p), hits, hi, qm, c))
        if not best:
            break
        best.sort(key=lambda b: (-b[0], -b[1], b[2], b[3]))
        applied = 0
        touched = set()
        top = best[0][0]
        for gain, hits, hi, qm, c in best:
            if applied and (gain < 0.3 or gain < top * 0.5):
                break
            h = hyps[hi]
            prod = p_mul({qm: 1}, h.p)
            if any(k in touched for k in prod):
                continue
            votes = defaultdict(int)
            for k, v in prod.items():
                x = t.get(k)
                if x is not None:
                    votes[nrm(Fraction(x) / v)] += 1
            tried.add((hi, qm))
            if not votes:
                continue
            cc = max(votes, key=lambda z: (votes[z], -abs(z)))
            used.append((hi, qm, prod, cc))
            t = p_add(t, p_scale(prod, -cc))
            if sym.REDUCIBLE:
                t = sym.p_reduce(dict(t))
            touched.update(prod)
            applied += 1
            if len(t) > LIMIT["terms"]:
                return best_t, used[:best_n]
        if not applied:
            break
        if len(t) < len(best_t):
            best_t, best_n, stale = t, len(used), 0
        else:
            stale += 1
            if stale > 30 or len(t) > grow * len(target) + 400:
                break
    if not t:
        return t, used
    return best_t, used[:best_n]


def linear_query(target, products, timeout_ms=20000):
    """z3 LRA: products (polys) = 0 and target != 0 over monomials as variables"""
    vs = {}

    def lin(p):
        ts = []
        for m, c in p.items():
            if not m:
                ts.append(smt.q(c))
            else:
                v = vs.get(m)
                if v is None:
                    v = vs[m] = z3.Real("m%d" % len(vs))
                ts.append(smt.q(c) * v)
        return z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
    fs = [lin(p) == 0 for p in products]
    fs.append(lin(target) != 0)
    return smt.run(fs, timeout_ms, logic="QF_LRA")


class Rules:
    """the contracts of one level as rewrite rules lead -> rest (an admissible order on the non-invertible part)"""

    def __init__(self, hyps, deadline):
        self.mod = set()
        for h in hyps:
            for m in h.p:
                for g, _ in m:
                    G = GENS[g]
                    if (G.kind == "def" or G.info in ("eig", "inv", "stub")) and not G.positive:
                        self.mod.add(g)
        self.rules = []          # (lead, poly with lead coefficient monomial 1)
        self.index = defaultdict(list)
        todo = sorted(hyps, key=lambda h: (self.key(self.lead(h.p))[0], len(h.p)))
        for h_ in todo:
            p = h_.p
            if time.time() > deadline:
                break
            h = p
            p, used = self.nf(p, deadline, limit=2000) if h_.label in ("eig", "inv") else (h, ())
            if not p or len(p) > 2000 or (used and linear_query(p, [h] + used) != "unsat"):
                continue
            ld = self.lead(p)
            if not self.key(ld)[0]:
                continue
            self.index[self.key(ld)[1][0][0]].append(len(self.rules))
            self.rules.append((ld, self.mpart(ld), p))

    def key(self, m):
        u = tuple(sorted(((g, e) for g, e in m if g in self.mod), reverse=True))
        return (sum(e for _, e in u), u)

    def lead(self, p):
        return max(p, key=lambda m: (self.key(m), m))

    def mpart(self, m):
        return tuple((g, e) for g, e in m if g in self.mod)

    def find(self, m):
        d = None
        for g, e in m:
            if g in self.mod:
                for ri in self.index.get(g, ()):
                    ld, mp, p = self.rules[ri]
                    if d is None:
                        d = dict(m)
                    if all(d.get(x, 0) >= y for x, y in mp):
                        qm = mono_div(m, ld)
                        if not _bad_q(qm):
                            return ri, qm
        return None

    def nf(self, t, deadline, limit=20000):
        t = dict(t)
        used = []
        memo = {}
        while time.time() < deadline and len(t) <= limit:
            cand = None
            for m in t:
                f = memo.get(m, 0)
                if f == 0:
                    f = memo[m] = self.find(m)
                if f is not None:
                    k = self.key(m)
                    if cand is None or k > cand[0]:
                        cand = (k, m, f)
            if cand is None:
                break
            _, m, (ri, qm) = cand
            ld, _, p = self.rules[ri]
            c = Fraction(t[m]) / p[ld]
            prod = p_mul({qm: 1}, p)
            used.append(prod)
            t = p_add(t, p_scale(prod, -c))
            if sym.REDUCIBLE:
                t = sym.p_reduce(dict(t))
            if len(used) > 5000:
                break
        return t, used


PRIME = (1 << 61) - 1


def _modrow(p):
    r = {}
    for m, c in p.items():
        c = Fraction(c)
        v = c.numerator % PRIME * pow(c.denominator, PRIME - 2, PRIME) % PRIME
        if v:
            r[m] = v
    return r


def span_search(t, hyps, deadline, rounds=3, limit=500):
    """small targets: collect the instances reachable from the target's monomials and look for it in their
    linear span (modulo a prime, confirmed by the solver afterwards)"""
    prods, tried = [], set()
    seen = set(t)
    frontier = list(t)
    for _ in range(rounds):
        new = []
        for m in frontier:
            d = dict(m)
            for hi, h in enumerate(hyps):
                if len(h.p) > 200:
                    continue
                for s, u in h.sig:
                    if not _matches(d, u):
                        continue
                    qm = mono_div(m, s)
                    if (hi, qm) in tried or _bad_q(qm):
                        continue
                    tried.add((hi, qm))
                    prod = p_mul({qm: 1}, h.p)
                    prods.append((hi, qm, prod))
                    for k in prod:
                        if k not in seen:
                            seen.add(k)
                            new.append(k)
            if len(prods) > limit or time.time() > deadline:
                break
        # eliminate
        basis = {}

        def red(r):
            while r:
                lead = max(r)
                b = basis.get(lead)
                if b is None:
                    return r
                c = r[lead]
                for m, v in b.items():
                    x = (r.get(m, 0) - c * v) % PRIME
                    if x:
                        r[m] = x
                    else:
                        r.pop(m, None)
            return r

        for hi, qm, prod in prods:
            if time.time() > deadline:
                return None
            r = red(_modrow(prod))
            if r:
                lead = max(r)
                c = pow(r[lead], PRIME - 2, PRIME)
                basis[lead] = {m: v * c % PRIME for m, v in r.items()}
        if not red(_modrow(t)):
            return [p for _, _, p in prods]
        if not new or len(prods) > limit:
            return None
        frontier = new
    return None


def split(p, inner):
    """p = sum of outer * q(inner generators): the q are independent obligations"""
    groups = {}
    for m, c in p.items():
        o = tuple(x for x in m if x[0] not in inner)
        groups.setdefault(o, {})[tuple(x for x in m if x[0] in inner)] = c
    return sorted(groups.items(), key=lambda kv: len(kv[1]))


def normalised(t):
    """up to a scalar and a monomial factor"""
    k = sym.mono_pow(sym.content(t), -1)
    if _bad_q(k):
        k = ()
    t = {mono_mul(m, k): c for m, c in t.items()}
    c = t[min(t)]
    return frozenset((m, nrm(Fraction(v) / c)) for m, v in t.items())


def factor(t):
    """take out factors 1 - x (x an input); -> (factor or None, quotient)"""
    fac = None
    if len(t) < 4 or len(t) > 2000:
        return None, t
    for g in sorted(set(g for m in t for g, _ in m)):
        G = GENS[g]
        if G.kind != "var" or not G.is_input:
            continue
        x1 = {(): 1, ((g, 1),): -1}
        while len(t) > 2:
            # group by the rest of the monomial: every group must vanish at x = 1
            s = defaultdict(int)
            for m, c in t.items():
                s[tuple(y for y in m if y[0] != g)] += c
            if any(s.values()):
                break
            q = _div1(t, g)
            if q is None:
                break
            t = q
            fac = x1 if fac is None else p_mul(fac, x1)
    return fac, t


def _content_free(t):
    """divide a contract by 1 - x where the bounds of the input x exclude 1"""
    for g in sorted(set(g for m in t for g, _ in m)):
        G = GENS[g]
        if G.kind != "var" or not G.is_input or G.hi is None or not (G.hi < 1 or (G.hi == 1 and G.his)):
            continue
        while 2 < len(t) < 2000:
            s = defaultdict(int)
            for m, c in t.items():
                s[tuple(y for y in m if y[0] != g)] += c
            if any(s.values()):
                break
            q = _div1(t, g)
            if q is None:
                break
            t = q
    return t


def _div1(t, g):
    """exact quotient by 1 - x"""
    groups = defaultdict(dict)
    for m, c in t.items():
        e = 0
        for y in m:
            if y[0] == g:
                e = y[1]
        if type(e) is not int:
            return None
        groups[tuple(y for y in m if y[0] != g)][e] = c
    out = {}
    for o, d in groups.items():
        lo, hi = min(d), max(d)
        acc = 0
        for e in range(lo, hi):
            acc = nrm(acc + d.get(e, 0))
            if acc:
                out[mono_mul(o, ((g, e),) if e else ())] = acc
        if acc + d.get(hi, 0) != 0:
            return None
    return out


def staged(p, hs, order, extra, stop, info, probe=None, rewrite=False):
    rest, unnamed = p, False
    for lv in range(1, len(order) + 1):
        hl = [h for h in hs if h[2] in order[:lv]]
        if order[lv - 1] in ("inv", "solve") and not unnamed:
            # names of sums over an inverse: back to their definitions
            unnamed = True
            names = {g: Sym(GENS[g].arg) for g in sym.CUTS if GENS[g].info == "invdef"}
            if names:
                memo = {}
                back = lambda x: sym.subs(x, names, memo)
                rest = back(Sym(rest)).p
                hs = [(U, [back(x) for x in es], lab) if any(g in names for x in es for m in x.p for g, _ in m) else (U, es, lab)
                      for U, es, lab in hs]
                hl = [h for h in hs if h[2] in order[:lv]]
        H = hyps_for(set(g for m in rest for g, _ in m), hl)
        H += [Hyp(x.p, frozenset(g for m in x.p for g, _ in m), "extra") for x in extra]
        if not H:
            continue
        inner = set(g for h in H for m in h.p for g, _ in m)
        left = {}
        cache = {}
        groups = split(rest, inner)
        if rewrite:
            rules = Rules(H, stop)
        for gi, (o, t) in enumerate(groups):
            key = normalised(t)
            known = cache.get(key)
            if known:
                continue
            if known is None and len(t) <= 1 or (probe is not None and probe.nonzero(t)):
                if lv == len(order):
                    info["why"] = "not zero at a model"
                    return p
                known = False
            if known is False and (not rewrite or len(t) <= 1):
                cache[key] = False
                for m, c in t.items():
                    mm = mono_mul(o, m)
                    x = left.get(mm, 0) + c
                    if x:
                        left[mm] = nrm(x)
                    else:
                        left.pop(mm, None)
                continue
            fac, t0_ = factor(t)
            t_full, t = t, t0_
            share = time.time() + max(2.0, (stop - time.time()) / (len(groups) - gi))
            if rewrite:
                r, prods = rules.nf(t, min(stop, share), 10 * len(t) + 500)
                info["instances"] += len(prods)
                if r and (lv == len(order) or len(r) > 4 * len(t) + 200):
                    r, prods = t, ()
                if prods and linear_query(p_add(t, p_scale(r, -1)), prods) != "unsat":
                    r = t
                used = ()
            else:
                r, used = search(t, H, min(stop, share))
            if used:
                info["instances"] += len(used)
                if linear_query(p_add(t, p_scale(r, -1)), [u[2] for u in used]) != "unsat":
                    r = t
            if r and len(t) <= 80 and lv == len(order):
                ps = span_search(t, H, min(stop, time.time() + 4))
                if ps is not None and linear_query(t, ps) == "unsat":
                    info["instances"] += len(ps)
                    r = {}
            cache[key] = not r
            if fac is not None:
                r = p_mul(r, fac)
            for m, c in r.items():
                mm = mono_mul(o, m)
                x = left.get(mm, 0) + c
                if x:
                    left[mm] = nrm(x)
                else:
                    left.pop(mm, None)
            if time.time() > stop:
                for o2, t2 in groups[gi + 1:]:
                    for m, c in t2.items():
                        left[mono_mul(o2, m)] = c
                return left
        if sym.REDUCIBLE:
            left = sym.p_reduce(left)
        rest = left
        if not rest:
            return rest
    return rest


class Probe:
    """one model of the path condition: a sum that is not zero there follows from no contract, so it is not searched"""

    def __init__(self, env):
        self.env, self.memo = env, {}

    def nonzero(self, p):
        tot, mag = 0.0, 0.0
        try:
            for m, c in p.items():
                t = float(c)
                for g, e in m:
                    t *= sym.gen_evalf(g, self.env, self.memo) ** (int(e) if Fraction(e).denominator == 1 else float(e))
                tot += t
                mag += abs(t)
        except (ArithmeticError, ValueError, KeyError, sym.Unsupported, TypeError, np.linalg.LinAlgError):
            return False
        return bool(abs(tot) > 1e-6 * mag)


LEVELS = ("def", "eig", "inv", "solve")


def prove_zero(e, hyps=None, seconds=None, extra=(), probe=None):
    """-> (status, info); status in proved / open"""
    e = S(e)
    t0 = time.time()
    deadline = t0 + (seconds or LIMIT["seconds"])
    info = {"terms": len(e.p), "instances": 0}
    if not e.p:
        return "proved", info
    if any(GENS[g].name in ("uninit!", "nan!", "inf!") for m in e.p for g, _ in m):
        return "open", dict(info, why="reads memory that was never written, or divides by zero")
    if probe is not None and probe.nonzero(e.p):
        return "open", dict(info, why="not zero at a model of the path condition")
    hyps = shim.HYPS if hyps is None else hyps
    has_inv = any(g in sym.REDUCIBLE for m in e.p for g, _ in m)
    has_def = bool(sym.CUTS)
    modes = [(False, False)]
    if has_inv:
        modes.append((False, True))
    if has_def:
        modes.append((True, has_inv or bool(sym.REDUCIBLE)))
    if len(e.p) < 500 or sym.fingerprint(e.p) == 0:
        # closed by normalisation alone?
        for ex, cl in modes[1:]:
            try:
                sym.STOP[0] = time.time() + 1.5
                x = sym.expand(e) if ex else e
                if len(x.p) < 5000 and not (sym.clear_inv(x.p)[0] if cl else x.p):
                    return "proved", info
            except sym.Unsupported:
                pass
            finally:
                sym.STOP[0] = None
    labels = []
    for h in hyps:
        if h[2] not in labels:
            labels.append(h[2])
    order = [x for x in LEVELS if x in labels] + [x for x in labels if x not in LEVELS]
    if "def" in order and "eig" in order:
        order.remove("def")
        order[0] = "eig"
        hyps = [(U, es, "eig" if lab == "def" else lab) for U, es, lab in hyps]
    if "idef" in order:
        order.remove("idef")
        hyps = [h for h in hyps if h[2] != "idef"]
    def prep(x, expand, clear):
        x = sym.expand(x) if expand else x
        return sym.clear_inv(x.p)[0] if clear else x.p
    def attempt(p, expand, clear, stop):
        hs = relevant(p, hyps)
        if expand or clear:
            sym.STOP[0] = stop
            hs = [(U, [Sym(_content_free(prep(x, expand, clear))) for x in es], lab) for U, es, lab in hs]
            sym.STOP[0] = None
        now = time.time()
        rest = staged(p, hs, order, extra, now + min(2, (stop - now) / 8), info, probe) if len(p) < 200 else p
        if rest:
            rest = staged(p, hs, order, extra, now + (stop - now) / 2, info, probe, rewrite=True)
        if rest:
            rest = staged(p, hs, order, extra, stop, info, probe)
        if rest:
            info["rest"] = len(rest)
        return not rest

    def proved():
        info["seconds"] = time.time() - t0
        return "proved", info
    total = deadline - t0
    try:
        # as it is, if that takes next to no time
        if attempt(e.p, False, False, t0 + min(4, total / 8)):
            return proved()
        todo = [(len(e.p), 0, e.p, False, False)]
        for k, (expand, clear) in enumerate(modes[1:]):
            sym.STOP[0] = time.time() + total / 6
            try:
                p = prep(e, expand, clear)
            except sym.Unsupported as ex:
                info["why"] = str(ex)
                continue
            finally:
                sym.STOP[0] = None
            if not p:
                return proved()
            todo.append((len(p), k + 1, p, expand, clear))
        todo.sort(key=lambda x: x[:2])
        t1 = time.time()
        for k, (_, _, p, expand, clear) in enumerate(todo):
            try:
                if attempt(p, expand, clear, t1 + (deadline - t1) * (k + 1) / len(todo)):
                    return proved()
            except sym.Unsupported as ex:
                info["why"] = str(ex)
            if time.time() > deadline:
                break
    except sym.Unsupported as ex:
        info["why"] = str(ex)
    finally:
        sym.STOP[0] = None
    info["seconds"] = time.time() - t0
    return "open", info
