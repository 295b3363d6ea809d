"""Symbolic execution of harnesses: path exploration, obligations, verdicts, evidence."""
import argparse
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import re
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vp import sym, arr, shim, smt, prove, agrad          # noqa: E402
from vp.sym import Sym, SymBool, S, Unsupported     # noqa: E402
from vp.arr import sarr, base                       # noqa: E402

REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python"


class Infeasible(BaseException):
    pass


class PathEnd(BaseException):
    pass


class OutOfTime(BaseException):
    pass


# --------------------------------------------------------------------------- symbolic context

class SymCtx:
    sym = True

    def __init__(self, explorer, pkg):
        self.x = explorer
        self.pkg = pkg
        self.np = shim.np_shim
        self.inputs = {}
        self.special = {}      # irrational points no solver model can hit: tried when looking for counterexamples
        self.eqs = []
        self.checks = []
        self.pi = sym.PI
        self._fresh = 0
        self.sub = pkg.load("PythonicDISORT.subroutines")
        self.pydisort_mod = pkg.load("PythonicDISORT.pydisort")
        self._pd = self.pydisort_mod.pydisort

    def pd(self, *a, **k):
        return self._pd(*a, **k)

    def fresh(self):
        """the solver of another copy of the package, in which nothing has happened yet"""
        pkg = shim.Package(REPO)
        return pkg.load("PythonicDISORT.pydisort").pydisort

    def var(self, name, lo=None, hi=None, los=False, his=False, special=()):
        v = sym.var(name, lo, hi, los, his)
        if special:
            self.special[name] = list(special)
        g = list(v.p)[0][0][0]
        self.inputs[name] = g
        sym.GENS[g].is_input = True
        return v

    def assume(self, cond):
        for b in _flat(cond):
            b = sym._b(b)
            if b is True:
                continue
            if b is False:
                raise Infeasible
            self.x.add(b)

    def A(self, x):
        return sarr(x).copy()

    def I(self, x):
        return np.array(x, dtype=int)

    def num(self, x):
        return S(x)

    def cut(self, x):
        return sym.cut(x) if sym.CUT_ON[0] else S(x)

    def exp(self, x):
        return np.exp(x) if isinstance(x, np.ndarray) else sym.sexp(S(x))

    def cos(self, x):
        return np.cos(x) if isinstance(x, np.ndarray) else sym.scos(S(x))

    def sqrt(self, x):
        return np.sqrt(x) if isinstance(x, np.ndarray) else sym.ssqrt(S(x))

    def abs(self, x):
        return np.absolute(x) if isinstance(x, np.ndarray) else sym.sabs(S(x))

    def lpmv(self, m, l, x):
        return shim.lpmv(m, l, x)

    def quad_nodes(self, N):
        x, w = shim.leggauss(N)
        return (x + 1) / 2, w / 2

    def quad_nodes_raw(self, N):
        return shim.leggauss(N)

    def bdrf1(self, k, mu, mup):
        from vp.con import bdrf_value
        mu, mup = S(mu), S(mup)
        return sym.fn_gen("rho%d" % k, (mu, mup), lambda em: bdrf_value(k, sym.evalf(mu, *em), sym.evalf(mup, *em)))

    def bdrf(self, k):
        def f(mu, neg_mup):
            mu, neg_mup = base(sarr(mu)), base(sarr(neg_mup))
            if mu.ndim != 1 or neg_mup.ndim != 1:
                raise Unsupported("BDRF called with arrays of other than one dimension")
            out = np.empty((len(mu), len(neg_mup)), dtype=object)
            for i in range(len(mu)):
                for j in range(len(neg_mup)):
                    out[i, j] = self.bdrf1(k, mu[i], neg_mup[j])
            return out.view(arr.SArr)
        return f

    def deriv(self, f, b, s, room):
        r = f(b + s)
        if not isinstance(r, np.ndarray):
            return sym.diff(S(r), s)
        out = np.empty(r.shape, dtype=object)
        rb = base(sarr(r))
        for i in np.ndindex(*r.shape):
            out[i] = sym.diff(S(rb[i]), s)
        return out.view(arr.SArr)

    def grad(self, f, t):
        return agrad.gradient(f, t)

    def right_limit(self, f, b, room):
        self._fresh += 1
        e = sym.var("eps!%d" % self._fresh, 0, None, los=True, evalf=lambda em: 1e-11)
        g = list(e.p)[0][0][0]
        self.x.add(sym._b(e < room))
        r = f(b + e)
        m = {g: sym.ZERO}
        memo = {}

        def one(x):
            x = S(x)
            # a removable 0/0 cannot occur here: exponents and positive powers only
            return sym.subs(x, m, memo)
        if isinstance(r, tuple):
            return tuple(self._map(one, y) for y in r)
        return self._map(one, r)

    @staticmethod
    def _map(fn, r):
        if not isinstance(r, np.ndarray):
            return fn(r)
        out = np.empty(r.shape, dtype=object)
        rb = base(sarr(r))
        for i in np.ndindex(*r.shape):
            out[i] = fn(rb[i])
        return out.view(arr.SArr)

    def raises(self, fn, *a, **k):
        try:
            fn(*a, **k)
        except Unsupported:
            raise
        except Exception as e:
            return type(e).__name__
        return None

    def warned(self, fn, *a, any_kind=False, **k):
        """number of user warnings raised (on the real code, with any_kind: of warnings of any category)"""
        n = len(shim.WARNINGS)
        fn(*a, **k)
        return len(shim.WARNINGS) - n

    def holds(self, cond):
        return all(bool(sym._b(b)) for b in _flat(cond))

    def integral(self, f, a, b):
        qv = sym.var("quadvar!", lo=0, los=True)
        return shim.integral(S(f(qv)), qv, S(a), S(b))

    def consts(self):
        return sym.var("const_h"), sym.var("const_c"), sym.var("const_k")

    def eq(self, label, a, b, tol=1e-6):
        sa, sb = shim._shape(a), shim._shape(b)
        if sa != sb:
            self.eqs.append((label, None, None, "shapes %s and %s" % (sa, sb)))
            return
        self.eqs.append((label, [S(_plain(v)) for v in base(sarr(a)).reshape(-1)], [S(_plain(v)) for v in base(sarr(b)).reshape(-1)], None))

    def check(self, label, cond):
        self.checks.append((label, sym.s_and([sym._b(b) for b in _flat(cond)])))

    def same(self, label, a, b):
        self.checks.append((label, bool(a == b)))

    def no_overflow(self, label):
        """every argument of exp met so far (cfg record) is non-positive"""
        seen = set()
        for x in sym.EXPARGS:
            k = frozenset(x.p.items())
            if k not in seen:
                seen.add(k)
                self.checks.append((label, sym._b(x <= 0)))
        self.checks.append((label, bool(seen)))

    def finite(self, label, a):
        bad = False
        for v in base(sarr(a)).reshape(-1):
            v = S(v)
            if any(sym.GENS[g].name in ("nan!", "uninit!", "inf!") for m in v.p for g, _ in m):
                bad = True
        self.checks.append((label, not bad))


def _plain(v):
    return int(v) if isinstance(v, (bool, SymBool)) else v


def _flat(c):
    if isinstance(c, np.ndarray):
        return list(base(sarr(c)).reshape(-1)) if c.dtype != bool else [bool(x) for x in c.reshape(-1)]
    if isinstance(c, (list, tuple)):
        return [y for x in c for y in _flat(x)]
    return [c]


# --------------------------------------------------------------------------- exploration

class Explorer:
    def __init__(self, fn, params, cfg, rng):
        self.fn, self.params, self.cfg, self.rng = fn, params, cfg, rng
        self.stack = [[]]
        self.stats = dict(paths=0, decisions=0, forks=0)
        self.max_paths = cfg.get("max_paths", 40)
        self.truncated = False

    def add(self, b):
        self.cons.append(b)

    def decide(self, b):
        self.stats["decisions"] += 1
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            r1 = smt.decide_sat(self.enc, self.cons, [b])
            if r1 == "unsat":
                v = False
            else:
                r2 = smt.decide_sat(self.enc, self.cons, [sym.s_not(b)])
                if r2 == "unsat":
                    v = True
                else:
                    v = True
                    self.stats["forks"] += 1
                    self.stack.append(self.taken + [False])
        self.taken.append(v)
        self.cons.append(b if v else sym.s_not(b))
        return v

    def attempt(self, b):
        if smt.decide_sat(self.enc, self.cons, [sym.s_not(b)], 2000) == "unsat":
            return True
        if smt.decide_sat(self.enc, self.cons, [b], 2000) == "unsat":
            return False
        return None

    def paths(self):
        """yields (ctx, outcome) for every feasible path; process each before asking for the next"""
        while self.stack:
            if self.stats["paths"] >= self.max_paths:
                self.truncated = True
                return
            self.prefix = self.stack.pop()
            self.pos = 0
            self.taken = []
            self.cons = []
            shim.reset()
            shim.CONFIG.update(nodes="opaque", solve="x", inv_exact=2, inv_hyps=False, repo=REPO)
            shim.CONFIG.update(self.cfg.get("shim", {}))
            arr.LAZY_WHERE[0] = bool(self.cfg.get("lazy_where"))
            sym.CUT_ON[0] = self.cfg.get("cut", True)
            sym.RECORD.update(div=bool(self.cfg.get("record")), exp=bool(self.cfg.get("record")))
            self.enc = smt.Enc()
            sym._decider[0] = self.decide
            sym.TRY[0] = self.attempt if self.cfg.get("try_where") else None
            pkg = shim.Package(REPO)
            ctx = SymCtx(self, pkg)
            try:
                self.fn(ctx, **self.params)
                outcome = ("done", None)
            except Infeasible:
                continue
            except Unsupported as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if REPO in f.filename]
                outcome = ("unsupported", "%s at %s" % (e, "%s:%d" % (os.path.basename(where[-1].filename), where[-1].lineno) if where else ""))
            except (RecursionError, MemoryError) as e:
                outcome = ("unsupported", type(e).__name__)
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if REPO in f.filename]
                outcome = ("raised", "%s: %s [%s]" % (type(e).__name__, str(e)[:160],
                                                      ",".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in (where or tb)[-3:])))
            finally:
                sym._decider[0] = None
            self.stats["paths"] += 1
            sym._decider[0] = self._late
            yield ctx, outcome
            sym._decider[0] = None

    def _late(self, b):
        raise Unsupported("branch while proving")


class Con:
    """the concrete side, one process"""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VP_REPO=REPO)
        self.p = subprocess.Popen([PY, os.path.join(HERE, "vp", "con.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, env=env, cwd="/")

    def ask(self, mod, fn, params, env):
        if self.p is None or self.p.poll() is not None:
            self.start()
        req = dict(mod=mod, fn=fn, params=params, env={k: float(v) for k, v in env.items()})
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            while True:
                line = self.p.stdout.readline()
                if not line:
                    return dict(ok=False, err="concrete process died")
                if line.startswith("@@"):
                    return json.loads(line[2:])
        except (BrokenPipeError, OSError) as e:
            return dict(ok=False, err=str(e))

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
            except OSError:
                pass


def _nan_equal(a, b, scale, tol):
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= tol * scale


def run_job(job):
    """job: dict(prop, mod, fn, params, cfg, seed, seconds)"""
    t0 = time.time()
    res = dict(job=job["name"], paths=0, obligations=0, proved=0, open=[], violations=[], unsupported=[], validated=0,
               mismatches=[], witnesses=0, samples=[], decisions=0, truncated=False, trivial=0, instances=0)
    mod = importlib.import_module(job["mod"])
    fn = getattr(mod, job["fn"])
    rng = random.Random("%s/%s/%s" % (job["seed"], job["prop"], job["name"]))
    ex = Explorer(fn, job["params"], job["cfg"], rng)
    con = Con()
    deadline = t0 + job["seconds"]

    def onalarm(*a):
        raise OutOfTime
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, job["seconds"] * 1.15 + 5)
    for k in smt.STATS:
        smt.STATS[k] = 0
    stub = {}
    try:
        for ctx, outcome in ex.paths():
            process_path(job, ex, ctx, outcome, con, rng, res, deadline)
            for k, v in shim.STUBCALLS.items():
                stub[k] = stub.get(k, 0) + v
            if time.time() > deadline:
                res["truncated"] = True
                break
            if len(res["violations"]) >= 3:
                break
    except OutOfTime:
        res["truncated"] = True
    except Exception as e:
        res["unsupported"].append("engine error: %s %s" % (type(e).__name__, traceback.format_exc()[-300:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        con.stop()
    res["paths"] = ex.stats["paths"]
    res["decisions"] = ex.stats["decisions"]
    res["forks"] = ex.stats["forks"]
    res["truncated"] = res["truncated"] or ex.truncated
    res["smt"] = dict(smt.STATS)
    res["stubs"] = stub
    res["seconds"] = time.time() - t0
    return res


def envs(ex, ctx, rng, n):
    out = []
    ids = set(ctx.inputs.values()) | {0}
    simple = []
    for b in ex.cons:
        gs = set()
        smt.bool_gens(b, gs)
        if gs <= ids:
            simple.append(b)
    partial = len(simple) < len(ex.cons)      # solve for the input constraints only and filter by evaluation, which is cheap
    for k in range(n * (5 if partial else 4)):
        if len(out) >= n:
            break
        if partial and k >= 4 * n:
            e = smt.model(ex.enc, ex.cons, ctx.inputs, rng)
        else:
            e = smt.model(ex.enc, simple, ctx.inputs, rng)
        if e is None:
            if partial and k < 4 * n:
                continue
            break
        env = {k_: float(v) for k_, v in e.items()}
        memo = {}
        try:
            good = all(sym.eval_bool(c, env, memo) for c in ex.cons)
        except Exception:
            good = True
        if good:
            out.append(env)
    return out


def con_failures(ans, loose=False):
    """labels of failing assertions in a concrete answer"""
    out = []
    for e in ans.get("eqs", []):
        if e["fail"] and (not loose or e["err"] > 1e-4):
            out.append((e["label"], "relative difference %.3g%s" % (e["err"], " " + e.get("msg", ""))))
    for e in ans.get("checks", []):
        if e["fail"]:
            out.append((e["label"], "false " + e.get("msg", "")))
    if "exc" in ans and (ans.get("in_repo")):
        out.append(("no exception", ans["exc"] + " at " + ",".join(ans["where"])))
    return out


def add_violation(job, res, env, fails, why):
    if len(res["violations"]) < 3:
        res["violations"].append(dict(prop=job["prop"], mod=job["mod"], fn=job["fn"], params=job["params"], env=env,
                                      fails=[list(f) for f in fails][:6], why=why, job=job["name"]))


def pinned(cons):
    """inputs that the path condition fixes at a number"""
    out, todo = {}, list(cons)
    while todo:
        b = todo.pop()
        if not isinstance(b, sym.SymBool):
            continue
        if b.t[0] == "and":
            todo += list(b.t[1])
        elif b.t[0] == "not" and isinstance(b.t[1], sym.SymBool) and b.t[1].t[0] == "or":
            todo += [sym.s_not(x) for x in b.t[1].t[1]]
        elif b.t[0] == "=":
            p = b.t[1].p
            ms = [m for m in p if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and sym.GENS[ms[0][0][0]].kind == "var":
                out[ms[0][0][0]] = sym.S(Fraction(-p.get((), 0)) / p[ms[0]])
    return out


def pin(d, pins):
    """d with the fixed inputs replaced where they stand alone (not inside other terms, whose relations stay as they are)"""
    r = {}
    for m, k in d.p.items():
        t = {tuple(x for x in m if x[0] not in pins): k}
        for g, e in m:
            if g in pins:
                if e < 0 or Fraction(e).denominator != 1:
                    return d
                t = sym.p_mul(t, sym.spow(pins[g], e).p)
        r = sym.p_add(r, t)
    return sym.Sym(r)


def process_path(job, ex, ctx, outcome, con, rng, res, deadline):
    nval = job["cfg"].get("validate", 2)
    # 1. witnesses (vacuity) and translator validation on the real code
    models = envs(ex, ctx, rng, nval)
    if models:
        res["witnesses"] += 1
    elif outcome[0] == "done":
        # path conditions that no float model could be found for
        res.setdefault("nowitness", 0)
        res["nowitness"] += 1
    viol = False
    for env in models:
        ans = con.ask(job["mod"], job["fn"], job["params"], env)
        if not ans.get("ok"):
            res["mismatches"].append("concrete run failed: %s" % ans.get("err"))
            continue
        if "skip" in ans:
            continue
        fails = con_failures(ans, loose=(outcome[0] == "done"))
        if fails:
            add_violation(job, res, env, fails, "replayed on the real code")
            viol = True
            break
        if outcome[0] != "done":
            continue
        memo = {}
        bad = None
        for (label, a, b, err), e in zip(ctx.eqs, ans["eqs"]):
            if err or label != e["label"]:
                continue
            try:
                for side, vals in (("a", a), ("b", b)):
                    for x, y in zip(vals[:64], e.get(side, [])):
                        v = sym.evalf(x, env, memo)
                        if not _nan_equal(v, y, max(e.get("scale", 1.0), 1e-4), 2e-5):
                            bad = "%s (%s): encoding %.9g, real code %.9g" % (label, side, v, y)
                            break
            except (OverflowError, ZeroDivisionError, ValueError, Unsupported, np.linalg.LinAlgError, KeyError) as exn:
                bad = None
        if bad:
            res["mismatches"].append(bad)
        else:
            res["validated"] += 1
        if not res["samples"]:
            res["samples"].append(dict(job=job["name"], path=[sym.show_bool(c)[:80] for c in ex.cons][:6], input=env,
                                       obligations=len(ctx.eqs) + len(ctx.checks)))
    if viol:
        return
    # 2. outcome
    if outcome[0] == "unsupported":
        res["unsupported"].append(outcome[1])
        return
    if outcome[0] == "raised":
        # an exception on inputs for which the harness expects none: look for a replay
        for env in envs(ex, ctx, rng, 6):
            ans = con.ask(job["mod"], job["fn"], job["params"], env)
            fails = con_failures(ans)
            if fails:
                add_violation(job, res, env, fails, "exception " + outcome[1])
                return
        res["obligations"] += 1
        res["open"].append("exception not reproduced: " + outcome[1])
        return
    # 3. obligations
    open_ = []
    probe = prove.Probe(models[0]) if models else None
    pins = pinned(ex.cons)
    for label, a, b, err in ctx.eqs:
        if err:
            res["obligations"] += 1
            open_.append((label, None, err))
            continue
        for i, (x, y) in enumerate(zip(a, b)):
            res["obligations"] += 1
            if time.time() > deadline:
                res["open"].append("%s[%d]: out of time" % (label, i))
                continue
            d = x - y
            if pins:
                d = pin(d, pins)
            if not d.p:
                res["trivial"] += 1
                res["proved"] += 1
                continue
            st, info = prove.prove_zero(d, seconds=min(job["cfg"].get("prove_s", 40), max(1, deadline - time.time())), probe=probe)
            res["instances"] += info.get("instances", 0)
            if st == "proved":
                res["proved"] += 1
            else:
                open_.append((label, d, "%s[%d]: %s" % (label, i, {k: v for k, v in info.items() if k != "seconds"})))
    for label, bexp in ctx.checks:
        res["obligations"] += 1
        if bexp is True:
            res["proved"] += 1
            res["trivial"] += 1
            continue
        if bexp is False:
            open_.append((label, False, label + ": false on every input of this path"))
            continue
        r = smt.decide_sat(ex.enc, ex.cons, [sym.s_not(bexp)], 10000)
        if r == "unsat":
            res["proved"] += 1
        else:
            open_.append((label, bexp, "%s: %s" % (label, r)))
    if not open_:
        return
    # 4. counterexamples to the open obligations: solver models, replayed on the real code
    cands = envs(ex, ctx, rng, job["cfg"].get("cex", 8))
    if ctx.special:
        e = smt.model(ex.enc, ex.cons, ctx.inputs, rng)
        if e is not None:
            for name, pts in ctx.special.items():
                for pt in pts:
                    cands.append(dict({k: float(v) for k, v in e.items()}, **{name: pt}))
    bools = [x for _, x, _ in open_ if isinstance(x, SymBool)]
    if bools:
        save = list(ex.cons)
        for b in bools[:4]:
            ex.cons = save + [sym.s_not(b)]
            cands = envs(ex, ctx, rng, 3) + cands
        ex.cons = save
    for env in cands:
        ans = con.ask(job["mod"], job["fn"], job["params"], env)
        if not ans.get("ok") or "skip" in ans:
            continue
        fails = con_failures(ans)
        if fails:
            add_violation(job, res, env, fails, "counterexample of %s" % open_[0][2][:200])
            return
    for label, _, msg in open_:
        res["open"].append(msg[:300])


# --------------------------------------------------------------------------- driver

def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) job=(\S+) label=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("--stop", action="store_true", help="stop at the first violation")
    args = ap.parse_args()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    modname = "props." + args.prop.lower()
    mod = importlib.import_module(modname)
    jobs = []
    for j in mod.jobs(tier):
        name = j.get("name") or "%s(%s)" % (j["fn"], ",".join("%s=%s" % kv for kv in sorted(j["params"].items())))
        if args.job and args.job not in name:
            continue
        jobs.append(dict(prop=args.prop, mod=j.get("mod", modname), fn=j["fn"], params=j["params"], cfg=j.get("cfg", {}), name=name, seed=seed,
                         seconds=j.get("seconds", 120 if tier == "quick" else 900), weight=j.get("weight", 1)))
    jobs.sort(key=lambda j: -j["weight"])
    budget = 600 if tier == "quick" else 5400
    results = []
    ctxm = mp.get_context("fork")
    with ctxm.Pool(min(args.procs, max(1, len(jobs))), maxtasksperchild=4) as pool:
        it = [pool.apply_async(run_job, (j,)) for j in jobs]
        for j, r in zip(jobs, it):
            left = budget - (time.time() - t0)
            try:
                results.append(r.get(timeout=max(1, left)))
            except mp.TimeoutError:
                results.append(dict(job=j["name"], paths=0, obligations=1, proved=0, open=["not finished in the time of the run"], violations=[],
                                    unsupported=[], validated=0, mismatches=[], witnesses=0, samples=[], decisions=0, truncated=True,
                                    trivial=0, instances=0, smt={}, stubs={}, seconds=0))
            if args.stop and results[-1]["violations"]:
                break
        pool.terminate()
    wall = time.time() - t0
    tot = lambda k: sum(r[k] for r in results)
    smt_tot = {k: sum(r["smt"].get(k, 0) for r in results) for k in ("queries", "sat", "unsat", "unknown", "time")}
    stubs = {}
    for r in results:
        for k, v in r["stubs"].items():
            stubs[k] = stubs.get(k, 0) + v
    viols = [v for r in results for v in r["violations"]]
    known = known_findings(args.prop)
    fresh, listed = [], []
    for v in viols:
        hit = None
        for jn, lab, what in known:
            if jn == v["job"] and all(f[0].startswith(lab) for f in v["fails"]):
                hit = what
        (listed if hit else fresh).append((v, hit))
    undecided = [(r["job"], m) for r in results for m in r["open"]] + [(r["job"], "unsupported: " + m) for r in results for m in r["unsupported"]]
    mism = [(r["job"], m) for r in results for m in r["mismatches"]]
    nowit = sum(r.get("nowitness", 0) for r in results)
    trunc = [r["job"] for r in results if r["truncated"]]
    info = getattr(mod, "INFO", {})
    ev = dict(property=args.prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(fresh),
              coverage=dict(states=tot("paths"), transitions=tot("decisions"), traces_validated_against_impl=tot("validated"),
                            samples=[s for r in results for s in r["samples"]][:4],
                            harness_configurations=len(jobs), obligations=tot("obligations"), discharged=tot("proved"),
                            discharged_by_normal_form=tot("trivial"), contract_instances=tot("instances"),
                            solver_queries=smt_tot["queries"], solver_unsat=smt_tot["unsat"], solver_sat=smt_tot["sat"],
                            solver_unknown=smt_tot["unknown"], solver_seconds=round(smt_tot["time"], 2),
                            path_witnesses=tot("witnesses"), paths_without_witness=nowit, library_contracts_used=stubs,
                            functions_encoded=info.get("functions", []), bounds=info.get("bounds", "") + sizes(jobs),
                            undecided=["%s: %s" % x for x in undecided][:20], encoding_mismatches=["%s: %s" % x for x in mism][:10],
                            truncated=trunc,
                            explanation="states = feasible symbolic paths through harness and code, each covering every input that satisfies its path condition; transitions = branch decisions taken"),
              assumptions=list(info.get("assumptions", [])) + COMMON_ASSUMPTIONS)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", args.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if args.v:
        for r in results:
            print("%-60s paths %3d obl %4d proved %4d valid %2d open %d unsup %d viol %d mism %d  %.1fs%s" % (
                r["job"][:60], r["paths"], r["obligations"], r["proved"], r["validated"], len(r["open"]), len(r["unsupported"]),
                len(r["violations"]), len(r["mismatches"]), r["seconds"], " TRUNC" if r["truncated"] else ""))
    for j, m in mism[:10]:
        print("ENCODING-MISMATCH %s: %s" % (j, m))
    for j, m in undecided[:10]:
        print("INCONCLUSIVE %s: %s" % (j, m))
    if len(undecided) > 10:
        print("INCONCLUSIVE ... %d in all" % len(undecided))
    print("%s %s: %d configurations, %d paths, %d/%d obligations discharged, %d queries (%.1fs solver), %d traces validated, %.1fs" % (
        args.prop, tier, len(jobs), tot("paths"), tot("proved"), tot("obligations"), smt_tot["queries"], smt_tot["time"], tot("validated"), wall))
    for v, what in listed:
        print("KNOWN-FINDING: property=%s %s" % (args.prop, what))
    if fresh:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, (v, _) in enumerate(fresh[:3]):
            path = os.path.join(rd, "%s_%d.json" % (args.prop, i))
            json.dump(v, open(path, "w"), indent=1)
            print("  %s %s" % (v["job"], "; ".join("%s: %s" % tuple(f) for f in v["fails"][:3])))
            print("VIOLATION property=%s replay=%s" % (args.prop, path))
        sys.exit(1)
    if tot("proved") * 2 < tot("obligations") or tot("obligations") == 0:
        print("ERROR: less than half of the obligations could be decided")
        sys.exit(2)
    sys.exit(0)


def sizes(jobs):
    """the sizes the configurations of this run cover"""
    res = []
    for key, what, f in (("N", "NQuad", 2), ("L", "layers", 1), ("NF", "Fourier modes", 1), ("iso", "source coefficients", 1), ("NLeg_all", "Legendre coefficients with corrections", 1)):
        v = sorted({j["params"][key] * f for j in jobs if isinstance(j["params"].get(key), int)})
        if v:
            res.append("%s %s" % (what, ", ".join(map(str, v))))
    return "; sizes in this run: " + ", ".join(res) if res else ""


COMMON_ASSUMPTIONS = [
    "real-number semantics: rounding, overflow and cancellation are outside the claim",
    "library calls obey their contracts: eig returns positive K^2 with M V = V K^2 and V invertible; inv, solve, solve_banded return the unique solution; "
    "Gauss-Legendre nodes lie near their true values; Legendre functions have their parity",
    "no exactly singular parameters (1/mu0 equal to an eigenvalue, 1/mu equal to 1/mu0 in the IMS weights)",
]

if __name__ == "__main__":
    main()
