"""Concrete execution of a harness against the real package (real numpy/scipy/autograd).

Server mode (default): one JSON request per line on stdin, one JSON answer per line on stdout.
Replay mode: con.py --replay FILE   exits 1 if the recorded case fails on the current tree.
Runs under /opt/venv/bin/python; imports nothing from the symbolic engine.
"""
import importlib
import json
import math
import os
import sys
import zlib
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))

import numpy as np          # noqa: E402
import scipy                # noqa: E402
import scipy.special        # noqa: E402
import scipy.interpolate    # noqa: E402,F401
import scipy.integrate      # noqa: E402,F401


class Skip(Exception):
    pass


def bdrf_value(k, mu, mup):
    """the concrete function standing for the opaque BDRF mode k"""
    return 0.06 + 0.05 / (k + 1) + 0.07 * mu * mup**2 / (k + 1) + 0.03 * mup * (1 - 0.4 * mu) + 0.02 * k * mu


class ConCtx:
    sym = False
    pi = math.pi
    np = np

    def __init__(self, env):
        import PythonicDISORT
        from PythonicDISORT import subroutines, pydisort
        assert os.path.realpath(PythonicDISORT.__file__).startswith(os.path.realpath(REPO)), PythonicDISORT.__file__
        self.env = env
        self.sub = subroutines
        self.pydisort_mod = sys.modules["PythonicDISORT.pydisort"]
        self._pd = self.pydisort_mod.pydisort
        self.eqs = []
        self.checks = []
        self.calls = 0

    def fresh(self):
        """the solver of another copy of the package, in which nothing has happened yet"""
        import importlib
        old = {k: v for k, v in sys.modules.items() if k.split(".")[0] == "PythonicDISORT"}
        for k in old:
            del sys.modules[k]
        try:
            return importlib.import_module("PythonicDISORT.pydisort").pydisort
        finally:
            for k in [k for k in sys.modules if k.split(".")[0] == "PythonicDISORT"]:
                del sys.modules[k]
            sys.modules.update(old)

    def pd(self, *a, **k):
        self.calls += 1
        return self._pd(*a, **k)

    def var(self, name, lo=None, hi=None, los=False, his=False, special=()):
        if name not in self.env:
            # the symbolic execution stopped before this input was introduced: any value in its range will do
            if lo is None or hi is None:
                raise Skip("no value for " + name)
            u = (zlib.crc32(name.encode()) % 997 + 1) / 999
            return float(lo) + (float(hi) - float(lo)) * u
        return float(self.env[name])

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Skip("assumption")

    def A(self, x):
        return np.array(x, dtype=float)

    def I(self, x):
        return np.array(x, dtype=int)

    def cut(self, x):
        return x

    def num(self, x):
        return float(x)

    def exp(self, x):
        return np.exp(x)

    def cos(self, x):
        return np.cos(x)

    def sqrt(self, x):
        return np.sqrt(x)

    def abs(self, x):
        return np.abs(x)

    def lpmv(self, m, l, x):
        return scipy.special.lpmv(m, l, x)

    def quad_nodes(self, N):
        x, w = np.polynomial.legendre.leggauss(N)
        return (x + 1) / 2, w / 2

    def quad_nodes_raw(self, N):
        return np.polynomial.legendre.leggauss(N)

    def bdrf(self, k):
        def f(mu, neg_mup):
            mu, neg_mup = np.asarray(mu), np.asarray(neg_mup)
            return bdrf_value(k, mu[:, None], neg_mup[None, :])
        return f

    def bdrf1(self, k, mu, mup):
        return bdrf_value(k, mu, mup)

    def deriv(self, f, base, s, room):
        h = min(2e-3, 0.1 * room)
        if h < 1e-5:
            raise Skip("no room for a difference stencil")
        # 8th-order central difference
        c = [4 / 5, -1 / 5, 4 / 105, -1 / 280]
        r = 0
        for k, ck in enumerate(c, 1):
            hk = k * h / 4
            r = r + ck * (np.asarray(f(base + (s + hk)), dtype=float) - np.asarray(f(base + (s - hk)), dtype=float))
        return r / (h / 4)

    def grad(self, f, t):
        """automatic differentiation by the real autograd"""
        import autograd
        return np.asarray(autograd.jacobian(f)(t if isinstance(t, np.ndarray) else float(t)), dtype=float)

    def right_limit(self, f, base, room):
        return f(base + 1e-11 * max(1.0, base))

    def raises(self, fn, *a, **k):
        try:
            fn(*a, **k)
        except Skip:
            raise
        except Exception as e:
            return type(e).__name__
        return None

    def warned(self, fn, *a, any_kind=False, **k):
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            fn(*a, **k)
        return sum(1 for w in log if any_kind or issubclass(w.category, UserWarning))

    def holds(self, cond):
        return bool(np.all(cond))

    def integral(self, f, a, b):
        return scipy.integrate.quad(f, a, b, epsabs=0, epsrel=1e-12)[0]

    def consts(self):
        import scipy.constants as k
        return k.h, k.c, k.k

    def eq(self, label, a, b, tol=1e-6):
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            self.eqs.append(dict(label=label, err=math.inf, fail=True, a=[], msg="shapes %s and %s" % (a.shape, b.shape)))
            return
        scale = max(1e-30, float(np.max(np.abs(a), initial=0)), float(np.max(np.abs(b), initial=0)))
        d = np.abs(a - b)
        bad = ~(np.isfinite(a) & np.isfinite(b))
        err = math.inf if bad.any() else (float(d.max(initial=0)) / scale)
        absd = math.inf if bad.any() else float(d.max(initial=0))
        fail = err > tol and absd > tol * 1e-3
        self.eqs.append(dict(label=label, err=err, fail=bool(fail), a=[float(x) for x in a.ravel()[:64]],
                             b=[float(x) for x in b.ravel()[:64]], scale=scale))

    def check(self, label, cond):
        self.checks.append(dict(label=label, fail=not bool(np.all(cond))))

    def same(self, label, a, b):
        """native (non-symbolic) equality: shapes, types, identities"""
        self.checks.append(dict(label=label, fail=not (a == b), msg="%r vs %r" % (a, b)))

    def no_overflow(self, label):
        pass

    def finite(self, label, a):
        self.checks.append(dict(label=label, fail=not bool(np.all(np.isfinite(np.asarray(a, dtype=float))))))


def run_case(req):
    mod = importlib.import_module(req["mod"])
    fn = getattr(mod, req["fn"])
    ctx = ConCtx(req["env"])
    out = dict(ok=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        old = np.seterr(all="ignore")
        try:
            fn(ctx, **req["params"])
        except Skip as e:
            out.update(skip=str(e))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            out.update(exc="%s: %s" % (type(e).__name__, e), where=["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb][-4:],
                       in_repo=any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO)) for f in tb))
        finally:
            np.seterr(**old)
    out["eqs"] = ctx.eqs
    out["checks"] = ctx.checks
    out["fails"] = [e["label"] for e in ctx.eqs if e["fail"]] + [c["label"] for c in ctx.checks if c["fail"]]
    return out


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        req = json.load(open(sys.argv[2]))
        out = run_case(req)
        for e in out["eqs"]:
            if e["fail"]:
                print("FAIL", e["label"], "relative difference", e["err"], e.get("msg", ""), e["a"][:6], e.get("b", [])[:6])
        for e in out["checks"]:
            if e["fail"]:
                print("FAIL", e["label"], e.get("msg", ""))
        if "exc" in out:
            print("RAISED", out["exc"], out["where"])
        bad = bool(out["fails"]) or "exc" in out
        print("violated" if bad else "holds")
        sys.exit(1 if bad else 0)
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        try:
            out = run_case(json.loads(line))
        except BaseException as e:      # report, never die
            out = dict(ok=False, err="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-1500:])
        sys.stdout.write("@@" + json.dumps(out) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
