"""Forward-mode stand-in for autograd: `Box` marks a value that is being differentiated.

Real autograd passes such values through its own `autograd.numpy` only; everything else sees an opaque object.  `Box` does
the same: functions of the `autograd.numpy` namespace carry the derivative along by the rules below, functions of plain
numpy refuse it, writing it into a plain array refuses it.  A function without a rule is Unsupported (inconclusive)."""
import numpy as np

from . import arr, sym
from .arr import base, sarr
from .sym import S, Sym, Unsupported

NOGRAD = set("any all argmax argmin argsort less less_equal greater greater_equal equal not_equal isnan isfinite isinf isclose allclose "
             "array_equal shape ndim size zeros_like ones_like full_like empty_like searchsorted floor ceil round logical_and logical_or logical_not "
             "count_nonzero nonzero isscalar iscomplexobj isrealobj result_type digitize unique array_equiv flatnonzero argwhere signbit rint".split())
JOINT = set("concatenate stack hstack vstack dstack column_stack append array asarray sum mean reshape transpose squeeze expand_dims atleast_1d "
            "atleast_2d atleast_3d ravel broadcast_to tile repeat cumsum flip fliplr flipud take moveaxis swapaxes rollaxis diff roll split array_split "
            "trace diag diagonal negative positive real copy asanyarray ascontiguousarray".split())
ABSENT = set("put place copyto putmask take_along_axis put_along_axis nditer frombuffer fromiter add_at".split())
MULTI = set("einsum dot matmul multiply outer tensordot kron inner vdot".split())
DATA = {"append": 2}
SINGLE_AXIS_LIST = set("concatenate stack hstack vstack dstack column_stack".split())


def isbox(x):
    return type(x) is Box


def has_box(x):
    if isbox(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_box(y) for y in x)
    if isinstance(x, dict):
        return any(has_box(y) for y in x.values())
    return False


def strip(x):
    if isbox(x):
        return x.v
    if isinstance(x, (list, tuple)):
        return type(x)(strip(y) for y in x)
    if isinstance(x, dict):
        return {k: strip(y) for k, y in x.items()}
    return x


def tangent(x):
    """derivative part of an argument that a function is linear in"""
    if isbox(x):
        if x.d is None:
            raise Lost
        return x.d
    if isinstance(x, (list, tuple)):
        return type(x)(tangent(y) for y in x)
    if isinstance(x, np.ndarray):
        return arr.zeros(x.shape)
    return 0


class Lost(Exception):
    """the derivative passed through an operation whose derivative is not modelled"""


def mk(v, d):
    return Box(v, d)


def lin(f, *data):
    try:
        return f(*[tangent(x) for x in data])
    except Lost:
        return None


NS0 = {}


def fn(name):
    return getattr(NS0["np"], name)


def ew(x):
    return sarr(x) if isinstance(x, np.ndarray) else x


def elementwise(name, args, kw):
    if kw:
        raise TypeError("autograd does not differentiate through the arguments %s of %s" % (sorted(kw), name))
    vals = [strip(a) for a in args]
    out = fn(name)(*vals)
    try:
        ds = [tangent(a) for a in args]
    except Lost:
        return mk(out, None)
    if name in ("add", "subtract"):
        d = fn(name)(*ds) + 0 * out
    elif name in ("true_divide", "divide"):
        a, b = vals
        d = ds[0] / b
        if isbox(args[1]):
            d = d - a * ds[1] / (b * b)
        d = d + 0 * out
    elif name == "power":
        a, b = vals
        if isbox(args[1]):
            raise Unsupported("derivative of a variable exponent")
        bb = b if isinstance(b, np.ndarray) else np.array(b)
        low = arr.sarr(np.where(np.asarray(bb) == 0, 1, bb)) if isinstance(b, np.ndarray) else (b if b != 0 else 1)
        d = ds[0] * b * fn("power")(a, low - 1)
        d = d + 0 * out
    elif name == "exp":
        d = ds[0] * out
    elif name == "expm1":
        d = ds[0] * (out + 1)
    elif name == "square":
        d = ds[0] * vals[0] * 2
    elif name == "sqrt":
        d = ds[0] / (2 * out)
    elif name == "reciprocal":
        d = -ds[0] * out * out
    elif name == "cos":
        d = -ds[0] * fn("sin")(vals[0])
    elif name == "sin":
        d = ds[0] * fn("cos")(vals[0])
    elif name in ("maximum", "minimum"):
        a, b = vals
        first = (a >= b) if name == "maximum" else (a <= b)
        d = fn("where")(first, ds[0] + 0 * out, ds[1] + 0 * out)
    elif name == "log":
        d = ds[0] / vals[0]
    elif name == "cosh":
        d = ds[0] * fn("sinh")(vals[0])
    elif name == "sinh":
        d = ds[0] * fn("cosh")(vals[0])
    else:
        raise Unsupported("derivative of " + name)
    return mk(out, d)


ELEM = set("add subtract true_divide divide power exp expm1 square sqrt reciprocal cos sin maximum minimum log cosh sinh".split())
UNKNOWN = set("max min amax amin prod cumprod nan_to_num clip abs absolute fabs sign".split())


def call(name, f, args, kw):
    if not has_box(args) and not has_box(kw):
        return f(*args, **kw)
    if "out" in kw or "where" in kw and name != "where":
        raise TypeError("autograd does not support the arguments out and where")
    if name in NOGRAD:
        return f(*strip(args), **strip(kw))
    if name in ABSENT:
        raise NotImplementedError("autograd has no derivative of " + name)
    v = f(*strip(args), **strip(kw))
    try:
        if name in JOINT:
            n = DATA.get(name, 1)
            if has_box(args[n:]) or has_box(kw):
                raise Unsupported("differentiated argument of %s by keyword" % name)
            return mk(v, f(*([tangent(a) for a in args[:n]] + list(args[n:])), **kw))
        if name in MULTI:
            d = None
            for i, a in enumerate(args):
                if isbox(a):
                    t = f(*[(tangent(b) if j == i else strip(b)) for j, b in enumerate(args)], **kw)
                    d = t if d is None else d + t
            return mk(v, d)
        if name == "where":
            return mk(v, f(strip(args[0]), tangent(args[1]), tangent(args[2])) + 0 * v)
    except Lost:
        return mk(v, None)
    if name in ELEM:
        return elementwise(name, args, kw)
    if name in UNKNOWN:
        return mk(v, None)
    raise Unsupported("autograd rule for numpy.%s" % name)


# plain numpy hands these to the object's own method
DELEGATED = set("squeeze transpose reshape repeat swapaxes shape ndim size any all argmax argmin isscalar ones_like zeros_like".split())


def plain(name, f, args, kw):
    """a function of plain numpy"""
    if not has_box(args) and not has_box(kw):
        return f(*args, **kw)
    if name in DELEGATED and args and isbox(args[0]) and not has_box(args[1:]):
        return call(name, f, args, kw)
    raise TypeError("a value under differentiation was passed to numpy.%s" % name)


def op(name):
    def f(self, other):
        return call(name, fn(name), (self, other), {})
    return f


def rop(name):
    def f(self, other):
        return call(name, fn(name), (other, self), {})
    return f


def method(name):
    def f(self, *a, **k):
        if name in ("reshape", "transpose") and a and not isinstance(a[0], (tuple, list)):
            a = (tuple(a),) if a else a
        return call(name, fn(name), (self,) + a, k)
    return f


class Box:
    __slots__ = ("v", "d")
    __array_ufunc__ = None
    __array_priority__ = 1e6
    __hash__ = None

    def __init__(self, v, d):
        self.v, self.d = v, d

    def __array__(self, *a, **k):
        raise TypeError("a value under differentiation was passed to plain numpy")

    def __array_function__(self, func, types, args, kwargs):
        raise TypeError("a value under differentiation was passed to numpy.%s" % getattr(func, "__name__", func))

    shape = property(lambda s: np.shape(s.v))
    ndim = property(lambda s: np.ndim(s.v))
    size = property(lambda s: np.size(s.v))
    dtype = property(lambda s: np.dtype(float))
    T = property(lambda s: call("transpose", fn("transpose"), (s,), {}))

    def __len__(self):
        return len(self.v)

    def __bool__(self):
        return bool(self.v)

    def __float__(self):
        raise TypeError("float() argument must be a string or a real number, not 'ArrayBox'")

    def __getitem__(self, i):
        i = strip(i)
        return mk(self.v[i], None if self.d is None else self.d[i])

    def astype(self, *a, **k):
        return self

    __add__, __radd__ = op("add"), rop("add")
    __sub__, __rsub__ = op("subtract"), rop("subtract")
    __mul__, __rmul__ = op("multiply"), rop("multiply")
    __truediv__, __rtruediv__ = op("true_divide"), rop("true_divide")
    __pow__, __rpow__ = op("power"), rop("power")
    __matmul__, __rmatmul__ = op("matmul"), rop("matmul")
    __lt__, __le__, __gt__, __ge__ = op("less"), op("less_equal"), op("greater"), op("greater_equal")
    __eq__, __ne__ = op("equal"), op("not_equal")

    def __neg__(self):
        return mk(-self.v, None if self.d is None else -self.d)

    def __abs__(self):
        return call("abs", fn("abs"), (self,), {})


for _m in "reshape transpose squeeze ravel sum mean dot repeat cumsum diagonal swapaxes take argmax argmin any all max min prod clip".split():
    setattr(Box, _m, method(_m))
Box.flatten = method("ravel")


def gradient(f, t):
    """derivative of f at t with respect to (each element of) t, on a new last axis"""
    t = arr.sarr(t) if isinstance(t, np.ndarray) else S(t)
    if not isinstance(t, np.ndarray):
        return deriv_of(f(Box(t, S(1))))
    cols = []
    for j in range(len(t)):
        d = arr.zeros(t.shape)
        d[j] = S(1)
        cols.append(deriv_of(f(Box(t, d))))
    return fn("stack")(cols, axis=-1)


def deriv_of(r):
    if not isbox(r):
        if isinstance(r, np.ndarray):
            return arr.zeros(r.shape)
        if isinstance(r, (Sym, int, float)):
            return S(0)
        raise TypeError("Can't differentiate w.r.t. type %s" % type(r))
    if r.d is None:
        raise Unsupported("derivative passed through an operation without a rule")
    return r.d
