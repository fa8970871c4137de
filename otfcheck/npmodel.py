"""Abstract semantics of the external libraries the analysed package uses (numpy, scipy, stdlib helpers, plotting)."""
import functools
import math

from . import poly as P
from .poly import P1, ZERO, F, as_poly, mk_atom
from .values import *
from .state import *
from .nparr import *
from .nparr import _NoDist
from .interp import (boolv, num, intv, indv, has_nan, join_lay, Dead, IterRef, CachedProp, PartialV, PartialMethod, LruFunc,
                     SuppressCM, GenCMFactory)
from .pymodel import DTypeV, const_int, to_items as py_items

ND_ATTRS = set(
    "T all any argmax argmin argsort astype clip conj conjugate copy cumsum cumprod diagonal dot dtype fill flat flatten imag "
    "item itemsize max mean min nbytes ndim nonzero prod ptp ravel real repeat reshape resize round shape size sort squeeze std strides "
    "sum swapaxes take tobytes tolist trace transpose var view __array__ __abs__ __add__".split()
)

REMOVED_NUMPY = {"int", "float", "bool", "complex", "object", "str", "long", "unicode"}

CONSTS = {
    "numpy.pi": math.pi, "math.pi": math.pi, "numpy.e": math.e, "math.e": math.e, "numpy.nan": float("nan"), "numpy.NaN": float("nan"),
    "numpy.NAN": float("nan"), "math.nan": float("nan"), "numpy.inf": float("inf"), "math.inf": float("inf"), "numpy.Inf": float("inf"),
}

ALIASES = {
    "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs", "numpy.conjugate": "numpy.conj", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
    "numpy.around": "numpy.round", "numpy.round_": "numpy.round", "numpy.alltrue": "numpy.all", "numpy.sometrue": "numpy.any",
    "numpy.fmax": "numpy.maximum", "numpy.fmin": "numpy.minimum", "numpy.nanmax": "numpy.max", "numpy.nanmin": "numpy.min", "numpy.nansum": "numpy.sum",
    "numpy.product": "numpy.prod", "numpy.asanyarray": "numpy.asarray", "numpy.ascontiguousarray": "numpy.asarray", "numpy.asfortranarray": "numpy.asarray",
    "numpy.asfarray": "numpy.asarray", "numpy.arctan2": "numpy.arctan2", "numpy.asin": "numpy.arcsin", "numpy.acos": "numpy.arccos",
    "numpy.atan": "numpy.arctan", "numpy.atan2": "numpy.arctan2", "numpy.concat": "numpy.concatenate", "numpy.permute_dims": "numpy.transpose",
    "numpy.row_stack": "numpy.vstack", "numpy.degrees": "numpy.rad2deg", "numpy.radians": "numpy.deg2rad", "numpy.fix": "numpy.trunc",
    "numpy.divide": "numpy.true_divide", "numpy.mod": "numpy.remainder", "numpy.in1d": "numpy.isin",
    "math.fabs": "numpy.abs", "math.sqrt": "numpy.sqrt", "math.sin": "numpy.sin", "math.cos": "numpy.cos", "math.tan": "numpy.tan", "math.asin": "numpy.arcsin",
    "math.acos": "numpy.arccos", "math.atan": "numpy.arctan", "math.atan2": "numpy.arctan2", "math.exp": "numpy.exp", "math.hypot": "numpy.hypot",
    "math.isnan": "numpy.isnan", "math.isinf": "numpy.isinf", "math.isfinite": "numpy.isfinite", "math.radians": "numpy.deg2rad", "math.degrees": "numpy.rad2deg",
    "math.pow": "numpy.power", "math.copysign": "numpy.copysign", "math.log10": "numpy.log10", "math.log2": "numpy.log2",
    "scipy.linalg.norm": "numpy.linalg.norm", "scipy.linalg.lstsq": "numpy.linalg.lstsq", "numpy.random.rand": "numpy.random.rand",
    "functools.cache": "functools.cache", "scipy.special.jacobi_eval": "scipy.special.eval_jacobi",
    "scipy.signal.signaltools.fftconvolve": "scipy.signal.fftconvolve", "scipy.signal._signaltools.fftconvolve": "scipy.signal.fftconvolve",
    "scipy.ndimage.filters._ni_support._normalize_sequence": "scipy.ndimage._ni_support._normalize_sequence",
}
FFT_NAMES = set("fft ifft fft2 ifft2 fftn ifftn fftshift ifftshift fftfreq rfft irfft rfftn irfftn rfftfreq".split())


def canon(path):
    for pre in ("scipy.fft.", "scipy.fftpack."):
        if path.startswith(pre):
            tail = path[len(pre):]
            if tail in FFT_NAMES:
                return "numpy.fft." + tail
            if tail == "next_fast_len":
                return "scipy.fft.next_fast_len"
    return ALIASES.get(path, path)


class FlagNS:
    """Object with a fixed set of attributes."""

    def __init__(self, name, d):
        self.name, self.d = name, d

    def __eq__(self, o):
        return isinstance(o, FlagNS) and (self.name, self.d) == (o.name, o.d)

    def __hash__(self):
        return hash(self.name)

    def get(self, name):
        if name in self.d:
            return self.d[name]
        raise NotImpl(f"attribute {name} of {self.name}")


def ext_value(I, path):
    if path in CONSTS:
        v = CONSTS[path]
        if path.endswith(".pi"):
            return AV((), "f", F(0), PI, pt="float")
        return num(v)
    if path == "numpy.newaxis":
        return None
    if path.startswith("numpy.") and path.count(".") == 1 and path[6:] in REMOVED_NUMPY:
        I.event("removed", f"{path} does not exist in the installed numpy", data=path)
        I.throw("AttributeError", f"module 'numpy' has no attribute {path[6:]!r}")
    return Ext(canon(path))


PI = P.sym("pi", pos=True) if not hasattr(P, "PI") else P.PI


# ------------------------------------------------------------------ dtype handling
_DT = {
    "float": "f", "float64": "f", "float32": "f", "float16": "f", "double": "f", "single": "f", "half": "f", "longdouble": "f", "float_": "f", "d": "f", "f": "f",
    "complex": "c", "complex128": "c", "complex64": "c", "cdouble": "c", "csingle": "c", "complex_": "c", "D": "c", "F": "c", "clongdouble": "c",
    "int": "i", "int8": "i", "int16": "i", "int32": "i", "int64": "i", "uint8": "i", "uint16": "i", "uint32": "i", "uint64": "i", "intp": "i", "int_": "i", "uint": "i",
    "intc": "i", "short": "i", "longlong": "i", "long": "i", "ulong": "i", "uintp": "i", "i": "i", "l": "i", "q": "i", "u": "i",
    "bool": "b", "bool_": "b", "bool8": "b", "?": "b",
}


NARROW = set("float32 float16 single half f f4 f2 e complex64 csingle F c8 int8 int16 int32 uint8 uint16 uint32 i1 i2 i4 u1 u2 u4 intc short b B h H".split())


def dtype_kind(I, v):
    v = I.res(v)
    if v is None:
        return None
    if isinstance(v, DTypeV):
        return v.kind
    if isinstance(v, ClassV):
        b = v.builtin if isinstance(v.builtin, str) else getattr(v.builtin, "__name__", None)
        return {"float": "f", "int": "i", "complex": "c", "bool": "b"}.get(b)
    if isinstance(v, Ext):
        return _DT.get(v.path.split(".")[-1])
    if isinstance(v, str):
        s = v.lstrip("<>=|")
        if s in _DT:
            return _DT[s]
        if s and s[0] in "fciub" and s[1:].isdigit():
            return {"f": "f", "c": "c", "i": "i", "u": "i", "b": "i"}[s[0]]
    return None


def need_kind(I, v):
    k = dtype_kind(I, v)
    if k is None and v is not None:
        raise NotImpl(f"dtype {v!r:.40}")
    v = I.res(v)
    n = v.path.split(".")[-1] if isinstance(v, Ext) else v.lstrip("<>=|") if isinstance(v, str) else None
    if n in NARROW:
        I.event("narrow", f"values are stored with reduced range or precision ({n})", data=n)
    return k


def dtype_attr(I, o, name):
    if name == "kind":
        return {"f": "f", "i": "i", "c": "c", "b": "b"}[o.kind]
    if name == "char":
        return {"f": "d", "i": "l", "c": "D", "b": "?"}[o.kind]
    if name == "name":
        return {"f": "float64", "i": "int64", "c": "complex128", "b": "bool"}[o.kind]
    if name == "type":
        return DTypeV(o.kind)
    if name == "itemsize":
        return num({"f": 8, "i": 8, "c": 16, "b": 1}[o.kind])
    if name in ("str", "descr"):
        return Top("dtype")
    raise NotImpl(f"dtype.{name}")


# ------------------------------------------------------------------ argument helpers
class A:
    """Bound arguments."""

    def __init__(self, I, names, args, kwargs, fname):
        self.d = {}
        self.I = I
        names = [n for n in names.split()]
        if len(args) > len(names):
            I.throw("TypeError", f"{fname}() takes at most {len(names)} positional arguments")
        for n, v in zip(names, args):
            self.d[n] = v
        for k, v in kwargs.items():
            if k not in names and k in ("dtype", "out", "where", "keepdims", "order", "initial", "overwrite_x"):
                if k == "dtype":
                    need_kind(I, v)
                v = I.res(v)
                if k == "keepdims" and isinstance(v, AV) and v.term.is_zero() or v is None or k == "order" and v in ("C", "K", "A"):
                    continue
                if k == "overwrite_x" and not (isinstance(v, AV) and v.term.is_zero()):
                    raise NotImpl("overwrite_x")
                if k == "dtype" and fname in ("sum", "prod"):
                    pass
                elif k != "overwrite_x":
                    raise NotImpl(f"{fname}({k}=)")
            elif k not in names and k not in ("casting", "subok", "copy", "workers", "like", "device"):
                I.event("signature", f"{fname}() has no parameter {k!r}", data=(fname, k))
                I.throw("TypeError", f"{fname}() got an unexpected keyword argument {k!r}")
            if k in self.d:
                I.throw("TypeError", f"{fname}() got multiple values for argument {k!r}")
            self.d[k] = v

    def __call__(self, n, default=None):
        v = self.d.get(n, default)
        return self.I.res(v)

    def has(self, n):
        return n in self.d

    def req(self, n):
        if n not in self.d:
            self.I.throw("TypeError", f"missing required argument {n!r}")
        return self.I.res(self.d[n])


def flag(I, v, default=False):
    if v is None:
        return default
    if isinstance(v, AV):
        k = I.known(v.term)
        if k is None:
            raise NotImpl("undetermined flag")
        return k
    if isinstance(v, Top):
        raise NotImpl("undetermined flag")
    return bool(v)


def axes_arg(I, v, nd):
    """axis argument -> list of front-counted axes (None = all)"""
    if v is None:
        return list(range(nd))
    if isinstance(v, AV):
        items = [v]
    else:
        items = py_items(I, v)
        if items is None and isinstance(v, Arr):
            items = [e for e in to_elems(I, I.arr(v)) or []]
        if items is None:
            raise NotImpl("axis argument")
    out = []
    for x in items:
        a = scalar_int(I, x)
        c = None if a is None else a.term.const()
        if c is None:
            raise NotImpl("symbolic axis")
        c = int(c)
        if not -nd <= c < nd:
            I.throw("ValueError", f"axis {c} is out of bounds for array of dimension {nd}")
        out.append(c % nd)
    return out


def dims_arg(I, v):
    """shape argument -> tuple of polys"""
    v = I.res(v)
    if isinstance(v, AV) and v.shape == ():
        if v.kind not in "ib":
            I.throw("TypeError", "'float' object cannot be interpreted as an integer")
        return (v.term,)
    items = py_items(I, v)
    if items is None and isinstance(v, Arr):
        items = to_elems(I, I.arr(v))
    if items is None:
        raise NotImpl(f"shape {v!r:.60}")
    out = []
    for x in items:
        a = scalar_int(I, x)
        if a is None:
            raise NotImpl("shape entry")
        if a.kind not in "ib":
            I.throw("TypeError", "'float' object cannot be interpreted as an integer")
        out.append(a.term)
    return tuple(out)


def unstack(av):
    """Same value without the leading-element representation."""
    if av.elems is None:
        return av
    return AV(av.shape, av.kind, av.unit, av.term, lay=av.lay, restr=av.restr)


# ------------------------------------------------------------------ elementwise unary functions
def _dl(I, x, what):
    need_dimless(I, x, what)
    return F(0)


def u_keep(I, x, what):
    return x.unit


def u_half(I, x, what):
    return unit_pow(x.unit, F(1, 2))


def u_square(I, x, what):
    return unit_pow(x.unit, 2)


def u_inv(I, x, what):
    return unit_pow(x.unit, -1)


def u_none(I, x, what):
    return F(0)


def sqrt_t(t):
    return P.ppow(t, F(1, 2))


def t_isnan(t):
    return P1 if has_nan(t) else ZERO


def k_float(k):
    return "c" if k == "c" else "f"


def k_real(k):
    return "f" if k == "c" else k


UF1 = {
    # name: (term fn, kind fn, unit fn)
    "sin": (P.FN["sin"], k_float, _dl), "cos": (P.FN["cos"], k_float, _dl), "tan": (P.FN["tan"], k_float, _dl),
    "arcsin": (P.FN["arcsin"], k_float, _dl), "arccos": (P.FN["arccos"], k_float, _dl), "arctan": (P.FN["arctan"], k_float, _dl),
    "exp": (P.fn_exp, k_float, _dl), "log": (P.fn_log, k_float, _dl),
    "log10": (lambda t: P.fn_log(t) / P.fn_log(as_poly(10)), k_float, _dl),
    "log2": (lambda t: P.fn_log(t) / P.fn_log(as_poly(2)), k_float, _dl),
    "log1p": (lambda t: P.fn_log(t + 1), k_float, _dl), "expm1": (lambda t: P.fn_exp(t) - 1, k_float, _dl),
    "sqrt": (sqrt_t, k_float, u_half), "square": (lambda t: t * t, lambda k: k, u_square),
    "cbrt": (lambda t: P.ppow(t, F(1, 3)), k_float, lambda I, x, w: unit_pow(x.unit, F(1, 3))),
    "reciprocal": (lambda t: P.ppow(t, -1), lambda k: k, u_inv),
    "abs": (P.FN["abs"], k_real, u_keep), "real": (P.FN["real"], k_real, u_keep), "imag": (P.FN["imag"], k_real, u_keep),
    "conj": (P.fn_conj, lambda k: k, u_keep), "angle": (P.FN["angle"], lambda k: "f", u_none),
    "ceil": (P.FN["ceil"], k_float, _dl), "floor": (P.FN["floor"], k_float, _dl), "rint": (P.FN["rint"], k_float, _dl), "trunc": (P.FN["trunc"], k_float, _dl),
    "negative": (lambda t: -t, lambda k: k, u_keep), "positive": (lambda t: t, lambda k: k, u_keep),
    "isnan": (t_isnan, lambda k: "b", u_none), "isfinite": (lambda t: ZERO if has_nan(t) or has_inf(t) else P1, lambda k: "b", u_none),
    "isinf": (lambda t: P1 if has_inf(t) else ZERO, lambda k: "b", u_none),
    "logical_not": (lambda t: P.ind_not(truthy(t)), lambda k: "b", u_none),
    "sign": (lambda t: P.mk_ind("gt", t) - P.mk_ind("gt", -t), lambda k: k, u_none),
    "deg2rad": (lambda t: t * PI / 180, k_float, _dl), "rad2deg": (lambda t: t * 180 / PI, k_float, _dl),
    "nan_to_num": (lambda t: t, lambda k: k, u_keep),
    "iscomplex": (lambda t: ZERO if P.is_real(t) else as_poly(mk_atom("ind", ("b", "iscomplex", t), nonneg=True, integer=True)), lambda k: "b", u_none),
    "isreal": (lambda t: P1 if P.is_real(t) else as_poly(mk_atom("ind", ("b", "isreal", t), nonneg=True, integer=True)), lambda k: "b", u_none),
}
for _n in "sinh cosh tanh sinc i0".split():
    UF1[_n] = ((lambda n: lambda t: as_poly(mk_atom("efn", (n, t), real=P.is_real(t))))(_n), k_float, _dl)


def is_ind(t):
    return all(a.tag == "ind" for m, c in t.m for a, e in m) and P.is_int(t)


def truthy(t):
    c = t.const()
    if c is not None:
        return as_poly(int(c != 0))
    s = t.single()
    if s is not None and s[1] == 1 and all(a.tag == "ind" for a, e in s[0]):
        return t
    if is_ind(t):
        return t
    return P.ind_not(P.mk_ind("eq", t))


KEEP_TW = {"conj": -1, "negative": 1, "positive": 1}


def ufunc1_av(I, name, x):
    if x.kind == "c" and name in ("ceil", "floor", "rint", "trunc", "deg2rad", "rad2deg", "cbrt") and not (name == "rint"):
        I.throw("TypeError", f"ufunc {name!r} not supported for complex input")
    if name == "negative" and x.kind == "b":
        I.throw("TypeError", "numpy boolean negative is not supported")
    f, kf, uf = UF1[name]
    k = kf(x.kind)
    if name in ("abs", "real", "imag", "conj", "negative", "square", "sign") and k == "b":
        k = "i" if name in ("square",) else "b"
    r = elementwise(I, f, [x], k, uf(I, x, name), name, tw="keep" if name in KEEP_TW else "zero")
    if name == "conj":
        r = AV(r.shape, r.kind, r.unit, r.term, lay=neg_tw(r.lay), elems=r.elems, restr=r.restr)
    return r


def ufunc1(I, name, v):
    v = I.res(v)
    if isinstance(v, Top):
        return v
    if v is None or isinstance(v, (str, StrV, DictRef)):
        I.throw("TypeError", f"bad operand type for {name}")
    x = val(I, v)
    r = ufunc1_av(I, name, x)
    if isinstance(v, AV) and v.pt != "nd" and r.shape == ():
        return r.but(pt={"b": "bool", "i": "int", "f": "float", "c": "complex"}[r.kind]) if name in ("abs",) else r.but(pt="nd")
    return ret(I, r)


def out_where(I, a, r):
    """Handle out= / where= of a ufunc; r: result AV."""
    w = a("where")
    o = a("out")
    if isinstance(o, tuple):
        o = o[0]
    if w is not None and not (isinstance(w, AV) and w.term == P1):
        wav = val(I, w)
        if o is not None:
            base = I.arr(o)
        else:
            base = AV(r.shape, r.kind, r.unit, as_poly(mk_atom("opq", ("uninit", tuple(P.Ax(-j) for j in range(len(r.shape), 0, -1)), r.term))), lay=tuple(CST for _ in r.shape))
        r = elementwise(I, lambda c, x, y: blend(c, x, y), [wav, r, base], kmax(r.kind, base.kind), r.unit, "where")
    dt = a("dtype")
    if dt is not None:
        r = cast(I, r, need_kind(I, dt))
    if o is not None:
        inplace_store(I, o, I.arr(o), r, "ufunc output")
        return o
    return ret(I, r)


def mk_uf1(name):
    def f(I, args, kwargs):
        a = A(I, "x out where", args, kwargs, name)
        x = a.req("x")
        if isinstance(x, Top):
            return x
        if a.has("out") or a.has("where") or a.has("dtype"):
            return out_where(I, a, ufunc1_av(I, name, val(I, x)))
        return ufunc1(I, name, x)

    return f


# ------------------------------------------------------------------ elementwise binary functions
def uf2_av(I, name, x, y):
    if name in BIN:
        return binop_av(I, BIN[name], x.but(pt="nd"), y.but(pt="nd"))
    if name in CMPN:
        I.join_unit(x.unit, y.unit, "operands of a comparison")
        return elementwise(I, cmp_fn(CMPN[name]), [x, y], "b", F(0), "comparison", tw="zero")
    if name in ("logical_and", "logical_or", "logical_xor"):
        f = {"logical_and": P.ind_and, "logical_or": P.ind_or, "logical_xor": lambda s, t: s + t - 2 * s * t}[name]
        return elementwise(I, lambda s, t: f(truthy(s), truthy(t)), [x, y], "b", F(0), name, tw="zero")
    if name in ("maximum", "minimum"):
        u = I.join_unit(x.unit, y.unit, f"operands of {name}")
        return elementwise(I, P.FN["max" if name == "maximum" else "min"], [x, y], kmax(x.kind, y.kind), u, name)
    if name == "arctan2":
        u = I.join_unit(x.unit, y.unit, "arguments of arctan2")
        return elementwise(I, P.FN["arctan2"], [x, y], "f", F(0), name)
    if name == "hypot":
        u = I.join_unit(x.unit, y.unit, "arguments of hypot")
        return elementwise(I, lambda s, t: sqrt_t(s * s + t * t), [x, y], "f", u, name)
    if name == "copysign":
        return elementwise(I, lambda s, t: P.FN["abs"](s) * (P.mk_ind("ge", t) * 2 - 1), [x, y], "f", x.unit, name)
    if name == "heaviside":
        return elementwise(I, lambda s, t: P.mk_ind("gt", s) + P.mk_ind("eq", s) * t, [x, y], "f", F(0), name)
    raise NotImpl(name)


BIN = {
    "add": "Add", "subtract": "Sub", "multiply": "Mult", "true_divide": "Div", "power": "Pow", "float_power": "Pow", "floor_divide": "FloorDiv", "remainder": "Mod",
    "matmul": "MatMult", "bitwise_and": "BitAnd", "bitwise_or": "BitOr", "bitwise_xor": "BitXor",
}
CMPN = {"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE"}
UF2 = list(BIN) + list(CMPN) + "logical_and logical_or logical_xor maximum minimum arctan2 hypot copysign heaviside".split()


def mk_uf2(name):
    def f(I, args, kwargs):
        a = A(I, "x1 x2 out where", args, kwargs, name)
        x, y = a.req("x1"), a.req("x2")
        r = uf2_av(I, name, val(I, x), val(I, y))
        return out_where(I, a, r)

    return f


# ------------------------------------------------------------------ reductions
RED_KIND = {
    "sum": lambda k: "i" if k == "b" else k, "prod": lambda k: "i" if k == "b" else k, "mean": lambda k: kmax(k, "f"), "max": lambda k: k, "min": lambda k: k,
    "any": lambda k: "b", "all": lambda k: "b", "std": lambda k: "f", "var": lambda k: "f", "ptp": lambda k: k, "median": lambda k: kmax(k, "f"),
}


def reduce_av(I, op, av, axes=None, keep=False, what=None):
    nd = len(av.shape)
    if axes is None:
        axes = list(range(nd))
    axes = sorted(set(axes))
    if op == "ptp":
        a, b = reduce_av(I, "max", av, axes, keep), reduce_av(I, "min", av, axes, keep)
        return binop_av(I, "Sub", a, b)
    if op in ("std", "var"):
        m = reduce_av(I, "mean", av, axes, True)
        d = binop_av(I, "Sub", unstack(av), m)
        d2 = elementwise(I, lambda t: t * P.fn_conj(t), [d], "f", unit_pow(av.unit, 2), op)
        v = reduce_av(I, "mean", d2, axes, keep)
        return v if op == "var" else ufunc1_av(I, "sqrt", v)
    if op in ("any", "all"):
        av = elementwise(I, truthy, [av], "b", F(0), op, tw="zero")
    kind = RED_KIND[op](av.kind)
    unit = av.unit
    if op == "prod" and unit not in (None, ANY) and unit != 0:
        n = P1
        for a in axes:
            n = n * av.shape[a]
        unit = unit * n.const() if n.const() is not None else None
    if av.restr is not None:
        mask, r, off = av.restr
        blk = list(range(nd - off - r, nd - off))
        if any(a in blk for a in axes) and not all(a in axes for a in blk):
            # visible axes differ from stored axes
            pass
        cur = AV(av.shape, kind, unit, None if av.elems is not None else av.term, lay=av.lay, elems=av.elems)
        if all(a in axes for a in blk):
            n = count_of(mask, tuple(av.shape[a] for a in blk))
            maskav = AV(tuple(av.shape[a] for a in blk), "b", F(0), mask)
            w = cur if cur.elems is None else unstack(cur)
            mm = maskav
            for _ in range(off):
                mm = new_axis(I, mm, len(mm.shape))
            if op in ("sum", "mean"):
                w = elementwise(I, lambda s, t: s * t, [w, mm], kind, unit, op)
                s = reduce_av(I, "sum", w, axes, False)
                if op == "mean":
                    s = s.but(term=s.term / n)
                return s.but(kind=kind)
            w = elementwise(I, lambda s, t: as_poly(mk_atom("efn", ("where", t, s), real=P.is_real(s), nonneg=P.is_nonneg(s))), [w, mm], kind, unit, op)
            return reduce_av(I, op, w, axes, False)
        r0 = reduce_av(I, op, cur, axes, keep)
        return with_restr(I, r0, (mask, r, off)) if not any(a >= nd - off for a in axes) else with_restr(I, r0, (mask, r, off - len([a for a in axes if a >= nd - off])))
    if av.elems is not None:
        rest = [a - 1 for a in axes if a != 0]
        els = list(av.elems)
        if rest:
            els = [reduce_av(I, op, e, rest, keep) for e in els]
        if 0 not in axes:
            r = restack(I, els, kind=kind)
            return r
        if op == "mean" and rest:
            pass
        r = els[0].but(kind=RED_KIND[op](els[0].kind))
        for e in els[1:]:
            r = combine(I, op, r, e, kind)
        if op == "mean":
            r = scale_av(I, r, P1 / as_poly(len(els)))
        r = AV(r.shape, kind, unit, r.term, lay=r.lay, elems=r.elems)
        return new_axis(I, r, 0) if keep else r
    t = av.term
    lay = list(av.lay)
    shape = list(av.shape)
    k_ = [a - nd for a in axes]
    for a in axes:
        k = a - nd
        t = red_term(op, t, k, av.shape[a])
    # renumber
    if keep:
        for a in axes:
            shape[a] = P1
            lay[a] = CST
        return AV(tuple(shape), kind, unit, t, lay=tuple(lay))
    for a in sorted(axes):
        k = a - nd
        # positions left of the removed axis shift right by one for each removed axis to the right
    ks = sorted(k_)
    mp = {}
    for j in range(1, nd + 1):
        if -j in ks:
            continue
        mp[-j] = -j + len([k for k in ks if k > -j])
    t = P.remap_axes(t, mp)
    shape = tuple(s for i, s in enumerate(shape) if i not in axes)
    lay = tuple(s for i, s in enumerate(lay) if i not in axes)
    return AV(shape, kind, unit, t, lay=lay)


def red_term(op, t, k, n):
    if k in P.axes_of(t) and op in ("sum", "mean", "max", "min", "any", "all", "prod"):
        # a stacked atom along this axis reduces to a combination of its entries
        s = t.single()
        if s is not None and len(s[0]) == 1 and s[0][0][0].tag == "stack" and s[0][0][0].args[0].k == k and s[0][0][1] == 1 and op in ("sum", "mean"):
            its = s[0][0][0].args[1:]
            r = ZERO
            for x in its:
                r = r + x
            return r * as_poly(s[1]) * (P1 if op == "sum" else P1 / as_poly(len(its)))
    if op in ("any", "all"):
        c = t.const()
        if c is not None:
            return t
        if op == "all":
            # all(x) = 1 - any(1-x)
            return P1 - red_term("any", P1 - t, k, n)
    r = P.reduce_axis(op, t, k, n)
    if op in ("any",):
        return r
    return r


def combine(I, op, a, b, kind):
    if op in ("sum", "mean"):
        return binop_av(I, "Add", a.but(pt="nd"), b.but(pt="nd")) if a.kind != "b" else elementwise(I, lambda s, t: s + t, [a, b], "i", F(0), op)
    if op == "prod":
        return binop_av(I, "Mult", a, b)
    if op in ("max", "min"):
        return uf2_av(I, "maximum" if op == "max" else "minimum", a, b)
    if op == "any":
        return elementwise(I, P.ind_or, [a, b], "b", F(0), op)
    if op == "all":
        return elementwise(I, P.ind_and, [a, b], "b", F(0), op)
    raise NotImpl(op)


def scale_av(I, av, c):
    return elementwise(I, lambda t: t * c, [av], kmax(av.kind, "f"), av.unit, "scale")


def reduce_full(I, op, av):
    return reduce_av(I, op, av).but(pt="nd")


def mk_red(op):
    def f(I, args, kwargs):
        a = A(I, "a axis dtype out keepdims initial where ddof" if op not in ("std", "var") else "a axis dtype out ddof keepdims", args, kwargs, op)
        x = a.req("a")
        if isinstance(x, Top):
            return x
        av = val(I, x)
        if a.has("where") and a("where") is not None:
            w = val(I, a("where"))
            if op == "sum":
                av = elementwise(I, lambda s, t: s * t, [av, w], av.kind, av.unit, op)
            else:
                raise NotImpl(f"{op} with where=")
        ax = axes_arg(I, a("axis"), len(vshape(I, av)))
        if av.restr is not None:
            # map visible axes to stored axes
            mask, r, off = av.restr
            nd = len(av.shape)
            pos = nd - off - r
            st = []
            for q in ax:
                if q < pos:
                    st.append(q)
                elif q == pos:
                    st.extend(range(pos, pos + r))
                else:
                    st.append(q + r - 1)
            ax = st
        r = reduce_av(I, op, av, ax, flag(I, a("keepdims")))
        if a("dtype") is not None:
            r = cast(I, r, need_kind(I, a("dtype")))
        if a("out") is not None:
            inplace_store(I, a("out"), I.arr(a("out")), r, "reduction output")
            return a("out")
        return ret(I, r)

    return f


def np_argred(name):
    def f(I, args, kwargs):
        a = A(I, "a axis out keepdims", args, kwargs, name)
        x = a.req("a")
        if a("out") is not None or flag(I, a("keepdims")):
            raise NotImpl(name)
        av = val(I, x)
        ax = a("axis")
        nd = len(av.shape)
        if av.restr is not None:
            raise NotImpl(name)
        if av.elems is not None and nd == 1 and all(e.term.const() is not None for e in av.elems):
            vals = [e.term.const() for e in av.elems]
            j = vals.index(max(vals) if name == "argmax" else min(vals))
            return AV((), "i", F(0), as_poly(j))
        axes = axes_arg(I, ax, nd)
        t = unstack(av).term
        # positive scale factors do not move the extremum
        cont, prim = P.content(t)
        s = cont.single()
        if s is not None and all(q.pos for q, e in s[0]) and s[1] > 0 and not P.axes_of(cont):
            t = prim
        b = P._max_bound(t)
        mp = {axx - nd: b + i + 1 for i, axx in enumerate(axes)}
        rest = [i for i in range(nd) if i not in axes]
        for i, q in enumerate(rest):
            mp[q - nd] = i - len(rest)
        t2 = P.remap_axes(t, mp)
        size = P1
        for q in axes:
            size = size * av.shape[q]
        at = as_poly(mk_atom(name, (tuple(P.Ax(b + i + 1) for i in range(len(axes))), t2, tuple(av.shape[axx] for axx in axes)), nonneg=True, integer=True))
        return ret(I, AV(tuple(av.shape[i] for i in rest), "i", F(0), at, lay=tuple(av.lay[i] for i in rest)))

    return f


# ------------------------------------------------------------------ creation
def fill_like(I, shape, kind, c):
    t = as_poly(c)
    return AV(shape, kind, ANY if c == 0 else F(0), t, lay=tuple(CST for _ in shape))


def np_zeros(c):
    def f(I, args, kwargs):
        a = A(I, "shape dtype order", args, kwargs, "zeros")
        k = need_kind(I, a("dtype")) or "f"
        return ret_arr(I, fill_like(I, dims_arg(I, a.req("shape")), k, c))

    return f


def ret_arr(I, av):
    """arrays from creation functions keep array-ness even for ()"""
    return I.new_arr(av)


def np_empty(I, args, kwargs):
    a = A(I, "shape dtype order", args, kwargs, "empty")
    k = need_kind(I, a("dtype")) or "f"
    sh = dims_arg(I, a.req("shape"))
    t = as_poly(mk_atom("sym", (f"uninitialised@{I.loc()[2] if I.loc() else 0}",), real=k != "c"))
    return ret_arr(I, AV(sh, k, ANY, t, lay=tuple(CST for _ in sh)))


def np_full(I, args, kwargs):
    a = A(I, "shape fill_value dtype order", args, kwargs, "full")
    sh = dims_arg(I, a.req("shape"))
    v = val(I, a.req("fill_value"))
    k = need_kind(I, a("dtype")) or v.kind
    if v.shape != ():
        return np_broadcast_to_av(I, v, sh)
    v = cast(I, v, k)
    return ret_arr(I, AV(sh, k, v.unit, v.term, lay=tuple(CST for _ in sh)))


def np_like(c):
    def f(I, args, kwargs):
        if c == "full":
            a = A(I, "a fill_value dtype order subok shape", args, kwargs, "full_like")
        else:
            a = A(I, "a dtype order subok shape", args, kwargs, "zeros_like")
        x = val(I, a.req("a"))
        k = need_kind(I, a("dtype")) or x.kind
        sh = x.shape if a("shape") is None else dims_arg(I, a("shape"))
        if c == "full":
            v = cast(I, val(I, a.req("fill_value")), k)
            r = AV(sh, k, v.unit, v.term, lay=tuple(CST for _ in sh))
        else:
            r = fill_like(I, sh, k, c)
        if x.restr is not None and a("shape") is None:
            r = r.but(restr=x.restr)
        return ret_arr(I, r)

    return f


def np_arange(I, args, kwargs):
    a = A(I, "start stop step dtype", args, kwargs, "arange")
    xs = [a("start"), a("stop"), a("step")]
    if xs[1] is None:
        xs = [num(0), xs[0], xs[2]]
    if xs[2] is None:
        xs[2] = num(1)
    v = [val(I, x) for x in xs]
    if any(x.shape != () for x in v):
        raise NotImpl("arange of arrays")
    k = kmax(*[x.kind for x in v])
    k = "i" if k == "b" else k
    u = v[0].unit
    for x in v[1:]:
        u = I.join_unit(u, x.unit, "arguments of arange")
    if u is ANY:
        u = F(0)
    s, e, st = [x.term for x in v]
    n = (e - s) / st
    if not (k == "i" and st == P1):
        n = P.FN["ceil"](n)
    c = n.const()
    if c is not None and c < 0:
        n = ZERO
    elif c is None and P.sign(n) == -1:
        n = ZERO
    kd = need_kind(I, a("dtype"))
    c = n.const()
    if c is not None and c <= 64:
        el = tuple(AV((), kd or k, u, s + st * j, lay=(), pt="nd") for j in range(int(c)))
        if el:
            return I.new_arr(AV((n,), kd or k, u, None, lay=(UNK,), elems=el))
    ix = P.mk_ix(n, P.Ax(-1))
    av = AV((n,), k, u, s + st * ix, lay=(AxInfo("g", ZERO),))
    av = relay(av)
    if kd:
        av = cast(I, av, kd)
    return I.new_arr(av)


def np_linspace(I, args, kwargs):
    a = A(I, "start stop num endpoint retstep dtype axis", args, kwargs, "linspace")
    s, e = val(I, a.req("start")), val(I, a.req("stop"))
    n = val(I, a("num", num(50))).term
    u = I.join_unit(s.unit, e.unit, "ends of linspace")
    if s.shape != () or e.shape != ():
        raise NotImpl("linspace of arrays")
    d = n - 1 if flag(I, a("endpoint"), True) else n
    step = (e.term - s.term) / d
    av = relay(AV((n,), "f", u if u is not ANY else F(0), s.term + step * P.mk_ix(n, P.Ax(-1)), lay=(AxInfo("g", ZERO),)))
    r = I.new_arr(av)
    if flag(I, a("retstep")):
        return (r, AV((), "f", av.unit, step))
    return r


def np_array(I, args, kwargs):
    a = A(I, "object dtype copy order subok ndmin", args, kwargs, "array")
    x = a.req("object")
    if isinstance(x, Top):
        return x
    av = asarray_av(I, x).but(pt="nd")
    k = need_kind(I, a("dtype"))
    nd = a("ndmin")
    c = 0 if nd is None else const_int(I, nd) or 0
    cp = a("copy")
    if k:
        if k == "i" and av.kind == "f" and not isinstance(x, Arr):
            pass
        av = cast(I, av, k)
    while len(av.shape) < c:
        av = new_axis(I, av, 0)
    if cp is not None and not (isinstance(cp, AV) and cp.term == P1) and isinstance(x, Arr) and (k is None or k == I.arr(x).kind):
        # copy=False: the argument itself when possible
        if len(I.arr(x).shape) == len(av.shape):
            return x
        return I.view(x, lambda I_, b: add_dims(I_, b, c), None)
    return I.new_arr(av)


def add_dims(I, av, c):
    while len(av.shape) < c:
        av = new_axis(I, av, 0)
    return av


def np_asarray(I, args, kwargs):
    a = A(I, "a dtype order copy", args, kwargs, "asarray")
    x = a.req("a")
    if isinstance(x, Top):
        return x
    k = need_kind(I, a("dtype"))
    if isinstance(x, Arr):
        av = I.arr(x)
        if flag(I, a("copy")):
            return I.new_arr(av if k is None else cast(I, av, k))
        if k is None or k == av.kind:
            return x
        return I.new_arr(cast(I, av, k))
    av = asarray_av(I, x).but(pt="nd")
    if k:
        av = cast(I, av, k)
    return I.new_arr(av)


def np_copy(I, args, kwargs):
    a = A(I, "a order subok", args, kwargs, "copy")
    x = a.req("a")
    return I.new_arr(val(I, x).but(pt="nd"))


def bcast_to(I, av, shape, what="broadcast"):
    """Explicit broadcast of av to shape."""
    if av.shape == tuple(shape):
        return av
    sh = bshape(I, [av.shape, tuple(shape)], what)
    nd = len(sh)
    x = av
    while len(x.shape) < nd:
        x = new_axis(I, x, 0)
    if x.elems is not None:
        K = sh[0].const()
        els = list(x.elems)
        if len(els) == 1 and K is not None and K != 1:
            els = els * int(K)
        els = [bcast_to(I, e, sh[1:]) for e in els]
        return AV(sh, x.kind, x.unit, None, lay=(UNK,) + els[0].lay, elems=tuple(els))
    t = x.term
    for j in range(nd):
        if x.shape[j] == P1 and sh[j] != P1 and (j - nd) in P.axes_of(t):
            t = at_term(t, j - nd, ZERO, P1)
    return AV(sh, x.kind, x.unit, t, lay=x.lay)


def np_broadcast_to_av(I, v, sh):
    return I.new_arr(bcast_to(I, v, sh))


def np_broadcast_to(I, args, kwargs):
    a = A(I, "array shape subok", args, kwargs, "broadcast_to")
    x = a.req("array")
    sh = dims_arg(I, a.req("shape"))
    if isinstance(x, Arr):
        return I.view(x, lambda I_, b: bcast_to(I_, b, sh), None)
    return I.new_arr(bcast_to(I, val(I, x), sh))


def np_broadcast_arrays(I, args, kwargs):
    avs = [val(I, x) for x in args]
    sh = bshape(I, [a.shape for a in avs])
    return I.new_list([I.new_arr(bcast_to(I, a, sh)) for a in avs])


def np_meshgrid(I, args, kwargs):
    ind = I.res(kwargs.get("indexing", "xy"))
    sparse = flag(I, kwargs.get("sparse"))
    for k in kwargs:
        if k not in ("indexing", "sparse", "copy"):
            I.throw("TypeError", f"meshgrid() got an unexpected keyword argument {k!r}")
    if ind not in ("xy", "ij"):
        I.throw("ValueError", "Valid values for `indexing` are 'xy' and 'ij'.")
    n = len(args)
    avs = [unstack(val(I, x)) for x in args]
    avs = [a if len(a.shape) == 1 else new_axis(I, a, 0) if a.shape == () else a for a in avs]
    if any(len(a.shape) != 1 for a in avs):
        raise NotImpl("meshgrid of multi-dimensional arrays")
    pos = list(range(n))
    if ind == "xy" and n >= 2:
        pos[0], pos[1] = 1, 0
    shape = [None] * n
    for a, p in zip(avs, pos):
        shape[p] = a.shape[0]
    out = []
    for a, p in zip(avs, pos):
        t = P.remap_axes(a.term, {-1: p - n})
        lay = [CST] * n
        lay[p] = a.lay[0]
        sh = tuple(shape) if not sparse else tuple(shape[j] if j == p else P1 for j in range(n))
        out.append(I.new_arr(AV(sh, a.kind, a.unit, t, lay=tuple(lay))))
    return I.new_list(out)


def np_indices(I, args, kwargs):
    a = A(I, "dimensions dtype sparse", args, kwargs, "indices")
    sh = dims_arg(I, a.req("dimensions"))
    n = len(sh)
    k = need_kind(I, a("dtype")) or "i"
    els = []
    sparse = flag(I, a("sparse"))
    for j in range(n):
        lay = [CST] * n
        lay[j] = AxInfo("g", ZERO)
        ssh = sh if not sparse else tuple(sh[q] if q == j else P1 for q in range(n))
        els.append(AV(ssh, k, F(0), P.mk_ix(sh[j], P.Ax(j - n)), lay=tuple(lay)))
    if sparse:
        return tuple(I.new_arr(e) for e in els)
    return I.new_arr(AV((as_poly(n),) + sh, k, F(0), None, lay=(UNK,) * (n + 1), elems=tuple(els)))


def np_eye(I, args, kwargs):
    a = A(I, "N M k dtype order", args, kwargs, "eye")
    n = val(I, a.req("N")).term
    m = n if a("M") is None else val(I, a("M")).term
    k = need_kind(I, a("dtype")) or "f"
    t = P.mk_ind("eq", P.mk_ix(n, P.Ax(-2)) - P.mk_ix(m, P.Ax(-1)))
    return I.new_arr(AV((n, m), k, F(0), t))


def np_ix_(I, args, kwargs):
    out = []
    n = len(args)
    for j, x in enumerate(args):
        av = val(I, x)
        for _ in range(n - 1 - j):
            av = new_axis(I, av, len(av.shape))
        for _ in range(j):
            av = new_axis(I, av, 0)
        out.append(I.new_arr(av))
    return tuple(out)


# ------------------------------------------------------------------ transforms
def fft_av(I, av, axes, inv, norm=None):
    if av.restr is not None:
        raise NotImpl("FFT of a boolean selection")
    if av.elems is not None:
        if 0 in axes and len(av.shape) > 0:
            if len(av.elems) == 1:
                rest = [a - 1 for a in axes if a != 0]
                return AV(av.shape, "c", av.unit, None, lay=av.lay, elems=(fft_av(I, av.elems[0], rest, inv, norm),))
            av = unstack(av)
        else:
            return restack(I, [fft_av(I, e, [a - 1 for a in axes], inv, norm) for e in av.elems], kind="c")
    nd = len(av.shape)
    t = av.term
    lay = list(av.lay)
    for a in axes:
        k = a - nd
        n = av.shape[a]
        if n == P1:
            continue
        t = P.fft1(inv, P.Ax(k), t, ZERO)
        if norm == "ortho":
            t = t * P.ppow(n, F(-1, 2) if inv == "f" else F(1, 2))
        elif norm == "forward":
            t = t * (P.ppow(n, -1) if inv == "f" else n)
        x = lay[a]
        if x is CST or x == CST:
            lay[a] = AxInfo("k" if inv == "f" else "r", ZERO)
        elif isinstance(x, AxInfo):
            dom = {"f": {"r": "k", "k": "r", "g": "k"}, "i": {"k": "r", "r": "k", "g": "r"}}[inv][x.dom]
            if x.tw is None:
                lay[a] = UNK
            elif inv == "f":
                lay[a] = AxInfo(dom, P.reduce_mod(-x.tw, n), x.org)
            else:
                lay[a] = AxInfo(dom, P.reduce_mod(x.tw, n), -x.org)
    return AV(av.shape, "c", av.unit, t, lay=tuple(lay))


def mk_fft(name):
    inv = "i" if name.startswith("i") else "f"
    multi = name.endswith("n") or name.endswith("2")

    def f(I, args, kwargs):
        if multi:
            a = A(I, "a s axes norm out", args, kwargs, name)
            ax = a("axes")
            s = a("s")
        else:
            a = A(I, "a n axis norm out", args, kwargs, name)
            ax = a("axis", num(-1))
            s = a("n")
        if "x" in kwargs:
            raise NotImpl(name)
        x = a.req("a")
        if isinstance(x, Top):
            return x
        av = val(I, x)
        nd = len(av.shape)
        if ax is None and name.endswith("2"):
            axes = [nd - 2, nd - 1]
        else:
            axes = axes_arg(I, ax, nd)
        if s is not None:
            sh = dims_arg(I, s)
            if ax is None:
                axes = list(range(nd - len(sh), nd))
            for q, n in zip(axes, sh):
                if peq(I, av.shape[q], n) is not True:
                    raise NotImpl("FFT with padding")
        nm = a("norm")
        return ret(I, fft_av(I, av, axes, inv, nm if isinstance(nm, str) else None))

    return f


def shift_av(I, av, axes, amounts):
    if av.elems is not None:
        pairs = list(zip(axes, amounts))
        lead = [m for a, m in pairs if a == 0]
        els = list(av.elems)
        rest = [(a - 1, m) for a, m in pairs if a != 0]
        if rest:
            els = [shift_av(I, e, [a for a, m in rest], [m for a, m in rest]) for e in els]
        for m in lead:
            c = m.const()
            if c is None:
                if len(els) == 1:
                    continue
                raise NotImpl("symbolic roll of stacked entries")
            s = int(c) % len(els)
            els = els[-s:] + els[:-s] if s else els
        return restack(I, els, kind=av.kind)
    nd = len(av.shape)
    t = av.term
    lay = list(av.lay)
    for a, m in zip(axes, amounts):
        n = av.shape[a]
        if n == P1:
            continue
        t = P.roll(t, a - nd, m, n)
        x = lay[a]
        if isinstance(x, AxInfo):
            lay[a] = AxInfo(x.dom, P.reduce_mod(x.org + m, n), x.tw)
    return AV(av.shape, av.kind, av.unit, t, lay=tuple(lay), restr=av.restr)


def mk_shift(name):
    def f(I, args, kwargs):
        a = A(I, "x axes", args, kwargs, name)
        x = a.req("x")
        if isinstance(x, Top):
            return x
        av = val(I, x)
        if av.restr is not None:
            raise NotImpl(name)
        axes = axes_arg(I, a("axes"), len(av.shape))
        am = [P.floordiv(av.shape[q], as_poly(2)) for q in axes]
        if name == "ifftshift":
            am = [-m for m in am]
        return ret(I, shift_av(I, av, axes, am))

    return f


def np_roll(I, args, kwargs):
    a = A(I, "a shift axis", args, kwargs, "roll")
    x = a.req("a")
    av = val(I, x)
    nd = len(av.shape)
    sh = a.req("shift")
    ax = a("axis")
    items = py_items(I, sh) if not isinstance(sh, AV) else [sh]
    if items is None:
        items = to_elems(I, I.arr(sh))
    am = []
    for s in items:
        s = val(I, s)
        if s.kind == "f":
            I.throw("TypeError", "slice indices must be integers")
        am.append(s.term)
    if ax is None:
        if nd == 1:
            return ret(I, shift_av(I, av, [0], am[:1]))
        return ret(I, opaque_like(unstack(av), "flatroll", unstack(av).term, am[0]))
    axes = axes_arg(I, ax, nd)
    if len(am) == 1 and len(axes) > 1:
        am = am * len(axes)
    if len(axes) == 1 and len(am) > 1:
        axes = axes * len(am)
    return ret(I, shift_av(I, av, axes, am))


def np_fftfreq(I, args, kwargs):
    a = A(I, "n d", args, kwargs, "fftfreq")
    n = val(I, a.req("n"))
    d = val(I, a("d", num(1.0)))
    t = P.mk_fftfreq(n.term, P.Ax(-1)) / (n.term * d.term)
    return I.new_arr(AV((n.term,), "f", unit_pow(d.unit, -1), t, lay=(AxInfo("k", ZERO),)))


# ------------------------------------------------------------------ shape manipulation
def transpose_av(I, av, perm):
    nd = len(av.shape)
    if list(perm) == list(range(nd)):
        return av
    if av.elems is not None and perm and perm[0] == 0:
        els = [transpose_av(I, e, [p - 1 for p in perm[1:]]) for e in av.elems]
        return restack(I, els, kind=av.kind)
    av2 = unstack(av)
    mp = {perm[j] - nd: j - nd for j in range(nd)}
    t = P.remap_axes(av2.term, mp)
    r = AV(tuple(av.shape[p] for p in perm), av.kind, av.unit, t, lay=tuple(av.lay[p] for p in perm))
    return r


def transpose_visible(I, av, perm):
    """perm over the axes the program sees (boolean selections count as one)."""
    if av.restr is None:
        return transpose_av(I, av, perm)
    mask, r, off = av.restr
    nd = len(av.shape)
    pos = nd - off - r
    full = []
    newoff = 0
    seen = False
    for q in perm:
        if q < pos:
            full.append(q)
        elif q == pos:
            full.extend(range(pos, pos + r))
            seen = True
            continue
        else:
            full.append(q + r - 1)
        if seen:
            newoff += 1
    base = AV(av.shape, av.kind, av.unit, None if av.elems is not None else av.term, lay=av.lay, elems=av.elems)
    x = transpose_av(I, base, full)
    return AV(x.shape, x.kind, x.unit, None if x.elems is not None else x.term, lay=x.lay, elems=x.elems, restr=(mask, r, newoff))


def as_view(I, x, fn, back=None):
    if isinstance(x, Arr):
        return I.view(x, fn, back)
    return ret(I, fn(I, val(I, x)))


def np_transpose(I, args, kwargs):
    a = A(I, "a axes", args, kwargs, "transpose")
    x = a.req("a")
    av = val(I, x)
    nd = len(vshape(I, av))
    ax = a("axes")
    perm = list(reversed(range(nd))) if ax is None else axes_arg(I, ax, nd)
    inv = [perm.index(j) for j in range(nd)]
    return as_view(I, x, lambda I_, b: transpose_visible(I_, b, perm), lambda I_, b, v: transpose_visible(I_, v, inv))


def np_swapaxes(I, args, kwargs):
    a = A(I, "a axis1 axis2", args, kwargs, "swapaxes")
    x = a.req("a")
    nd = len(val(I, x).shape)
    i, j = axes_arg(I, a.req("axis1"), nd)[0], axes_arg(I, a.req("axis2"), nd)[0]
    perm = list(range(nd))
    perm[i], perm[j] = perm[j], perm[i]
    return as_view(I, x, lambda I_, b: transpose_av(I_, b, perm), lambda I_, b, v: transpose_av(I_, v, perm))


def np_moveaxis(I, args, kwargs):
    a = A(I, "a source destination", args, kwargs, "moveaxis")
    x = a.req("a")
    nd = len(val(I, x).shape)
    s, d = axes_arg(I, a.req("source"), nd), axes_arg(I, a.req("destination"), nd)
    order = [n for n in range(nd) if n not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    inv = [order.index(j) for j in range(nd)]
    return as_view(I, x, lambda I_, b: transpose_av(I_, b, order), lambda I_, b, v: transpose_av(I_, v, inv))


def np_expand_dims(I, args, kwargs):
    a = A(I, "a axis", args, kwargs, "expand_dims")
    x = a.req("a")
    av = val(I, x)
    ax = a.req("axis")
    n = len(py_items(I, ax)) if not isinstance(ax, AV) else 1
    axes = sorted(axes_arg(I, ax, len(av.shape) + n))

    def fn(I_, b):
        for q in axes:
            b = new_axis(I_, b, q)
        return b

    return as_view(I, x, fn, lambda I_, b, v: squeeze_av(I_, v, axes))


def squeeze_av(I, av, axes=None):
    nd = len(av.shape)
    if axes is None:
        axes = []
        for j in range(nd):
            k = peq(I, av.shape[j], P1)
            if k is True:
                axes.append(j)
            elif k is None:
                I.event("squeeze", f"squeeze: whether an axis of length {av.shape[j]!r} is removed depends on its value", data=(j, av.shape[j], nd))
    else:
        for j in axes:
            if peq(I, av.shape[j], P1) is not True:
                if peq(I, av.shape[j], P1) is False:
                    I.throw("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
                I.event("shape", f"squeeze of an axis of length {av.shape[j]!r}")
    for j in sorted(axes, reverse=True):
        av = drop_axis(I, av, j)
    return av


def np_squeeze(I, args, kwargs):
    a = A(I, "a axis", args, kwargs, "squeeze")
    x = a.req("a")
    av = val(I, x)
    ax = None if a("axis") is None else axes_arg(I, a("axis"), len(av.shape))
    if ax is None:
        ax = [j for j in range(len(av.shape)) if peq(I, av.shape[j], P1) is True]
        for j in range(len(av.shape)):
            if peq(I, av.shape[j], P1) is None:
                I.event("squeeze", f"squeeze: whether an axis of length {av.shape[j]!r} is removed depends on its value", data=(j, av.shape[j], len(av.shape)))

    def back(I_, b, v):
        for q in sorted(ax):
            v = new_axis(I_, v, q)
        return v

    return as_view(I, x, lambda I_, b: squeeze_av(I_, b, ax), back)


def np_atleast(nd):
    def f(I, args, kwargs):
        outs = []
        for x in args:
            x = I.res(x)
            if isinstance(x, Arr):
                if len(I.arr(x).shape) >= nd:
                    outs.append(x)
                else:
                    outs.append(I.view(x, lambda I_, b: add_dims(I_, b, nd), lambda I_, b, v: drop_to(I_, v, len(b.shape))))
            else:
                outs.append(I.new_arr(add_dims(I, val(I, x).but(pt="nd"), nd)))
        return outs[0] if len(outs) == 1 else I.new_list(outs)

    return f


def drop_to(I, v, n):
    while len(v.shape) > n:
        v = drop_axis(I, v, 0)
    return v


def prod_poly(ps):
    r = P1
    for p in ps:
        r = r * p
    return r


def split_term(t, k, kq, kr, n, b, q):
    """Axis k of length n=q*b becomes (kq, kr); other axes are already renumbered."""

    def fn(a, fp):
        if a.tag == "ix" and a.args[1].k == k and a.args[2].is_zero():
            return P.mk_ix(q, P.Ax(kq)) * b + P.mk_ix(b, P.Ax(kr))
        if a.tag in P.ELEMENTWISE or (a.tag == "fft" and a.args[1].k != k) or a.tag == "red":
            return None
        if passthru(a, k):
            return None
        bb = P._max_bound(as_poly(a)) + 1
        arg = P.remap_axes(as_poly(a), {k: bb})
        return as_poly(mk_atom("bins", (P.Ax(kq), P.Ax(kr), P.Ax(bb), n, b, arg), real=a.real, nonneg=a.nonneg, pos=a.pos, integer=a.integer))

    return map_axis(t, k, fn)


def reshape_av(I, av, new):
    old = av.shape
    new = list(new)
    if av.restr is not None:
        vs = vshape(I, av)
        if len(new) == 1 and (new[0].const() == -1 or new[0] == prod_poly(vs)):
            return av
        raise NotImpl("reshape of a boolean selection")
    tot = prod_poly(old)
    neg = [j for j, d in enumerate(new) if d.const() == -1]
    if len(neg) > 1:
        I.throw("ValueError", "can only specify one unknown dimension")
    if neg:
        rest = prod_poly([d for j, d in enumerate(new) if j not in neg])
        q = P.exact_div(tot, rest) if rest != P1 else tot
        if q is None:
            q = P.floordiv(tot, rest)
        new[neg[0]] = q
    npd = prod_poly(new)
    if npd != tot:
        s = P.sign(npd - tot)
        if s in (1, -1):
            I.throw("ValueError", f"cannot reshape array of size {tot!r} into shape {tuple(new)!r}")
        if not P.equal(npd, tot):
            I.event("shape", f"reshape of {tot!r} elements into {npd!r}")
    if tuple(new) == old:
        return av
    # match dimensions left to right
    i = j = 0
    ops = []
    while i < len(old) or j < len(new):
        if i < len(old) and j < len(new) and old[i] == new[j]:
            ops.append(("keep", i, j))
            i += 1
            j += 1
            continue
        if j < len(new) and new[j] == P1:
            ops.append(("new", None, j))
            j += 1
            continue
        if i < len(old) and old[i] == P1:
            ops.append(("drop", i, None))
            i += 1
            continue
        if i >= len(old) or j >= len(new):
            break
        # split: old[i] == new[j]*new[j+1]
        if j + 1 < len(new) and P.equal(new[j] * new[j + 1], old[i]):
            ops.append(("split", i, (j, j + 1)))
            i += 1
            j += 2
            continue
        m = old[i]
        e = i + 1
        while e < len(old) and m != new[j]:
            m = m * old[e]
            e += 1
        if m == new[j]:
            ops.append(("merge", (i, e), j))
            i = e
            j += 1
            continue
        i = None
        break
    if i is None or i < len(old) or j < len(new):
        return generic_reshape(I, av, tuple(new))
    if len(old) == 1 and all(o[0] in ("keep", "new") for o in ops) and av.elems is not None:
        pass
    if av.elems is not None and not (ops and ops[0][0] == "keep"):
        if all(o[0] in ("keep", "new", "drop") for o in ops):
            cur = av
            for o in ops:
                if o[0] == "drop":
                    cur = cur
            # perform via new_axis/drop_axis
            pos = 0
            for o in ops:
                if o[0] == "keep":
                    pos += 1
                elif o[0] == "new":
                    cur = new_axis(I, cur, pos)
                    pos += 1
                else:
                    cur = drop_axis(I, cur, pos)
            return cur
        if ops[0][0] == "merge" and len(ops) == 1 and all(not e.shape or to_elems(I, e) is not None for e in av.elems):
            flat = flat_elems(I, av)
            if flat is not None:
                return restack(I, flat, kind=av.kind)
        av = unstack(av)
        return reshape_av(I, av, new)
    if av.elems is not None:
        els = [reshape_av(I, e, new[1:]) for e in av.elems]
        return restack(I, els, kind=av.kind)
    if len(ops) >= 1 and len(old) == 1 and ops[0][0] == "split" and to_elems(I, av) is not None and (old[0].const() or 99) <= 16 and new[ops[0][2][0]].const() is not None:
        pass
    # apply right to left, with explicit axis keys
    t = av.term
    nd, nn = len(old), len(new)
    lay = [None] * nn
    # move old axes to temporary string keys
    tmp = {a - nd: f"~rs{a}" for a in range(nd)}
    t = P.remap_axes(t, tmp)
    back = {}
    for o in ops:
        if o[0] == "keep":
            back[f"~rs{o[1]}"] = o[2] - nn
            lay[o[2]] = av.lay[o[1]]
        elif o[0] == "new":
            lay[o[2]] = CST
        elif o[0] == "drop":
            t = at_term(t, f"~rs{o[1]}", ZERO, P1)
    t = P.remap_axes(t, back)
    for o in ops:
        if o[0] == "split":
            key = f"~rs{o[1]}"
            q, b = new[o[2][0]], new[o[2][1]]
            x = av.lay[o[1]]
            if key in P.axes_of(t):
                if b == P1:
                    t = P.remap_axes(t, {key: o[2][0] - nn})
                elif q == P1:
                    t = P.remap_axes(t, {key: o[2][1] - nn})
                else:
                    t = split_term(t, key, o[2][0] - nn, o[2][1] - nn, old[o[1]], b, q)
            if b == P1:
                lay[o[2][0]], lay[o[2][1]] = x, CST
            elif q == P1:
                lay[o[2][0]], lay[o[2][1]] = CST, x
            elif isinstance(x, AxInfo):
                off = P.mod(x.org, b)
                I.event("bin", f"axis with origin {x.org!r} is cut into bins of {b!r}", data=(x.dom, x.org, b, off, old[o[1]]))
                lay[o[2][0]] = AxInfo(x.dom, P.floordiv(x.org, b), ZERO if x.tw == ZERO else None)
                lay[o[2][1]] = UNK
            elif x is CST or x == CST:
                lay[o[2][0]] = lay[o[2][1]] = CST
    for o in ops:
        if o[0] == "merge":
            keys = [f"~rs{a}" for a in range(*o[1])]
            if any(kk in P.axes_of(t) for kk in keys):
                b0 = P._max_bound(t)
                mp = {kk: b0 + 1 + z for z, kk in enumerate(keys)}
                if nn == 1:
                    arg = P.remap_axes(t, mp)
                    t = as_poly(mk_atom("opq", ("flat", (P.Ax(-1),), tuple(P.Ax(b0 + 1 + z) for z in range(len(keys))), arg, tuple(old[a] for a in range(*o[1]))), real=P.is_real(t), nonneg=P.is_nonneg(t), integer=P.is_int(t)))
                else:
                    other = tuple(P.Ax(z) for z in range(-nn, 0))
                    arg = P.remap_axes(t, {**mp, **{z: b0 + 20 - z for z in range(-nn, 0)}})
                    t = as_poly(mk_atom("opq", ("flat", other, tuple(P.Ax(b0 + 1 + z) for z in range(len(keys))) + tuple(P.Ax(b0 + 20 - z) for z in range(-nn, 0)), arg, tuple(old[a] for a in range(*o[1])), tuple(as_poly(q) for q in o[2:] if isinstance(q, int))), real=P.is_real(t), nonneg=P.is_nonneg(t), integer=P.is_int(t)))
    lay = tuple(UNK if x is None else x for x in lay)
    return AV(tuple(new), av.kind, av.unit, t, lay=lay)


def flat_elems(I, av):
    if not av.shape:
        return [av]
    es = to_elems(I, av)
    if es is None:
        return None
    out = []
    for e in es:
        f = flat_elems(I, e)
        if f is None:
            return None
        out.extend(f)
    return out


def generic_reshape(I, av, new):
    av = unstack(av)
    nd, nn = len(av.shape), len(new)
    arg = mask_bound(av.term, av.shape)
    t = as_poly(mk_atom("opq", ("reshape", tuple(P.Ax(-j) for j in range(nn, 0, -1)), tuple(new), arg, av.shape), real=P.is_real(av.term), nonneg=P.is_nonneg(av.term), integer=P.is_int(av.term)))
    return AV(new, av.kind, av.unit, t, lay=tuple(UNK for _ in new))


def np_reshape(I, args, kwargs):
    a = A(I, "a newshape order shape", args, kwargs, "reshape")
    x = a.req("a")
    sh = a("newshape") if a.has("newshape") else a("shape")
    new = dims_arg(I, sh)
    if fortran(a("order")):
        r = np_reshape(I, [np_transpose(I, [x], {}), I.new_list([AV((), "i", F(0), q, pt="int") for q in reversed(new)])], {})
        return np_transpose(I, [r], {})
    return as_view(I, x, lambda I_, b: reshape_av(I_, b, new), lambda I_, b, v: reshape_av(I_, v, b.shape))


def fortran(order):
    if order in (None, "C", "c", "A", "K"):
        return False
    if order in ("F", "f"):
        return True
    raise NotImpl("memory order")


def np_ravel(I, args, kwargs):
    a = A(I, "a order", args, kwargs, "ravel")
    x = a.req("a")
    if fortran(a("order")):
        x = np_transpose(I, [x], {})
    return as_view(I, x, lambda I_, b: reshape_av(I_, b, (as_poly(-1),)), lambda I_, b, v: reshape_av(I_, v, b.shape))


def np_flatten(I, args, kwargs):
    a = A(I, "a order", args, kwargs, "flatten")
    x = a.req("a")
    if fortran(a("order")):
        x = np_transpose(I, [x], {})
    return I.new_arr(reshape_av(I, val(I, x), (as_poly(-1),)))


def np_flip(I, args, kwargs):
    a = A(I, "m axis", args, kwargs, "flip")
    x = a.req("m")
    av = val(I, x)
    axes = axes_arg(I, a("axis"), len(av.shape))

    def fn(I_, b):
        for q in axes:
            b = sl_axis(I_, b, q, IxS(b.shape[q] - 1, b.shape[q], -1, False))
        return b

    return as_view(I, x, fn, lambda I_, b, v: fn(I_, v))


def np_stack(I, args, kwargs):
    a = A(I, "arrays axis out", args, kwargs, "stack")
    x = a.req("arrays")
    items = py_items(I, x)
    if items is None:
        raise NotImpl("stack of symbolic sequence")
    els = [val(I, e).but(pt="nd") for e in items]
    sh = bshape(I, [e.shape for e in els])
    r = restack(I, els)
    ax = a("axis")
    c = 0 if ax is None else axes_arg(I, ax, len(r.shape))[0]
    if c:
        order = [n for n in range(len(r.shape)) if n != 0]
        order.insert(c, 0)
        r = transpose_av(I, r, order)
    return I.new_arr(r)


def concat_avs(I, els, ax):
    kind = kmax(*[e.kind for e in els])
    unit = els[0].unit
    for e in els[1:]:
        unit = I.join_unit(unit, e.unit, "joined arrays")
        for j in range(len(e.shape)):
            if j != ax:
                bdim_strict(I, els[0].shape[j], e.shape[j], "concatenate")
    if ax == 0 and all(to_elems(I, e) is not None for e in els):
        flat = [q for e in els for q in to_elems(I, e)]
        return restack(I, flat, kind=kind)
    tot = ZERO
    for e in els:
        tot = tot + e.shape[ax]
    nd = len(els[0].shape)
    t = ZERO
    off = ZERO
    for e in els:
        e = unstack(e)
        m = e.shape[ax]
        if not e.term.is_zero():
            k = ax - nd
            if k in P.axes_of(e.term):
                t = t + place_term(e.term, k, off, m, tot)
            else:
                t = t + e.term * place_term_const(k, off, m, tot)
        off = off + m
    sh = tuple(tot if j == ax else d for j, d in enumerate(els[0].shape))
    lay = tuple(UNK if j == ax else els[0].lay[j] for j in range(nd))
    # one structured part surrounded by constants keeps its origin
    st = [(q, e) for q, e in enumerate(els) if isinstance(e.lay[ax], AxInfo)]
    if len(st) == 1 and all(e.lay[ax] is CST or e.lay[ax] == CST for q, e in enumerate(els) if q != st[0][0]):
        x = st[0][1].lay[ax]
        o = ZERO
        for e in els[: st[0][0]]:
            o = o + e.shape[ax]
        lay = lay[:ax] + (AxInfo(x.dom, x.org + o, x.tw if x.tw == ZERO else None),) + lay[ax + 1:]
    return AV(sh, kind, unit, t, lay=lay)


def np_concatenate(I, args, kwargs):
    a = A(I, "arrays axis out dtype casting", args, kwargs, "concatenate")
    items = py_items(I, a.req("arrays"))
    if items is None:
        raise NotImpl("concatenate of symbolic sequence")
    els = [val(I, e) for e in items]
    ax = a("axis", num(0))
    if ax is None:
        els = [reshape_av(I, e, (as_poly(-1),)) for e in els]
        c = 0
    else:
        c = axes_arg(I, ax, len(els[0].shape))[0]
    return I.new_arr(concat_avs(I, els, c))


def np_hv(ax):
    def f(I, args, kwargs):
        els = [val(I, e).but(pt="nd") for e in py_items(I, I.res(args[0]))]
        m = 2 if ax == 0 else 1
        els = [add_dims(I, e, m) for e in els]
        c = ax if len(els[0].shape) > 1 else 0
        return I.new_arr(concat_avs(I, els, c))

    return f


def np_append(I, args, kwargs):
    a = A(I, "arr values axis", args, kwargs, "append")
    els = [add_dims(I, val(I, a.req("arr")), 1), add_dims(I, val(I, a.req("values")).but(pt="nd"), 1)]
    return I.new_arr(concat_avs(I, els, 0))


def np_repeat(I, args, kwargs):
    a = A(I, "a repeats axis", args, kwargs, "repeat")
    av = val(I, a.req("a"))
    n = val(I, a.req("repeats")).term
    if all(s == P1 for s in av.shape):
        ax = a("axis")
        c = 0 if ax is None else axes_arg(I, ax, len(av.shape))[0]
        sh = tuple(n if j == c else d for j, d in enumerate(av.shape))
        return I.new_arr(bcast_to(I, av, sh))
    raise NotImpl("repeat")


def np_tile(I, args, kwargs):
    a = A(I, "A reps", args, kwargs, "tile")
    av = val(I, a.req("A"))
    reps = dims_arg(I, a.req("reps"))
    av = add_dims(I, av, len(reps))
    reps = (P1,) * (len(av.shape) - len(reps)) + tuple(reps)
    sh = []
    for d, r in zip(av.shape, reps):
        if r == P1:
            sh.append(d)
        elif d == P1:
            sh.append(r)
        else:
            raise NotImpl("tile")
    return I.new_arr(bcast_to(I, av, tuple(sh)))


def np_pad(I, args, kwargs):
    a = A(I, "array pad_width mode constant_values stat_length end_values reflect_type", args, kwargs, "pad")
    av = unstack(val(I, a.req("array")))
    nd = len(av.shape)
    pw = a.req("pad_width")
    items = [pw] if isinstance(pw, AV) else py_items(I, pw)
    if items is None:
        e = to_elems(I, I.arr(pw)) if isinstance(pw, Arr) else None
        if e is None:
            raise NotImpl("pad width")
        items = [tuple(index_axis(I, q, 0, as_poly(z)) for z in range(2)) if q.shape else q for q in e]
    pairs = []
    if len(items) == 1 and isinstance(items[0], AV):
        pairs = [(items[0].term, items[0].term)] * nd
    elif len(items) == 2 and all(isinstance(I.res(q), AV) for q in items):
        pairs = [(I.res(items[0]).term, I.res(items[1]).term)] * nd
    else:
        for q in items:
            qq = py_items(I, q)
            if qq is None and isinstance(q, Arr):
                qq = to_elems(I, I.arr(q))
            pairs.append((val(I, qq[0]).term, val(I, qq[-1]).term))
        if len(pairs) == 1:
            pairs = pairs * nd
    if len(pairs) != nd:
        I.throw("ValueError", "operands could not be broadcast together (pad width)")
    for b, e in pairs:
        for q in (b, e):
            if P.sign(q) == -1:
                I.throw("ValueError", "index can't contain negative values")
            if P.sign(q) is None and not P.is_nonneg(q) and not P.nonneg_by_sign(q):
                I.event("shape", f"pad width {q!r} may be negative", data=q)
    mode = a("mode", "constant")
    cv = a("constant_values")
    t = av.term
    lay = list(av.lay)
    shape = list(av.shape)
    const = isinstance(mode, str) and mode == "constant"
    fillv = ZERO
    if const and cv is not None:
        c = val(I, cv)
        if c.shape != ():
            raise NotImpl("pad constant_values")
        I.join_unit(av.unit, c.unit, "pad value and array")
        fillv = c.term
    region = P1
    for j, (b, e) in enumerate(pairs):
        n_old = av.shape[j]
        n_new = n_old + b + e
        shape[j] = n_new
        if b.is_zero() and e.is_zero():
            continue
        k = j - nd
        if const:
            if k in P.axes_of(t):
                t = place_term(t, k, b, n_old, n_new)
            else:
                t = t * place_term_const(k, b, n_old, n_new)
            region = region * place_term_const(k, b, n_old, n_new)
        x = lay[j]
        if isinstance(x, AxInfo):
            lay[j] = AxInfo(x.dom, x.org + b, x.tw if x.tw == ZERO else None)
    if const:
        if not fillv.is_zero():
            t = t + fillv * (P1 - region)
    elif any(not (b.is_zero() and e.is_zero()) for b, e in pairs):
        m = mode if isinstance(mode, str) else "mode"
        fill = as_poly(mk_atom("opq", ("pad-" + m, tuple(P.Ax(-j) for j in range(nd, 0, -1)), tuple(b for b, e in pairs), tuple(e for b, e in pairs),
                                       mask_bound(av.term, av.shape), tuple(av.shape)) + (() if set(kwargs) <= {"mode"} else (repr(sorted(kwargs)),)), real=av.kind != "c"))
        if P.is_nonneg(av.term) and m in ("median", "mean", "edge", "reflect", "symmetric", "wrap", "maximum", "minimum"):
            s = fill.single()[0][0][0]
            fill = as_poly(mk_atom("opq", s.args + ("nonneg",), real=True, nonneg=True))
        data, inside = av.term, P1
        for j, (b, e) in enumerate(pairs):
            if not (b.is_zero() and e.is_zero()):
                k, n_old = j - nd, av.shape[j]
                ins = place_term_const(k, b, n_old, shape[j])
                data = place_term(data, k, b, n_old, shape[j]) if k in P.axes_of(data) else data * ins
                inside = inside * ins
        t = data + (P1 - inside) * fill
    return I.new_arr(AV(tuple(shape), av.kind, av.unit, t, lay=tuple(lay)))


# ------------------------------------------------------------------ products
def einsum_av(I, ins, out, avs):
    letters = []
    for s in ins:
        for c in s:
            if c not in letters:
                letters.append(c)
    contracted = [c for c in letters if c not in out]
    order = contracted + list(out)
    parts = []
    dims = {}
    for s, a in zip(ins, avs):
        if len(s) != len(a.shape):
            I.throw("ValueError", "einsum: operand has wrong number of dimensions")
        if len(set(s)) != len(s):
            raise NotImpl("einsum diagonal")
        for c, d in zip(s, a.shape):
            dims[c] = d if c not in dims else bdim(I, dims[c], d, "einsum")
        perm = sorted(range(len(s)), key=lambda j: order.index(s[j]))
        b = transpose_av(I, a, perm)
        have = [s[j] for j in perm]
        for pos, c in enumerate(order):
            if c not in have:
                b = new_axis(I, b, pos)
                have.insert(pos, c)
        parts.append(b)
    r = parts[0]
    for b in parts[1:]:
        r = binop_av(I, "Mult", r, b)
    if contracted:
        r = reduce_av(I, "sum", r, list(range(len(contracted))))
    return r


def np_einsum(I, args, kwargs):
    spec = I.res(args[0])
    if not isinstance(spec, str):
        raise NotImpl("einsum")
    spec = spec.replace(" ", "")
    avs = [val(I, x) for x in args[1:]]
    if "->" in spec:
        lhs, out = spec.split("->")
    else:
        lhs = spec
        cs = [c for c in lhs if c not in ",."]
        out = "".join(sorted(c for c in set(cs) if cs.count(c) == 1))
        if "..." in lhs:
            out = "..." + out
    ins = lhs.split(",")
    if "..." in spec:
        n = 0
        for s, a in zip(ins, avs):
            if "..." in s:
                n = max(n, len(a.shape) - len(s.replace("...", "")))
        ell = "ZYXWVU"[:n]
        ins = [s.replace("...", ell[n - (len(a.shape) - len(s.replace("...", ""))):] if "..." in s else "") for s, a in zip(ins, avs)]
        out = out.replace("...", ell)
    return ret(I, einsum_av(I, ins, out, avs))


def np_dot(I, args, kwargs):
    x, y = val(I, args[0]), val(I, args[1])
    if x.shape == () or y.shape == ():
        return ret(I, binop_av(I, "Mult", x, y))
    if len(y.shape) == 1:
        s1 = "ABCDEF"[: len(x.shape) - 1] + "z"
        return ret(I, einsum_av(I, [s1, "z"], s1[:-1], [x, y]))
    s1 = "ABCDEF"[: len(x.shape) - 1] + "z"
    s2 = "GHIJ"[: len(y.shape) - 2] + "zY"
    return ret(I, einsum_av(I, [s1, s2], s1[:-1] + s2[:-2] + "Y", [x, y]))


def np_tensordot(I, args, kwargs):
    a = A(I, "a b axes", args, kwargs, "tensordot")
    x, y = val(I, a.req("a")), val(I, a.req("b"))
    ax = a("axes", num(2))
    if isinstance(ax, AV):
        n = int(ax.term.const())
        xa, ya = list(range(len(x.shape) - n, len(x.shape))), list(range(n))
    else:
        p, q = py_items(I, ax)
        xa, ya = axes_arg(I, p, len(x.shape)), axes_arg(I, q, len(y.shape))
    ls = "abcdefghijklmnop"
    s1 = list(ls[: len(x.shape)])
    s2 = list(ls[8: 8 + len(y.shape)])
    for p, q in zip(xa, ya):
        s2[q] = s1[p]
    out = [c for j, c in enumerate(s1) if j not in xa] + [c for j, c in enumerate(s2) if j not in ya]
    return ret(I, einsum_av(I, ["".join(s1), "".join(s2)], "".join(out), [x, y]))


def np_outer(I, args, kwargs):
    x, y = [reshape_av(I, val(I, v), (as_poly(-1),)) for v in args[:2]]
    return ret(I, binop_av(I, "Mult", new_axis(I, x, 1), new_axis(I, y, 0)))


def np_norm(I, args, kwargs):
    a = A(I, "x ord axis keepdims", args, kwargs, "norm")
    x = a.req("x")
    av = val(I, x)
    o = a("ord")
    if o is not None and not (isinstance(o, AV) and o.term.const() == 2):
        raise NotImpl("norm ord")
    ax = a("axis")
    axes = axes_arg(I, ax, len(av.shape))
    sq = elementwise(I, lambda t: t * t if P.is_real(t) else P.ppow(P.FN["abs"](t), 2), [av], "f", unit_pow(av.unit, 2), "norm", tw="zero")
    s = reduce_av(I, "sum", sq, axes, flag(I, a("keepdims")))
    return ret(I, ufunc1_av(I, "sqrt", s))


def np_lstsq(I, args, kwargs):
    a = A(I, "a b rcond", args, kwargs, "lstsq")
    x, y = unstack(val(I, a.req("a"))), unstack(val(I, a.req("b")))
    vx, vy = vshape(I, x), vshape(I, y)
    if len(vx) != 2:
        I.throw("LinAlgError" if False else "ValueError", f"{len(vx)}-dimensional array given. Array must be two-dimensional")
    if x.restr != y.restr and (x.restr is None or y.restr is None or x.restr[:2] != y.restr[:2]):
        I.event("shape", "least squares: design matrix rows and data are selected with different masks")
    elif peq(I, vx[0], vy[0]) is False:
        I.throw("ValueError", "Incompatible dimensions")
    elif peq(I, vx[0], vy[0]) is None:
        I.event("shape", f"least squares: {vx[0]!r} equations but {vy[0]!r} data points")
    b1, b2 = mask_bound(x.term, x.shape), mask_bound(y.term, y.shape)
    m = ZERO if x.restr is None else mask_bound(x.restr[0], x.shape[len(x.shape) - x.restr[2] - x.restr[1]: len(x.shape) - x.restr[2]])
    m2 = ZERO if y.restr is None else mask_bound(y.restr[0], y.shape[len(y.shape) - y.restr[2] - y.restr[1]: len(y.shape) - y.restr[2]])
    t = as_poly(mk_atom("opq", ("lstsq", (P.Ax(-1),), b1, b2, m, m2), real=x.kind != "c" and y.kind != "c"))
    sol = I.new_arr(AV((vx[1],) + tuple(vy[1:]), kmax(x.kind, y.kind, "f"), unit_mul(y.unit, x.unit, -1), t))
    return (sol, Top("lstsq residuals"), Top("lstsq rank"), Top("lstsq singular values"))


# ------------------------------------------------------------------ selection / misc
def np_where(I, args, kwargs):
    if len(args) == 1:
        return np_nonzero(I, args, kwargs)
    a = A(I, "condition x y", args, kwargs, "where")
    c, x, y = val(I, a.req("condition")), val(I, a.req("x")), val(I, a.req("y"))
    u = I.join_unit(x.unit, y.unit, "alternatives of where")
    r = elementwise(I, lambda s, p, q: blend(truthy(s), p, q), [c, x, y], kmax(x.kind, y.kind), u, "where")
    return ret(I, r)


def np_nonzero(I, args, kwargs):
    av = val(I, args[0])
    m = elementwise(I, truthy, [av], "b", F(0), "nonzero", tw="zero")
    nd = len(m.shape)
    if m.restr is not None:
        raise NotImpl("nonzero")
    n = count_of(unstack(m).term, m.shape)
    return tuple(
        I.new_arr(AV((n,), "i", F(0), as_poly(mk_atom("opq", ("nonzero", (P.Ax(-1),), as_poly(j), mask_bound(unstack(m).term, m.shape)), nonneg=True, integer=True))))
        for j in range(nd)
    )


def np_clip(I, args, kwargs):
    a = A(I, "a a_min a_max out", args, {("a_min" if k == "min" else "a_max" if k == "max" else k): v for k, v in kwargs.items()}, "clip")
    x = val(I, a.req("a"))
    lo, hi = a("a_min"), a("a_max")
    r = x.but(pt="nd") if x.shape == () else x
    if lo is not None:
        r = uf2_av(I, "maximum", r, val(I, lo))
    if hi is not None:
        r = uf2_av(I, "minimum", r, val(I, hi))
    return out_where(I, a, r)


def close_terms(I, args, kwargs, what, math=False):
    """Elementwise |x - y| <= atol + rtol*|y| (math.isclose: max(rel*max(|x|, |y|), abs))."""
    names = "a b rtol atol equal_nan" if not math else "a b rel_tol abs_tol"
    a = A(I, names, args, kwargs, what)
    x, y = val(I, a.req("a")), val(I, a.req("b"))
    u = I.join_unit(x.unit, y.unit, f"arguments of {what}")
    at, rt = (a("abs_tol"), a("rel_tol")) if math else (a("atol"), a("rtol"))
    atv = num(0.0 if math else 1e-8) if at is None else val(I, at)
    rtv = num(1e-9 if math else 1e-5) if rt is None else val(I, rt)
    if u not in (None, ANY) and u != 0 and not (atv.shape == () and atv.term.is_zero()) and atv.unit not in (None, ANY) and atv.unit != u:
        I.event("unit", f"absolute tolerance without length dimension used to compare quantities of dimension L^{u}")

    def f(s, t, r, q):
        if s == t:
            return P1
        d, m = P.fn_abs(s - t), P.fn_abs(t)
        if math:
            m = P.FN["max"](P.fn_abs(s), m)
            return P.cmp_ind("<=", d, P.FN["max"](r * m, q))
        return P.cmp_ind("<=", d, q + r * m)

    return elementwise(I, f, [x, y, rtv.but(unit=F(0)), atv], "b", F(0), what)


def np_allclose(I, args, kwargs):
    x, y = (val(I, v) for v in (args + list(kwargs.values()))[:2])
    if binop_av_safe(I, x, y):
        return boolv(True)
    r = close_terms(I, args, kwargs, "allclose")
    return reduce_av(I, "all", r).but(pt="bool")


def binop_av_safe(I, x, y):
    try:
        return unstack(x).term == unstack(y).term or P.equal(unstack(x).term, unstack(y).term)
    except Exception:
        return False


def np_isclose(I, args, kwargs):
    return ret(I, close_terms(I, args, kwargs, "isclose"))


def math_isclose(I, args, kwargs):
    return close_terms(I, args, kwargs, "isclose", math=True).but(pt="bool")


def np_array_equal(I, args, kwargs):
    x, y = val(I, args[0]), val(I, args[1])
    if len(x.shape) != len(y.shape) or any(peq(I, a, b) is False for a, b in zip(x.shape, y.shape)):
        return boolv(False)
    r = elementwise(I, cmp_fn("Eq"), [x, y], "b", F(0), "array_equal", tw="zero")
    return reduce_av(I, "all", r).but(pt="bool")


def np_diff(I, args, kwargs):
    a = A(I, "a n axis prepend append", args, kwargs, "diff")
    av = val(I, a.req("a"))
    if a("prepend") is not None or a("append") is not None:
        raise NotImpl("diff prepend")
    n = 1 if a("n") is None else const_int(I, a("n"))
    ax = axes_arg(I, a("axis", num(-1)), len(av.shape))[0]
    for _ in range(n):
        d = av.shape[ax]
        if peq(I, d, P1) is True or d.is_zero():
            return I.new_arr(AV(av.shape[:ax] + (ZERO,) + av.shape[ax + 1:], av.kind, av.unit, ZERO))
        hi = sl_axis(I, av, ax, IxS(P1, d - 1, 1, False))
        lo = sl_axis(I, av, ax, IxS(ZERO, d - 1, 1, False))
        hi = AV(hi.shape, hi.kind, hi.unit, hi.term, lay=tuple(UNK for _ in hi.shape), elems=hi.elems)
        lo = AV(lo.shape, lo.kind, lo.unit, lo.term, lay=tuple(UNK for _ in lo.shape), elems=lo.elems)
        av = binop_av(I, "Sub", hi, lo) if av.kind != "b" else elementwise(I, lambda s, t: s - t, [hi, lo], "b", F(0), "diff")
    return I.new_arr(av)


def np_gradient(I, args, kwargs):
    raise NotImpl("gradient")


def np_cumsum(I, args, kwargs):
    a = A(I, "a axis dtype out", args, kwargs, "cumsum")
    av = val(I, a.req("a"))
    if len(av.shape) != 1:
        raise NotImpl("cumsum")
    el = to_elems(I, av)
    if el is None:
        return I.new_arr(opaque_like(av, "cumsum", av.term))
    out, s = [], None
    for e in el:
        s = e if s is None else binop_av(I, "Add", s, e)
        out.append(s)
    return I.new_arr(restack(I, out))


def np_sort(name):
    def f(I, args, kwargs):
        a = A(I, "a axis kind order stable", args, kwargs, name)
        av = val(I, a.req("a"))
        if av.elems is not None and len(av.shape) == 1 and all(e.term.const() is not None for e in av.elems):
            vals = [e.term.const() for e in av.elems]
            idx = sorted(range(len(vals)), key=lambda j: vals[j])
            if name == "argsort":
                return I.new_arr(AV(av.shape, "i", F(0), None, lay=(UNK,), elems=tuple(AV((), "i", F(0), as_poly(j), lay=(), pt="nd") for j in idx)))
            return I.new_arr(restack(I, [av.elems[j] for j in idx], kind=av.kind))
        if a.has("axis") and (a("axis") is None or axes_arg(I, a("axis"), len(av.shape))[0] != len(av.shape) - 1):
            raise NotImpl(name + " along this axis")
        r = opaque_like(unstack(av), name, unstack(av).term)
        if name == "argsort":
            r = r.but(kind="i", unit=F(0))
        return I.new_arr(r)

    return f


def np_bincount(I, args, kwargs):
    a = A(I, "x weights minlength", args, kwargs, "bincount")
    x = val(I, a.req("x"))
    if x.kind == "f" or x.kind == "c":
        I.throw("TypeError", "Cannot cast array data from dtype('float64') to dtype('int64') according to the rule 'safe'")
    need_dimless(I, x, "bincount")
    xt = mask_bound(unstack(x).term, x.shape)
    ml = a("minlength")
    n = as_poly(mk_atom("binlen", (xt,) + (() if ml is None else (val(I, ml).term,)), integer=True, lb=1))
    w = a("weights")
    if w is None:
        t = as_poly(mk_atom("opq", ("bincount", (P.Ax(-1),), xt), nonneg=True, integer=True))
        return I.new_arr(AV((n,), "i", F(0), t))
    w = val(I, w)
    if w.kind == "c":
        I.event("cast", "complex weights are cast to real by bincount")
    bshape(I, [x.shape, w.shape], "bincount")
    wt = mask_bound(unstack(w).term, w.shape)
    t = as_poly(mk_atom("opq", ("bincount", (P.Ax(-1),), xt, wt), nonneg=P.is_nonneg(w.term)))
    return I.new_arr(AV((n,), "f", w.unit, t))


def np_unravel_index(I, args, kwargs):
    a = A(I, "indices shape order", args, kwargs, "unravel_index")
    ix = val(I, a.req("indices"))
    sh = dims_arg(I, a.req("shape"))
    if ix.shape != () or fortran(a("order")):
        raise NotImpl("unravel_index of this form")
    s = ix.term.single()
    if s is not None and len(s[0]) == 1 and s[0][0][0].tag in ("argmax", "argmin") and s[1] == 1:
        at = s[0][0][0]
        if len(at.args[0]) != len(sh):
            I.event("shape", "unravel_index: index and shape have different dimensionality")
    return tuple(AV((), "i", F(0), as_poly(mk_atom("unravel", (as_poly(j), tuple(as_poly(q) for q in sh), ix.term), nonneg=True, integer=True))) for j in range(len(sh)))


def np_ravel_multi_index(I, args, kwargs):
    raise NotImpl("ravel_multi_index")


def np_finfo(I, args, kwargs):
    eps = as_poly(F(1, 2 ** 52))
    tiny = as_poly(F(1, 2 ** 1022))
    mx = as_poly(2) ** 1 if False else as_poly(mk_atom("sym", ("floatmax",), pos=True))
    f = lambda t: AV((), "f", ANY, t, pt="nd")
    return FlagNS("finfo", {"eps": f(eps), "tiny": f(tiny), "max": f(mx), "min": f(-mx), "smallest_normal": f(tiny), "resolution": f(as_poly(F(1, 10 ** 15)))})


def np_issubdtype(I, args, kwargs):
    def k(v):
        v = I.res(v)
        return v.path.split(".")[-1] if isinstance(v, Ext) else None

    d = I.res(args[0])
    kind = dtype_kind(I, d)
    if kind is None:
        if isinstance(d, (AV, Arr)) or d is None or isinstance(d, (StrV, tuple)):
            I.throw("TypeError", "Cannot interpret value as a data type")
        n0 = k(d)
        raise NotImpl("issubdtype")
    n = k(args[1])
    groups = {
        "signedinteger": "i", "integer": "i", "floating": "f", "complexfloating": "c", "inexact": "fc", "number": "ifc", "generic": "bifc", "bool_": "b",
        "unsignedinteger": "", "int64": "i", "float64": "f", "complex128": "c", "intp": "i", "int_": "i",
    }
    if n in groups:
        return boolv(kind in groups[n])
    k2 = dtype_kind(I, args[1])
    if k2 is None:
        raise NotImpl("issubdtype")
    return boolv(kind == k2)


def np_isobj(cplx):
    def f(I, args, kwargs):
        v = I.res(args[0])
        if isinstance(v, Top):
            return v
        k = val(I, v).kind
        return boolv((k == "c") == cplx)

    return f


def np_next_fast_len(I, args, kwargs):
    n = val(I, args[0])
    c = n.term.const()
    if c is not None:
        m = int(c)
        while True:
            q = m
            for p in (2, 3, 5):
                while q % p == 0:
                    q //= p
            if q == 1:
                return num(m)
            m += 1
    d = as_poly(mk_atom("efn", ("fastlen", n.term), integer=True, nonneg=True))
    return AV((), "i", F(0), n.term + d, pt="int")


def sp_fftconvolve(I, args, kwargs):
    a = A(I, "in1 in2 mode axes method", args, kwargs, "fftconvolve")
    x, y = unstack(val(I, a.req("in1"))), unstack(val(I, a.req("in2")))
    if len(x.shape) != len(y.shape):
        I.throw("ValueError", "in1 and in2 should have the same dimensionality")
    mode = a("mode", "full")
    nd = len(x.shape)
    axes = axes_arg(I, a("axes"), nd)
    for j in range(nd):
        if j not in axes and x.shape[j] != P1 and y.shape[j] != P1:
            bdim_strict(I, x.shape[j], y.shape[j], "fftconvolve")
    shape = list(x.shape)
    lay = list(x.lay)
    for j in axes:
        n, m = x.shape[j], y.shape[j]
        xi, yi = x.lay[j], y.lay[j]
        if mode == "same":
            d = -P.floordiv(m - 1, as_poly(2))
        elif mode == "full":
            d = ZERO
            shape[j] = n + m - 1
        else:
            raise NotImpl("fftconvolve mode")
        if isinstance(xi, AxInfo) and isinstance(yi, AxInfo):
            lay[j] = AxInfo(xi.dom, xi.org + yi.org + d)
        elif isinstance(xi, AxInfo) and m == P1:
            lay[j] = xi
        else:
            lay[j] = UNK
    k = kmax(x.kind, y.kind, "f")
    ax = tuple(P.Ax(-j) for j in range(nd, 0, -1))
    t = as_poly(mk_atom("opq", ("conv", ax, tuple(as_poly(j) for j in axes), mask_bound(x.term, x.shape), mask_bound(y.term, y.shape), mode), real=k != "c",
                        nonneg=P.is_nonneg(x.term) and P.is_nonneg(y.term)))
    return I.new_arr(AV(tuple(shape), k, unit_mul(x.unit, y.unit), t, lay=tuple(lay)))


def sp_eval_jacobi(I, args, kwargs):
    a = A(I, "n alpha beta x out", args, kwargs, "eval_jacobi")
    vs = [val(I, a.req(q)) for q in ("n", "alpha", "beta", "x")]
    for v in vs:
        need_dimless(I, v, "eval_jacobi")
    return ret(I, elementwise(I, P.fn_jacobi, vs, "f", F(0), "eval_jacobi"))


def sp_factorial(I, args, kwargs):
    v = val(I, args[0])
    c = v.term.const()
    if c is not None and c.denominator == 1 and 0 <= c <= 500:
        return AV((), "i" if v.kind == "i" else "f", F(0), as_poly(math.factorial(int(c))), pt="int")
    return ret(I, elementwise(I, lambda t: as_poly(mk_atom("efn", ("factorial", t), pos=True)), [v], v.kind, F(0), "factorial"))


def math_comb(I, args, kwargs):
    n, k = [val(I, x).term.const() for x in args]
    if n is None or k is None:
        raise NotImpl("comb")
    return num(math.comb(int(n), int(k)))


def normalize_sequence(I, args, kwargs):
    a = A(I, "input rank", args, kwargs, "_normalize_sequence")
    v = a.req("input")
    rank = const_int(I, a.req("rank"))
    if rank is None:
        raise NotImpl("_normalize_sequence with symbolic rank")
    if isinstance(v, AV) and v.shape == () or isinstance(v, str):
        return I.new_list([v] * rank)
    if isinstance(v, Arr) and I.arr(v).shape == ():
        return I.new_list([v] * rank)
    items = py_items(I, v)
    if items is None and isinstance(v, Arr):
        items = to_elems(I, I.arr(v))
    if items is None:
        raise NotImpl("_normalize_sequence")
    if len(items) != rank:
        I.throw("RuntimeError", "sequence argument must have length equal to input rank")
    return I.new_list(items)


def sk_unwrap_phase(I, args, kwargs):
    a = A(I, "image wrap_around rng seed", args, kwargs, "unwrap_phase")
    av = unstack(val(I, a.req("image")))
    need_dimless(I, av, "unwrap_phase")
    n = len(av.shape)
    t = as_poly(mk_atom("opq", ("unwrap", tuple(P.Ax(-j) for j in range(n, 0, -1)), mask_bound(av.term, av.shape))))
    return I.new_arr(AV(av.shape, "f", F(0), t, lay=tuple(AxInfo(x.dom, x.org) if isinstance(x, AxInfo) else x for x in av.lay)))


def np_unwrap(I, args, kwargs):
    av = unstack(val(I, args[0]))
    return I.new_arr(opaque_like(av, "unwrap1", av.term))


def np_ma_array(I, args, kwargs):
    a = A(I, "data mask dtype copy fill_value", args, kwargs, "ma.array")
    av = unstack(val(I, a.req("data")))
    m = a("mask")
    if m is not None:
        mv = val(I, m)
        bshape(I, [av.shape, mv.shape], "masked array")
    return I.new_arr(av)


def np_cross(I, args, kwargs):
    raise NotImpl("cross")


def np_angle(I, args, kwargs):
    a = A(I, "z deg", args, kwargs, "angle")
    r = ufunc1(I, "angle", a.req("z"))
    if flag(I, a("deg")):
        return binop(I, "Mult", r, AV((), "f", F(0), as_poly(180) / PI))
    return r


def np_round(I, args, kwargs):
    a = A(I, "a decimals out", args, kwargs, "round")
    d = a("decimals")
    if d is None or (isinstance(d, AV) and d.term.is_zero()):
        return ufunc1(I, "rint", a.req("a"))
    x = val(I, a.req("a"))
    need_dimless(I, x, "round to decimals")
    return ret(I, elementwise(I, lambda t: as_poly(mk_atom("efn", ("roundto", t, val(I, d).term))), [x], x.kind, x.unit, "round"))


def np_ndim(I, args, kwargs):
    return num(len(vshape(I, val(I, args[0]))))


def np_shape(I, args, kwargs):
    return tuple(intv(d) for d in vshape(I, val(I, args[0])))


def np_size(I, args, kwargs):
    a = A(I, "a axis", args, kwargs, "size")
    sh = vshape(I, val(I, a.req("a")))
    if a("axis") is not None:
        return intv(sh[axes_arg(I, a("axis"), len(sh))[0]])
    return intv(prod_poly(sh))


def np_isscalar(I, args, kwargs):
    v = I.res(args[0])
    return boolv(isinstance(v, (AV, str, StrV)))


def np_iterable(I, args, kwargs):
    v = I.res(args[0])
    if isinstance(v, AV):
        return boolv(False)
    if isinstance(v, Arr):
        return boolv(len(I.arr(v).shape) > 0)
    return boolv(isinstance(v, (tuple, ListRef, SetRef, DictRef, str, RangeV, SymSeq)))


def np_dtype(I, args, kwargs):
    return DTypeV(need_kind(I, args[0]))


def np_result_type(I, args, kwargs):
    ks = []
    for x in args:
        x = I.res(x)
        k = dtype_kind(I, x)
        ks.append(k if k else val(I, x).kind)
    return DTypeV(kmax(*ks))


def np_copyto(I, args, kwargs):
    a = A(I, "dst src casting where", args, kwargs, "copyto")
    d = a.req("dst")
    av = I.arr(d)
    s = bcast_to(I, val(I, a.req("src")), av.shape)
    if a("where") is not None:
        s = elementwise(I, blend, [val(I, a("where")), s, av], kmax(s.kind, av.kind), s.unit, "copyto")
    inplace_store(I, d, av, s, "copyto")
    return None


def np_put(I, args, kwargs):
    raise NotImpl("put")


def np_select(I, args, kwargs):
    a = A(I, "condlist choicelist default", args, kwargs, "select")
    cs, xs = py_items(I, a.req("condlist")), py_items(I, a.req("choicelist"))
    r = val(I, a("default", num(0)))
    for c, x in reversed(list(zip(cs, xs))):
        x = val(I, x)
        u = I.join_unit(x.unit, r.unit, "alternatives of select")
        r = elementwise(I, lambda s, p, q: blend(truthy(s), p, q), [val(I, c), x, r], kmax(x.kind, r.kind), u, "select")
    return ret(I, r)


def np_interp(I, args, kwargs):
    raise NotImpl("interp")


def np_take(I, args, kwargs):
    a = A(I, "a indices axis out mode", args, kwargs, "take")
    x = a.req("a")
    av = val(I, x)
    ax = a("axis")
    if a("out") is not None or a("mode") not in (None, "raise"):
        raise NotImpl("take")
    if ax is None:
        if len(av.shape) != 1:
            raise NotImpl("take from flattened array")
        return getitem(I, x, a.req("indices"))
    c = axes_arg(I, ax, len(av.shape))[0]
    return copy_of(I, getitem(I, x, (SliceV(None, None, None),) * c + (a.req("indices"),)))


def copy_of(I, v):
    return I.new_arr(I.arr(v)) if isinstance(v, Arr) else v


def np_ptp(I, args, kwargs):
    return mk_red("ptp")(I, args, kwargs)


def np_average(I, args, kwargs):
    a = A(I, "a axis weights returned keepdims", args, kwargs, "average")
    if a("weights") is None:
        return mk_red("mean")(I, [a.req("a")] + ([a("axis")] if a("axis") is not None else []), {})
    av, w = val(I, a.req("a")), val(I, a("weights"))
    nd = len(av.shape)
    axes = axes_arg(I, a("axis"), nd)
    if len(w.shape) != nd:
        if len(w.shape) == 1 and len(axes) == 1:
            for _ in range(nd - 1 - axes[0]):
                w = new_axis(I, w, len(w.shape))
        else:
            raise NotImpl("average weights")
    s = reduce_av(I, "sum", binop_av(I, "Mult", av, w), axes)
    t = reduce_av(I, "sum", bcast_to(I, w, av.shape) if len(w.shape) != nd or w.shape != av.shape else w, axes)
    return ret(I, binop_av(I, "Div", s, t))


def np_triu(I, args, kwargs):
    raise NotImpl("triu")


def np_count_nonzero(I, args, kwargs):
    a = A(I, "a axis keepdims", args, kwargs, "count_nonzero")
    av = elementwise(I, truthy, [val(I, a.req("a"))], "b", F(0), "count_nonzero", tw="zero")
    return mk_red("sum")(I, [I.new_arr(av) if av.shape else av], {k: v for k, v in kwargs.items() if k != "a"})


NP = {}
for _n in UF1:
    NP[_n] = mk_uf1(_n)
for _n in UF2:
    NP[_n] = mk_uf2(_n)
for _n in ("sum", "mean", "max", "min", "prod", "any", "all", "std", "var", "ptp", "median"):
    NP[_n] = mk_red(_n)
for _n in ("argmax", "argmin"):
    NP[_n] = np_argred(_n)
NP.update(
    zeros=np_zeros(0), ones=np_zeros(1), empty=np_empty, full=np_full, zeros_like=np_like(0), ones_like=np_like(1), empty_like=np_like(0), full_like=np_like("full"),
    arange=np_arange, linspace=np_linspace, array=np_array, asarray=np_asarray, copy=np_copy, broadcast_to=np_broadcast_to, broadcast_arrays=np_broadcast_arrays,
    meshgrid=np_meshgrid, indices=np_indices, eye=np_eye, identity=np_eye, ix_=np_ix_, roll=np_roll, transpose=np_transpose, swapaxes=np_swapaxes, moveaxis=np_moveaxis,
    expand_dims=np_expand_dims, squeeze=np_squeeze, atleast_1d=np_atleast(1), atleast_2d=np_atleast(2), atleast_3d=np_atleast(3), reshape=np_reshape, ravel=np_ravel,
    flip=np_flip, fliplr=lambda I, a, k: np_flip(I, [a[0], num(1)], {}), flipud=lambda I, a, k: np_flip(I, [a[0], num(0)], {}), stack=np_stack,
    concatenate=np_concatenate, vstack=np_hv(0), hstack=np_hv(1), append=np_append, repeat=np_repeat, tile=np_tile, pad=np_pad, einsum=np_einsum, dot=np_dot,
    matmul=lambda I, a, k: ret(I, matmul_av(I, val(I, a[0]), val(I, a[1]))), tensordot=np_tensordot, outer=np_outer, inner=np_dot, vdot=np_dot, where=np_where, nonzero=np_nonzero,
    clip=np_clip, allclose=np_allclose, isclose=np_isclose, array_equal=np_array_equal, diff=np_diff, ediff1d=np_diff, gradient=np_gradient, cumsum=np_cumsum,
    sort=np_sort("sort"), argsort=np_sort("argsort"), bincount=np_bincount, unravel_index=np_unravel_index, finfo=np_finfo, issubdtype=np_issubdtype,
    isrealobj=np_isobj(False), iscomplexobj=np_isobj(True), angle=np_angle, round=np_round, ndim=np_ndim, shape=np_shape, size=np_size, isscalar=np_isscalar,
    iterable=np_iterable, dtype=np_dtype, result_type=np_result_type, copyto=np_copyto, select=np_select, take=np_take, average=np_average, unwrap=np_unwrap,
    count_nonzero=np_count_nonzero, flatnonzero=lambda I, a, k: np_nonzero(I, [np_ravel(I, a, k)], {})[0],
)


def scalar_ctor(kind):
    def f(I, args, kwargs):
        if not args:
            return AV((), kind, ANY, ZERO)
        v = I.res(args[0])
        if isinstance(v, Top):
            return v
        return ret(I, cast(I, val(I, v), kind).but(pt="nd"))

    return f


EXT = {"numpy." + k: v for k, v in NP.items()}
for _n in ("fft", "ifft", "fft2", "ifft2", "fftn", "ifftn"):
    EXT["numpy.fft." + _n] = mk_fft(_n)
for _n in ("fftshift", "ifftshift"):
    EXT["numpy.fft." + _n] = mk_shift(_n)
EXT["numpy.fft.fftfreq"] = np_fftfreq
for _n, _k in (("float64", "f"), ("float32", "f"), ("complex128", "c"), ("complex64", "c"), ("int64", "i"), ("int32", "i"), ("intp", "i"), ("bool_", "b"), ("int_", "i"), ("uint16", "i"), ("uint8", "i")):
    EXT["numpy." + _n] = scalar_ctor(_k)
EXT.update({
    "numpy.linalg.norm": np_norm, "numpy.linalg.lstsq": np_lstsq, "scipy.signal.fftconvolve": sp_fftconvolve, "scipy.signal.convolve": sp_fftconvolve, "scipy.special.eval_jacobi": sp_eval_jacobi,
    "scipy.fft.next_fast_len": np_next_fast_len, "scipy.ndimage._ni_support._normalize_sequence": normalize_sequence, "skimage.restoration.unwrap_phase": sk_unwrap_phase,
    "numpy.ma.array": np_ma_array, "numpy.ma.masked_array": np_ma_array, "numpy.ma.MaskedArray": np_ma_array, "scipy.special.factorial": sp_factorial, "math.factorial": sp_factorial,
    "math.comb": math_comb, "math.isclose": math_isclose, "scipy.special.comb": math_comb, "numpy.exp": NP["exp"], "numpy.log": NP["log"],
})


def math_fn(name):
    def f(I, args, kwargs):
        v = val(I, args[0])
        if name in ("ceil", "floor", "trunc"):
            need_dimless(I, v, name)
            return AV((), "i", F(0), P.FN[name](v.term), pt="int")
        if name == "log":
            need_dimless(I, v, "log")
            t = P.fn_log(v.term)
            if len(args) > 1:
                t = t / P.fn_log(val(I, args[1]).term)
            return AV((), "f", F(0), t, pt="float")
        if name == "gcd":
            a, b = [val(I, x).term.const() for x in args]
            if a is None or b is None:
                raise NotImpl("gcd")
            return num(math.gcd(int(a), int(b)))
        if name == "prod":
            its = py_items(I, args[0])
            r = num(1)
            for x in its:
                r = binop(I, "Mult", r, x)
            return r
        raise NotImpl(name)

    return f


for _n in ("ceil", "floor", "trunc", "log", "gcd"):
    EXT["math." + _n] = math_fn(_n)
EXT["math.prod"] = lambda I, a, k: _prod(I, a)


def _prod(I, a):
    r = num(1)
    for x in py_items(I, a[0]):
        r = binop(I, "Mult", r, x)
    return r


# ------------------------------------------------------------------ stdlib helpers
def ft_cached_property(I, args, kwargs):
    f = args[0]
    return CachedProp(f, getattr(f, "name", None))


def ft_partial(I, args, kwargs):
    return PartialV(args[0], list(args[1:]), dict(kwargs))


def ft_partialmethod(I, args, kwargs):
    return PartialMethod(args[0], list(args[1:]), dict(kwargs))


def ft_lru(I, args, kwargs):
    if args and isinstance(args[0], Func):
        return LruFunc(args[0])
    return Builtin("lru_cache()", lambda I_, a, k: LruFunc(a[0]))


def ft_wraps(I, args, kwargs):
    return Builtin("wraps()", lambda I_, a, k: a[0])


def ft_reduce(I, args, kwargs):
    items = py_items(I, args[1])
    if items is None:
        raise NotImpl("reduce over a symbolic sequence")
    if len(args) > 2:
        acc = args[2]
    else:
        if not items:
            I.throw("TypeError", "reduce() of empty iterable with no initial value")
        acc, items = items[0], items[1:]
    for x in items:
        acc = I.call(args[0], [acc, x], {})
    return acc


def cp_copy(I, args, kwargs):
    from . import pymodel

    return pymodel.copy_copy(I, args[0])


def cp_deepcopy(I, args, kwargs):
    from . import pymodel

    return pymodel.deepcopy(I, args[0])


def cl_suppress(I, args, kwargs):
    return SuppressCM(tuple(args))


def cl_contextmanager(I, args, kwargs):
    return GenCMFactory(args[0])


OPS = {
    "add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow", "and_": "BitAnd", "or_": "BitOr", "xor": "BitXor",
    "matmul": "MatMult",
}
CMPS = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}


def mk_op(op):
    return lambda I, a, k: I.binop(op, a[0], a[1])


def mk_cmp(op):
    return lambda I, a, k: I.compare(op, a[0], a[1])


def op_attrgetter(I, args, kwargs):
    names = list(args)

    def get(I_, a, k):
        out = []
        for n in names:
            v = a[0]
            for part in n.split("."):
                v = I_.getattr(v, part)
            out.append(v)
        return out[0] if len(out) == 1 else tuple(out)

    return Builtin("attrgetter()", get)


def op_itemgetter(I, args, kwargs):
    ks = list(args)

    def get(I_, a, k):
        out = [I_.getitem(a[0], q) for q in ks]
        return out[0] if len(out) == 1 else tuple(out)

    return Builtin("itemgetter()", get)


def need(I, v, what):
    r = py_items(I, v)
    if r is None:
        raise NotImpl(f"{what} over a symbolic sequence")
    return r


def it_product(I, args, kwargs):
    import itertools as it

    r = const_int(I, kwargs.get("repeat", num(1)))
    return tuple(tuple(x) for x in it.product(*[need(I, a, "product") for a in args], repeat=r))


def it_chain(I, args, kwargs):
    out = []
    for a in args:
        out.extend(need(I, a, "chain"))
    return tuple(out)


def it_chain_from(I, args, kwargs):
    out = []
    for a in need(I, args[0], "chain"):
        out.extend(need(I, a, "chain"))
    return tuple(out)


def it_repeat(I, args, kwargs):
    n = const_int(I, args[1]) if len(args) > 1 else None
    if n is None:
        from .pymodel import InfIter

        return InfIter(lambda I_, k: args[0])
    return tuple([args[0]] * n)


def it_count(I, args, kwargs):
    from .pymodel import InfIter

    s = args[0] if args else num(0)
    st = args[1] if len(args) > 1 else num(1)
    return InfIter(lambda I_, k: I_.binop("Add", s, I_.binop("Mult", intv(as_poly(k)) if not isinstance(k, AV) else k, st)))


def it_starmap(I, args, kwargs):
    return tuple(I.call(args[0], need(I, x, "starmap"), {}) for x in need(I, args[1], "starmap"))


def it_zip_longest(I, args, kwargs):
    import itertools as it

    fv = kwargs.get("fillvalue")
    return tuple(tuple(x) for x in it.zip_longest(*[need(I, a, "zip_longest") for a in args], fillvalue=fv))


def it_combin(name):
    def f(I, args, kwargs):
        import itertools as it

        r = const_int(I, args[1]) if len(args) > 1 else None
        items = need(I, args[0], name)
        return tuple(tuple(x) for x in (getattr(it, name)(items, r) if r is not None else getattr(it, name)(items)))

    return f


EXT.update({
    "functools.cached_property": ft_cached_property, "functools.partial": ft_partial, "functools.partialmethod": ft_partialmethod, "functools.lru_cache": ft_lru,
    "functools.cache": lambda I, a, k: LruFunc(a[0]), "functools.wraps": ft_wraps, "functools.update_wrapper": lambda I, a, k: a[0], "functools.reduce": ft_reduce,
    "copy.copy": cp_copy, "copy.deepcopy": cp_deepcopy, "contextlib.suppress": cl_suppress, "contextlib.contextmanager": cl_contextmanager,
    "operator.attrgetter": op_attrgetter, "operator.itemgetter": op_itemgetter, "itertools.product": it_product, "itertools.chain": it_chain,
    "itertools.chain.from_iterable": it_chain_from, "itertools.repeat": it_repeat, "itertools.count": it_count, "itertools.starmap": it_starmap,
    "itertools.zip_longest": it_zip_longest, "itertools.combinations": it_combin("combinations"), "itertools.permutations": it_combin("permutations"),
    "operator.neg": lambda I, a, k: I.unary("USub", a[0]), "operator.getitem": lambda I, a, k: I.getitem(a[0], a[1]), "operator.not_": lambda I, a, k: I.unary("Not", a[0]),
    "operator.is_": lambda I, a, k: boolv(a[0] is a[1] or a[0] == a[1]), "operator.truth": lambda I, a, k: indv(I.truth(a[0])), "operator.index": lambda I, a, k: a[0],
    "operator.abs": lambda I, a, k: ufunc1(I, "abs", a[0]),
    "typing.cast": lambda I, a, k: a[1], "typing.NamedTuple": lambda I, a, k: Top("NamedTuple"), "warnings.warn": lambda I, a, k: log_ext(I, "warnings.warn", a, k),
    "collections.OrderedDict": lambda I, a, k: I.call(I.builtins["dict"], a, k),
})
for _n, _o in OPS.items():
    EXT["operator." + _n] = mk_op(_o)
for _n, _o in CMPS.items():
    EXT["operator." + _n] = mk_cmp(_o)

RNG_PREFIX = ("numpy.random.", "random.", "secrets.", "uuid.")
IO_PREFIX = ("time.", "os.", "pathlib.", "sys.", "tempfile.", "subprocess.", "shutil.", "datetime.", "tifffile.", "io.", "pickle.", "json.", "socket.", "glob.")
SILENT_IO = {"os.path.join", "os.path.abspath", "os.path.dirname", "os.fspath", "pathlib.Path"}
PLOT_PREFIX = ("matplotlib.", "mpl_toolkits.")
QUIET_PREFIX = ("logging.", "warnings.", "typing.", "collections.abc.", "abc.", "numbers.", "enum.", "dataclasses.", "contextlib.", "numpy.errstate", "numpy.printoptions", "numpy.seterr", "numpy.testing.", "types.")


class ExtRec:
    """One recorded call into an external object."""

    def __init__(self, path, obj, args, kwargs, st, loc, stack, result=None):
        self.path, self.obj, self.args, self.kwargs, self.st, self.loc, self.stack, self.result = path, obj, args, kwargs, st, loc, stack, result

    def __repr__(self):
        return f"ExtRec({self.path} {self.obj} {self.args} {self.kwargs})"


def log_ext(I, path, args, kwargs, obj=None, result=None):
    r = ExtRec(path, obj, list(args), dict(kwargs), I.st, I.loc(), I.stack(), result)
    if not hasattr(I, "extlog"):
        I.extlog = []
    I.extlog.append(r)
    return None


def nested_cond(I, args, depth=0):
    """Condition of the first undecided conditional value inside sequence arguments."""
    for a in args:
        a = I.res(a)
        if isinstance(a, Cond) and depth:
            return a.c
        it = I.open_items(a)
        if it is not None:
            return it.c
        if isinstance(a, ListRef):
            a = I.py.resolve_items(I, I.cell(a).items)
        if isinstance(a, SliceV):
            a = (a.a, a.b, a.c)
        if isinstance(a, tuple) and depth < 3:
            c = nested_cond(I, a, depth + 1)
            if c is not None:
                return c
    return None


def call_ext(I, f, args, kwargs):
    path = canon(f.path)
    fn = EXT.get(path)
    if fn is not None:
        args = [I.res(a) for a in args]
        kwargs = {k: I.res(v) for k, v in kwargs.items()}
        vals = args + list(kwargs.values())
        if any(isinstance(v, Top) for v in vals) and path.split(".")[0] in ("numpy", "scipy", "math", "skimage") and path not in ("numpy.array",):
            return Top(path)
        if any(isinstance(v, Cond) for v in vals):
            n = len(args)
            ks = list(kwargs)
            return I.dist(vals, lambda vs: call_ext(I, f, list(vs[:n]), dict(zip(ks, vs[n:]))))
        c = nested_cond(I, args)
        if c is not None:
            return I.cond_fork(c, lambda: call_ext(I, f, args, kwargs), lambda: call_ext(I, f, args, kwargs))
        try:
            return fn(I, args, kwargs)
        except _NoDist as e:
            return I.unmodelled(f"{path}: cannot distribute over {e.a.tag}")
    if path.startswith(RNG_PREFIX):
        I.event("rng", f"{path} is called", data=path)
        return Top(path)
    if path.startswith(IO_PREFIX) or path in ("open", "print", "input"):
        if path not in SILENT_IO:
            I.event("io", f"{path} is called", data=path)
        return ExtObj(path)
    if path.startswith(PLOT_PREFIX):
        return call_plot(I, path, None, args, kwargs)
    if path.startswith("logging"):
        log_ext(I, path, args, kwargs)
        return ExtObj("logging.Logger")
    if path.startswith(QUIET_PREFIX):
        if path in ("numpy.seterr", "warnings.simplefilter", "warnings.filterwarnings", "numpy.set_printoptions"):
            I.event("global", f"{path} changes process-wide state", data=path)
        return ExtObj(path)
    return I.unmodelled(f"call of {path}")


# ------------------------------------------------------------------ plotting objects
def call_plot(I, path, obj, args, kwargs):
    leaf = path.split(".")[-1]
    args = [I.res(a) for a in args]
    kwargs = {k: I.res(v) for k, v in kwargs.items()}
    loc = I.loc()
    uid = f"{leaf}@{loc[0] if loc else ''}:{loc[2] if loc else ''}:{loc[3] if loc and len(loc) > 3 else ''}/{obj.uid if obj is not None else ''}"
    uid = uid + "#" + str(len(getattr(I, "extlog", [])))
    res = ExtObj(path + "()", uid=uid)
    if leaf == "subplots" and (obj is None or "figure" in obj.path.lower() or "subplots" in obj.path):
        nr = kwargs.get("nrows", args[0] if len(args) > 0 else num(1))
        nc = kwargs.get("ncols", args[1] if len(args) > 1 else num(1))
        r, c = const_int(I, nr), const_int(I, nc)
        fig = ExtObj("matplotlib.figure.Figure", uid=uid + ".fig")
        axs = ExtObj("matplotlib.axes.Axes" if (r, c) == (1, 1) else "axesarray", uid=uid + ".ax")
        if r is not None and c is not None and (r, c) != (1, 1):
            axs.n = c if r == 1 else r
            if r != 1 and c != 1:
                axs.inner = c
        log_ext(I, path, args, kwargs, obj, (fig, axs))
        return axs if obj is not None else (fig, axs)
    if leaf == "ImageGrid":
        rc = kwargs.get("nrows_ncols", args[2] if len(args) > 2 else None)
        it = py_items(I, rc) if rc is not None else None
        if it:
            r, c = const_int(I, it[0]), const_int(I, it[1])
            if r is not None and c is not None:
                res.n = r * c
        res.path = "ImageGrid"
    if leaf in ("figure", "gcf"):
        res.path = "matplotlib.figure.Figure"
    log_ext(I, path, args, kwargs, obj, res)
    return res


def child(o, k):
    c = ExtObj("matplotlib.axes.Axes", uid=f"{o.uid}[{k}]")
    inner = getattr(o, "inner", None)
    if inner is not None:
        c.path = "axesarray"
        c.n = inner
    return c


def ext_children(I, o):
    n = getattr(o, "n", None)
    if n is None:
        return None
    return [child(o, k) for k in range(n)]


def call_extobj(I, f, args, kwargs):
    if isinstance(f, ExtMeth):
        o, name = f.obj, f.name
        if o.path.startswith("logging"):
            log_ext(I, "logging." + name, args, kwargs, o)
            if name == "getChild":
                return o
            return None
        if o.path.startswith(("time.", "os.", "pathlib", "tifffile", "datetime.")) and name not in ("joinpath", "resolve", "absolute"):
            I.event("io", f"{o.path}.{name} is called", data=o.path)
            return ExtObj(o.path)
        if o.path in ("axesarray",) and name in ("ravel", "flatten"):
            r = ExtObj("axesarray", uid=o.uid)
            n = getattr(o, "n", None)
            if n is not None:
                r.n = n * getattr(o, "inner", 1) if getattr(o, "inner", None) else n
            return r
        return call_plot(I, f"{o.path}.{name}", o, args, kwargs)
    return call_plot(I, f"{f.path}", f, args, kwargs)


def extobj_attr(I, o, name):
    if isinstance(o, ExtMeth):
        return ExtMeth(ExtObj(f"{o.obj.path}.{o.name}", uid=f"{o.obj.uid}.{o.name}"), name)
    return ExtMeth(o, name)


def ext_getitem(I, o, ix):
    if o.path in ("numpy.s_", "numpy.index_exp"):
        return ix if o.path == "numpy.s_" or isinstance(ix, tuple) else (ix,)
    if o.path in ("numpy.mgrid", "numpy.ogrid"):
        parts = ix if isinstance(ix, tuple) else (ix,)
        vs = []
        for p in parts:
            if not isinstance(p, SliceV) or p.b is None:
                raise NotImpl("mgrid")
            if p.c is not None and isinstance(I.res(p.c), AV) and I.res(p.c).kind == "c":
                raise NotImpl("mgrid with complex step")
            vs.append(np_arange(I, [num(0) if p.a is None else p.a, p.b] + ([] if p.c is None else [p.c]), {}))
        if not isinstance(ix, tuple):
            return vs[0]
        lst = np_meshgrid(I, vs, {"indexing": "ij", "sparse": boolv(o.path == "numpy.ogrid")})
        items = py_items(I, lst)
        if o.path == "numpy.ogrid":
            return lst
        return np_array(I, [lst], {})
    if o.path.startswith(("typing.", "collections.", "numpy.typing.", "numpy.ndarray")):
        return o
    if o.path == "os.environ":
        I.event("io", "os.environ is read", data=o.path)
        return Top("environ")
    raise NotImpl(f"subscript of {o.path}")


# ------------------------------------------------------------------ ndarray attributes and methods
METH_NP = {
    "sum": "sum", "mean": "mean", "max": "max", "min": "min", "prod": "prod", "any": "any", "all": "all", "std": "std", "var": "var", "ptp": "ptp", "argmax": "argmax",
    "argmin": "argmin", "ravel": "ravel", "squeeze": "squeeze", "swapaxes": "swapaxes", "conj": "conj", "conjugate": "conj", "round": "round", "clip": "clip", "cumsum": "cumsum",
    "dot": "dot", "argsort": "argsort", "nonzero": "nonzero", "repeat": "repeat", "take": "take",
}


def arr_getattr(I, o, name):
    av = I.arr(o)
    if isinstance(o, AV) and o.pt != "nd":
        return num_attr(I, o, name)
    if name == "shape":
        return tuple(intv(d) for d in vshape(I, av))
    if name == "ndim":
        return num(len(vshape(I, av)))
    if name == "size":
        return intv(prod_poly(vshape(I, av)))
    if name == "dtype":
        return DTypeV(av.kind)
    if name == "itemsize":
        return num({"f": 8, "i": 8, "c": 16, "b": 1}[av.kind])
    if name == "nbytes":
        return intv(prod_poly(vshape(I, av)) * {"f": 8, "i": 8, "c": 16, "b": 1}[av.kind])
    if name == "T":
        return np_transpose(I, [o], {})
    if name in ("real", "imag"):
        if name == "real" and av.kind != "c":
            return o
        if isinstance(o, AV):
            return ufunc1(I, name, o)

        def back(I_, b, v):
            if b.kind != "c":
                return v
            im = ufunc1_av(I_, "imag" if name == "real" else "real", b)
            j = P.I
            if name == "real":
                return elementwise(I_, lambda s, t: s + j * t, [v, im], "c", v.unit, "real part store")
            return elementwise(I_, lambda s, t: t + j * s, [v, im], "c", v.unit, "imag part store")

        return I.view(o, lambda I_, b: ufunc1_av(I_, name, b), back)
    if name == "flat":
        return np_ravel(I, [o], {})
    if name == "base":
        return Top("base")
    if name in METH_NP:
        fn = EXT["numpy." + METH_NP[name]]
        return Builtin("ndarray." + name, lambda I_, a, k: guard(I_, fn, name, [o] + list(a), dict(k)))
    m = METH.get(name)
    if m is not None:
        return Builtin("ndarray." + name, lambda I_, a, k: guard(I_, m, name, [o] + list(a), dict(k)))
    if name in ND_ATTRS or name.startswith("__"):
        raise NotImpl(f"ndarray.{name}")
    I.throw("AttributeError", f"'numpy.ndarray' object has no attribute {name!r}")


def guard(I, fn, name, args, kwargs):
    args = [I.res(x) for x in args]
    if any(isinstance(x, Top) for x in args):
        return Top(name)
    try:
        return fn(I, args, {k: I.res(v) for k, v in kwargs.items()})
    except _NoDist as e:
        return I.unmodelled(f"{name}: cannot distribute over {e.a.tag}")


def num_attr(I, o, name):
    if name == "real":
        return ufunc1(I, "real", o).but(pt="float" if o.kind in "fc" else o.pt)
    if name == "imag":
        return ufunc1(I, "imag", o).but(pt="float" if o.kind in "fc" else o.pt)
    if name == "conjugate":
        return Builtin(name, lambda I_, a, k: ufunc1(I_, "conj", o).but(pt=o.pt))
    if name == "is_integer":
        return Builtin(name, lambda I_, a, k: boolv(True) if P.is_int(o.term) else indv(fresh_ind("is_integer")))
    if name == "bit_length":
        raise NotImpl("bit_length")
    if name == "__class__":
        from .pymodel import py_type

        return py_type(I, o)
    if hasattr({"int": 0, "float": 0.0, "bool": True, "complex": 0j}[o.pt], name):
        raise NotImpl(f"{o.pt}.{name}")
    I.throw("AttributeError", f"'{o.pt}' object has no attribute {name!r}")


def m_astype(I, args, kwargs):
    a = A(I, "self dtype order casting subok copy", args, kwargs, "astype")
    k = need_kind(I, a.req("dtype"))
    o = a.req("self")
    av = I.arr(o)
    cp = a("copy")
    if cp is not None and isinstance(cp, AV) and cp.term.is_zero() and k == av.kind and isinstance(o, Arr):
        return o
    return ret(I, cast(I, av, k))


def m_copy(I, args, kwargs):
    o = args[0]
    return o if isinstance(o, AV) else I.new_arr(I.arr(o))


def m_fill(I, args, kwargs):
    av = I.arr(args[0])
    v = cast(I, val(I, args[1]), av.kind)
    I.write_arr(args[0], AV(av.shape, av.kind, v.unit, v.term, lay=tuple(CST for _ in av.shape), restr=av.restr), "fill")
    return None


def m_item(I, args, kwargs):
    av = I.arr(args[0])
    if len(args) == 1:
        if not all(peq(I, d, P1) is True for d in av.shape):
            if any(peq(I, d, P1) is False for d in av.shape):
                I.throw("ValueError", "can only convert an array of size 1 to a Python scalar")
            raise NotImpl("item")
        while av.shape:
            av = take0(I, av)
    else:
        r = getitem(I, args[0], tuple(args[1:]))
        av = I.arr(r)
    return av.but(pt={"b": "bool", "i": "int", "f": "float", "c": "complex"}[av.kind])


def m_tolist(I, args, kwargs):
    def rec(av):
        if av.shape == ():
            return av.but(pt={"b": "bool", "i": "int", "f": "float", "c": "complex"}[av.kind])
        es = to_elems(I, av)
        if es is None:
            tag = f"row{next(I.loopcount)}"
            return SymSeq(av.shape[0], rec(generic_row(I, av, tag)), tag)
        return I.new_list([rec(e) for e in es])

    return rec(I.arr(args[0]))


def m_reshape(I, args, kwargs):
    o = args[0]
    sh = args[1] if len(args) == 2 else tuple(args[1:])
    if "shape" in kwargs or "newshape" in kwargs:
        sh = kwargs.get("shape", kwargs.get("newshape"))
    return np_reshape(I, [o, sh], {k: v for k, v in kwargs.items() if k not in ("shape", "newshape")})


def m_transpose(I, args, kwargs):
    if len(args) == 1:
        return np_transpose(I, args, {})
    ax = args[1] if len(args) == 2 else tuple(args[1:])
    return np_transpose(I, [args[0], ax], {})


def m_sort(I, args, kwargs):
    av = I.arr(args[0])
    I.write_arr(args[0], opaque_like(unstack(av), "sort", unstack(av).term), "in-place sort")
    return None


def m_resize(I, args, kwargs):
    raise NotImpl("resize")


def m_view(I, args, kwargs):
    if len(args) == 1 and not kwargs:
        return as_view(I, args[0], lambda I_, b: b, lambda I_, b, v: v)
    raise NotImpl("ndarray.view")


def m_setitem(I, args, kwargs):
    setitem(I, args[0], args[1], args[2])
    return None


METH = {
    "astype": m_astype, "copy": m_copy, "fill": m_fill, "item": m_item, "tolist": m_tolist, "reshape": m_reshape, "transpose": m_transpose, "sort": m_sort, "flatten": np_flatten,
    "resize": m_resize, "view": m_view, "__setitem__": m_setitem, "__getitem__": lambda I, a, k: getitem(I, a[0], a[1]), "__len__": lambda I, a, k: intv(vshape(I, I.arr(a[0]))[0]),
    "__copy__": m_copy, "__deepcopy__": m_copy, "__abs__": lambda I, a, k: ufunc1(I, "abs", a[0]),
    "__mul__": lambda I, a, k: I.binop("Mult", a[0], a[1]), "__add__": lambda I, a, k: I.binop("Add", a[0], a[1]), "__sub__": lambda I, a, k: I.binop("Sub", a[0], a[1]),
}


def arr_setattr(I, o, name, v):
    if name == "shape":
        sh = dims_arg(I, v)
        c = I.cell(o)
        I.check_owner(c, "assignment to .shape")
        if c.base is not None:
            raise NotImpl(".shape assignment on a view")
        av = reshape_av(I, c.av, sh)
        I.set_cell(o, ArrCell(av, c.owner))
        return
    if name in ("real", "imag"):
        t = arr_getattr(I, o, name)
        if isinstance(t, Arr):
            setitem(I, t, Ellipsis, v)
        return
    if name == "flat":
        av = I.arr(o)
        I.write_arr(o, opaque_like(unstack(av), "flatstore", unstack(av).term), "assignment to .flat")
        return
    I.throw("AttributeError", f"cannot set attribute {name} of an array")
