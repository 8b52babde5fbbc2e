"""numpy over symbolic scalars.

SymArray is an object ndarray that remembers the dtype the real code would have (``sdt``), so that promotion,
truncation on assignment and dtype checks of compiled kernels are reproduced.  Everything not handled here falls
back to numpy's own implementation on the object array.
"""
import math as _math
import operator
import types
from fractions import Fraction

import numpy as np

from . import core
from .core import (Sym, SymBool, lift, Unsupported, ite, s_and, s_or, s_not, s_sqrt, s_abs, s_exp, s_cos, s_sin,
                   s_floor, s_ceil, s_trunc, s_round, s_sign, s_divmod, s_uf)

F64, C128, I32, I64, BOOL, OBJ = (np.dtype(x) for x in ("f8", "c16", "i4", "i8", "?", "O"))
_ONES = {}


def _one(dt):
    if dt not in _ONES:
        _ONES[dt] = np.ones(1, dtype=dt)
    return _ONES[dt]


def to_dtype(d):
    """dtype argument of the code under check -> numpy dtype."""
    if d is None:
        return None
    if isinstance(d, np.dtype):
        return d
    n = getattr(d, "__symname__", None)
    if n:
        return {"float": F64, "int": I64, "complex": C128, "bool": BOOL}[n]
    return np.dtype(d)


class NpInt(int):
    """Concrete integer taken from an array."""
    __slots__ = ()

    def item(self, *a):
        return int(self)

    dtype = I64
    shape = ()
    ndim = 0
    size = 1

    def astype(self, dt):
        return cast(int(self), to_dtype(dt))

    def tolist(self):
        return int(self)

    def __deepcopy__(self, memo):
        return self


def _npop(n):
    f = getattr(int, n)

    def g(self, o):
        r = f(self, o)
        return NpInt(r) if type(r) is int else r
    return g


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "floordiv", "rfloordiv", "mod", "rmod"):
    setattr(NpInt, f"__{_n}__", _npop(f"__{_n}__"))


def npint(x):
    return NpInt(x) if type(x) is int else x


def cast(x, dt):
    k = dt.kind
    if k == "f":
        if isinstance(x, Sym):
            if x.ty == "f":
                return x
            if x.ty == "c":
                return x.real
            return Sym(x.p, "f")
        if isinstance(x, SymBool):
            return Sym(x.as_int().p, "f") if not isinstance(x.as_int(), int) else lift(float(x.as_int()))
        if isinstance(x, complex):
            x = x.real
        return lift(float(x)) if not isinstance(x, Fraction) else lift(x)
    if k == "c":
        if isinstance(x, Sym):
            return x if x.ty == "c" else Sym(x.p, "c")
        if isinstance(x, SymBool):
            return Sym(lift(x.as_int()).p, "c")
        if isinstance(x, Fraction):
            return Sym(lift(x).p, "c")
        return lift(complex(x))
    if k in "iu":
        if isinstance(x, Sym):
            if x.ty == "i":
                return x.value() if x.is_const() else x
            x = s_trunc(x.real)
            return x.value() if isinstance(x, Sym) and x.is_const() else x
        if isinstance(x, SymBool):
            return x.as_int()
        if isinstance(x, complex):
            x = x.real
        return int(x)
    if k == "b":
        if isinstance(x, SymBool):
            return x
        if isinstance(x, Sym):
            return x != 0
        return bool(x)
    return x


_cast_cache = {}


def cast_arr(a, dt):
    """object ndarray -> object ndarray with elements cast to dt."""
    if dt == OBJ:
        return a
    f = _cast_cache.get(dt)
    if f is None:
        f = _cast_cache[dt] = np.frompyfunc(lambda x: cast(x, dt), 1, 1)
    if a.ndim == 0:
        out = np.empty((), dtype=object)
        out[()] = cast(a[()], dt)
        return out
    r = f(a)
    if r.flags.f_contiguous != a.flags.f_contiguous and a.flags.f_contiguous:
        r = np.asfortranarray(r)
    return r


def scalar_sample(x):
    if isinstance(x, Sym):
        return {"i": 1, "f": 1.0, "c": 1j}[x.ty]
    if isinstance(x, SymBool):
        return True
    if isinstance(x, Fraction):
        return 1.0
    return x


def elem_dtype(x):
    if isinstance(x, (bool, SymBool, np.bool_)):
        return BOOL
    if isinstance(x, Sym):
        return {"i": I64, "f": F64, "c": C128}[x.ty]
    if isinstance(x, (int,)):
        return I64
    if isinstance(x, (float, Fraction)):
        return F64
    if isinstance(x, complex):
        return C128
    if isinstance(x, np.generic):
        return x.dtype
    return OBJ


def infer(a):
    dt = None
    for x in a.flat:
        d = elem_dtype(x)
        if d == OBJ:
            return OBJ
        dt = d if dt is None else np.promote_types(dt, d)
    return F64 if dt is None else dt


def asobj(x):
    """anything -> plain object ndarray (view for SymArray)."""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        return x.astype(object)
    if isinstance(x, (Sym, SymBool)) or np.isscalar(x) or x is None or isinstance(x, Fraction):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return np.empty((0,), dtype=object)
        r = np.array(x, dtype=object)
        return r
    if hasattr(x, "toarray"):
        return asobj(x.toarray())
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def dtype_of(x):
    if isinstance(x, SymArray):
        return x.sdt
    if isinstance(x, np.ndarray):
        return x.dtype if x.dtype != OBJ else infer(x)
    if isinstance(x, (list, tuple, range)):
        return seq_dtype(x)
    return elem_dtype(x)


def seq_dtype(x):
    dts = []

    def rec(y):
        if isinstance(y, (list, tuple, range)):
            for z in y:
                rec(z)
        else:
            dts.append(dtype_of(y))
    rec(x)
    if not dts:
        return F64
    if OBJ in dts or any(d.kind in "SU" for d in dts):
        return OBJ
    dt = dts[0]
    for d in dts[1:]:
        dt = np.promote_types(dt, d)
    return dt


def mk(obj, dt, docast=True):
    """object ndarray -> SymArray."""
    if docast:
        obj = cast_arr(obj, dt)
    r = obj.view(SymArray)
    r.sdt = dt
    return r


def wrap(x, dt=None):
    """result of a numpy call on object arrays -> SymArray / scalar."""
    if isinstance(x, SymArray):
        if dt is not None:
            return mk(x.view(np.ndarray), dt)
        return x
    if isinstance(x, np.ndarray):
        if x.dtype != OBJ:
            if x.dtype.kind in "SUMm":
                return x
            return mk(x.astype(object), x.dtype)
        if x.ndim == 0:
            return npint(cast(x[()], dt) if dt is not None else x[()])
        return mk(x, dt if dt is not None else infer(x))
    if isinstance(x, tuple):
        return tuple(wrap(y) for y in x)
    if isinstance(x, list):
        return [wrap(y) for y in x]
    if isinstance(x, np.generic):
        return x.item()
    if dt is not None and dt != OBJ and isinstance(x, (Sym, SymBool, int, float, complex, Fraction)):
        return npint(cast(x, dt))
    return x


# ------------------------------------------------------------------------------------------------
# element functions of ufuncs
# ------------------------------------------------------------------------------------------------
def _div(a, b):
    a, b = lift(a), lift(b)
    if b.p.is_zero():
        # numpy gives inf/nan with a warning
        if a.p.is_zero():
            raise Unsupported("0/0 in array arithmetic")
        raise Unsupported("x/0 in array arithmetic")
    if not b.p.is_const() and core.cur() is not None:
        pass
    return a / b


def _eq(a, b):
    return a == b


def _lt(a, b):
    return a < b


def _max(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a if lift(a) >= b else b
    return max(a, b)


def _min(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a if lift(a) <= b else b
    return min(a, b)


def _pow(a, b):
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(a, (int,)) and isinstance(b, int):
        return a ** b
    return lift(a) ** b


def _conj(x):
    return x.conjugate()


def _real(x):
    return x.real


def _imag(x):
    if isinstance(x, SymBool):
        return 0
    return x.imag


def _isfin(x):
    return True if isinstance(x, (Sym, SymBool)) else bool(np.isfinite(x))


def _m(f):
    def g(a):
        return f(lift(a))
    return g


def s_log(x):
    x = lift(x)
    if x.is_const() and x.value() == 1:
        return lift(0.0)
    if len(x.p.t) == 1:
        (m, c), = x.p.t.items()
        if c == (1, 0) and m and all(core.ATOMS[a].kind == "exp" for a, _ in m):
            r = core.Poly({})
            for a, e in m:
                d = core.ATOMS[a].data
                r = r + core.Poly({d: (e, 0)})
            return Sym(r, "f")
    return s_uf("log", x)


def _recip(a):
    return _div(1, a)


def _tan(a):
    return s_sin(a) / s_cos(a)


def _hypot(*xs):
    t = lift(0.0)
    for x in xs:
        t = t + lift(x) * lift(x)
    return s_sqrt(t)


def _heaviside(a, h):
    a = lift(a)
    return ite(a < 0, 0.0, ite(a > 0, 1.0, h))


def _sinc(a):
    a = lift(a) * core.PI
    if bool(a == 0):
        return lift(1.0)
    return s_sin(a) / a


def _angle(x):
    return s_uf("atan2", lift(x).imag, lift(x).real)


core.UF_EVAL["acos"] = lambda a: _math.acos(max(-1, min(1, a)))
core.UF_EVAL["asin"] = lambda a: _math.asin(max(-1, min(1, a)))
core.UF_EVAL["atan"] = lambda a: _math.atan(a)
core.UF_EVAL["atan2"] = lambda a, b: _math.atan2(a, b)


def s_acos(x):
    x = lift(x)
    if x.is_const():
        t = {Fraction(1): 0, Fraction(1, 2): Fraction(1, 3), Fraction(0): Fraction(1, 2),
             Fraction(-1, 2): Fraction(2, 3), Fraction(-1): 1}
        v = Fraction(x.p.const_val()[0])
        if v in t:
            return core.PI * t[v]
    return s_uf("acos", x)


def s_tanh(x):
    e = s_exp(lift(x) * 2)
    return (e - 1) / (e + 1)


def s_cosh(x):
    x = lift(x)
    return (s_exp(x) + s_exp(-x)) / 2


def s_sinh(x):
    x = lift(x)
    return (s_exp(x) - s_exp(-x)) / 2


def _land(a, b):
    return s_and(a, b)


def _lor(a, b):
    return s_or(a, b)


def _bor(a, b):
    return a | b


ELEM = {
    "add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "divide": _div, "true_divide": _div,
    "negative": operator.neg, "positive": lambda a: a, "power": _pow, "float_power": _pow,
    "floor_divide": lambda a, b: s_divmod(a, b)[0] if isinstance(a, Sym) or isinstance(b, Sym) else a // b,
    "remainder": lambda a, b: s_divmod(a, b)[1] if isinstance(a, Sym) or isinstance(b, Sym) else a % b,
    "mod": lambda a, b: s_divmod(a, b)[1] if isinstance(a, Sym) or isinstance(b, Sym) else a % b,
    "absolute": lambda a: s_abs(a) if isinstance(a, (Sym, SymBool)) else abs(a),
    "fabs": lambda a: s_abs(a), "sign": lambda a: s_sign(lift(a)), "conjugate": _conj, "conj": _conj,
    "sqrt": _m(s_sqrt), "square": lambda a: a * a, "exp": _m(s_exp), "cos": _m(s_cos), "sin": _m(s_sin),
    "tan": _tan, "log": _m(s_log), "reciprocal": _recip, "hypot": _hypot, "arccos": _m(s_acos),
    "arcsin": lambda a: s_uf("asin", a), "arctan": lambda a: s_uf("atan", a),
    "arctan2": lambda a, b: s_uf("atan2", a, b), "tanh": s_tanh, "cosh": s_cosh, "sinh": s_sinh,
    "floor": _m(s_floor), "ceil": _m(s_ceil), "trunc": _m(s_trunc), "rint": _m(s_round),
    "expm1": lambda a: s_exp(lift(a)) - 1, "log1p": lambda a: s_log(lift(a) + 1), "heaviside": _heaviside,
    "radians": lambda a: lift(a) * core.PI / 180, "deg2rad": lambda a: lift(a) * core.PI / 180,
    "degrees": lambda a: lift(a) * 180 / core.PI, "rad2deg": lambda a: lift(a) * 180 / core.PI,
    "equal": _eq, "not_equal": lambda a, b: a != b, "less": _lt, "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b,
    "logical_and": _land, "logical_or": _lor, "logical_not": lambda a: s_not(a),
    "logical_xor": lambda a, b: s_or(s_and(a, s_not(b)), s_and(s_not(a), b)),
    "bitwise_and": lambda a, b: a & b, "bitwise_or": _bor, "invert": lambda a: s_not(a) if isinstance(a, (bool, SymBool)) else ~a,
    "bitwise_xor": lambda a, b: a ^ b,
    "maximum": _max, "minimum": _min, "fmax": _max, "fmin": _min, "isfinite": _isfin,
    "isnan": lambda a: False, "isinf": lambda a: False,
    "real": _real, "imag": _imag, "angle": _angle,
    "left_shift": operator.lshift, "right_shift": operator.rshift,
}
_IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


def _res_dtype(ufunc, inputs):
    try:
        args = []
        for x in inputs:
            if isinstance(x, np.ndarray):
                args.append(_one(dtype_of(x)))
            elif isinstance(x, (list, tuple)):
                args.append(_one(seq_dtype(x)))
            else:
                s = scalar_sample(x)
                args.append(s)
        if all(not isinstance(a, np.ndarray) for a in args):
            args = [np.asarray(a) for a in args]
        with np.errstate(all="ignore"):
            r = ufunc(*args)
        if isinstance(r, tuple):
            return [np.asarray(y).dtype for y in r]
        return np.asarray(r).dtype
    except TypeError:
        raise
    except Exception:
        return None


def _matmul(a, b):
    A, B = asobj(a), asobj(b)
    if A.ndim == 1 and B.ndim == 1:
        return _dot1(A, B)
    if A.shape[-1] == 0:
        sh = A.shape[:-1] + B.shape[:-2] + B.shape[-1:]
        return np.zeros(sh, dtype=int).astype(object)
    return np.matmul(A, B)


def _dot1(A, B):
    if A.shape != B.shape:
        raise ValueError(f"shapes {A.shape} and {B.shape} not aligned")
    s = 0
    for x, y in zip(A, B):
        s = s + x * y
    return s


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    if isinstance(out, tuple):
        out = out[0]
    where = kw.pop("where", True)
    dt_req = to_dtype(kw.pop("dtype", None))
    kw.pop("casting", None)
    if where is not True:
        raise Unsupported("ufunc where=")
    if name == "matmul":
        dt = np.promote_types(dtype_of(inputs[0]), dtype_of(inputs[1]))
        r = wrap(_matmul(*inputs), dt)
        return _put(out, r)
    if name in ("divmod",):
        a = ufunc_dispatch(np.floor_divide, "__call__", inputs, {})
        b = ufunc_dispatch(np.remainder, "__call__", inputs, {})
        return a, b
    fn = ELEM.get(name)
    if fn is None:
        raise Unsupported(f"numpy ufunc {name} on symbolic values")
    if method == "__call__":
        if name in ("equal", "not_equal") and any(
                x is None or isinstance(x, (str, type)) for x in inputs):
            return NotImplemented
        dt = dt_req or _res_dtype(ufunc, inputs)
        if out is not None and isinstance(out, SymArray) and dt is not None and not np.can_cast(dt, out.sdt, "same_kind"):
            raise np.core._exceptions._UFuncOutputCastingError(ufunc, "same_kind", dt, out.sdt, 0)
        objs = [asobj(x) for x in inputs]
        pf = np.frompyfunc(fn, len(objs), 1)
        r = pf(*objs)
        if not isinstance(r, np.ndarray):
            r0 = np.empty((), dtype=object)
            r0[()] = r
            r = r0
        if dt is None:
            dt = infer(r)
        if r.ndim == 0:
            v = cast(r[()], dt)
            if out is not None:
                return _put(out, v)
            return v
        return _put(out, mk(r, dt))
    if method in ("reduce", "accumulate"):
        arr = inputs[0]
        o = asobj(arr)
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        sd = dtype_of(arr)
        if name in ("add", "multiply") and sd.kind in "b" or name in ("add", "multiply") and sd == I32:
            sd = I64
        if name in ("logical_and", "logical_or"):
            sd = BOOL
        if dt_req is not None:
            sd = dt_req
        if method == "accumulate":
            pf = np.frompyfunc(fn, 2, 1)
            return _put(out, wrap(pf.accumulate(o, axis=axis, dtype=object), sd))
        if axis is None:
            axis = tuple(range(o.ndim))
        if isinstance(axis, (int, np.integer)):
            axis = (int(axis),)
        axis = sorted(a % o.ndim for a in axis) if o.ndim else []
        r = o
        for a in reversed(axis):
            if r.shape[a] == 0:
                if name not in _IDENT:
                    raise ValueError("zero-size array to reduction operation has no identity")
                sh = r.shape[:a] + r.shape[a + 1:]
                r = np.full(sh, _IDENT[name], dtype=object)
                continue
            r = _reduce_axis(fn, r, a)
        if keep and isinstance(r, np.ndarray):
            sh = [1 if i in axis else n for i, n in enumerate(o.shape)]
            r = r.reshape(sh)
        return _put(out, wrap(r, sd))
    if method == "outer":
        a, b = asobj(inputs[0]), asobj(inputs[1])
        A = a.reshape(a.shape + (1,) * b.ndim)
        return ufunc_dispatch(ufunc, "__call__", (mk(A, dtype_of(inputs[0])), wrap(b, dtype_of(inputs[1]))), {})
    if method == "at":
        arr, idx, vals = inputs[0], inputs[1], (inputs[2] if len(inputs) > 2 else None)
        idx = _conc_index(idx, arr)
        vals = np.broadcast_to(asobj(vals), np.asarray(idx).shape)
        for i, v in zip(np.asarray(idx).flat, vals.flat):
            arr[int(i)] = fn(arr[int(i)], v)
        return None
    raise Unsupported(f"ufunc method {method}")


def _reduce_axis(fn, r, a):
    r = np.moveaxis(r, a, 0)
    if r.ndim == 1:
        s = r[0]
        for x in r[1:]:
            s = fn(s, x)
        o = np.empty((), dtype=object)
        o[()] = s
        return o
    out = np.empty(r.shape[1:], dtype=object)
    for idx in np.ndindex(*out.shape):
        s = r[(0,) + idx]
        for k in range(1, r.shape[0]):
            s = fn(s, r[(k,) + idx])
        out[idx] = s
    return out


def _put(out, r):
    if out is None:
        return r
    if isinstance(out, SymArray):
        out[...] = r
        return out
    if isinstance(out, np.ndarray):
        if out.dtype == OBJ:
            out[...] = asobj(r)
            return out
        raise Unsupported("symbolic result into a numeric array")
    return r


def _conc_index(i, arr=None):
    """Index expression with symbolic parts -> concrete (forks)."""
    if isinstance(i, tuple):
        return tuple(_conc_index(x) for x in i)
    if isinstance(i, Sym):
        if i.ty != "i":
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or "
                             "boolean arrays are valid indices")
        return i.__index__()
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, slice):
        return slice(*[x if x is None else operator.index(x) for x in (i.start, i.stop, i.step)])
    if isinstance(i, SymArray):
        if i.sdt.kind == "b":
            return np.array([bool(x) for x in i.view(np.ndarray).flat], dtype=bool).reshape(i.shape)
        if i.sdt.kind in "iu":
            return np.array([operator.index(x) for x in i.view(np.ndarray).flat], dtype=np.int64).reshape(i.shape)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(i, list):
        return _conc_index(wrap(asobj(i), seq_dtype(i) if i else I64))
    return i


class SymArray(np.ndarray):
    __array_priority__ = 2000.0

    def __array_finalize__(self, obj):
        if obj is not None:
            self.sdt = getattr(obj, "sdt", None) or OBJ

    @property
    def dtype(self):
        return self.sdt

    @property
    def base(self):
        """The exporting array of a typed memoryview that covers all of it."""
        b = np.ndarray.base.__get__(self)
        if b is not None and b.size != self.size:
            raise Unsupported("base of a part of an array")
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return array_function(func, args, kwargs)

    def __getitem__(self, i):
        i = _conc_index(i)
        r = np.ndarray.__getitem__(self, i)
        return NpInt(r) if type(r) is int else r

    def __setitem__(self, i, v):
        i = _conc_index(i)
        dt = self.sdt
        if dt != OBJ:
            if isinstance(v, np.ndarray) or isinstance(v, (list, tuple, range)):
                o = asobj(v)
                v = cast_arr(o, dt)
                if v.ndim == 0:
                    v = v[()]
            else:
                if v is None or isinstance(v, str):
                    raise TypeError(f"cannot store {v!r} in an array of {dt}")
                if isinstance(v, Sym) and v.ty == "c" and dt.kind in "fi" and not v.p.is_real():
                    raise TypeError("can't convert complex to float")
                v = cast(v, dt)
        np.ndarray.__setitem__(self, i, v)

    def item(self, *args):
        if not args:
            return np.ndarray.item(self)
        if len(args) == 1 and isinstance(args[0], tuple):
            args = args[0]
        args = tuple(operator.index(a) for a in args)
        if len(args) == 1:
            return self.view(np.ndarray).flat[args[0]] if self.ndim != 1 else self.view(np.ndarray)[args[0]]
        return self.view(np.ndarray)[args]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, x):
        return bool(s_or(*[y == x for y in self.view(np.ndarray).flat]))

    @property
    def real(self):
        dt = F64 if self.sdt.kind == "c" else self.sdt
        return mk(np.frompyfunc(_real, 1, 1)(self.view(np.ndarray)), dt)

    @real.setter
    def real(self, v):
        self[...] = asobj(v) + asobj(self.imag) * core.I

    @property
    def imag(self):
        dt = F64 if self.sdt.kind == "c" else self.sdt
        return mk(np.frompyfunc(_imag, 1, 1)(self.view(np.ndarray)), dt)

    @imag.setter
    def imag(self, v):
        self[...] = asobj(self.real) + asobj(v) * core.I

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        return mk(self.view(np.ndarray).copy(), to_dtype(dtype))

    def fill(self, v):
        self[...] = v

    def all(self, axis=None, **kw):
        return ufunc_dispatch(np.logical_and, "reduce", (self,), dict(axis=axis))

    def any(self, axis=None, **kw):
        return ufunc_dispatch(np.logical_or, "reduce", (self,), dict(axis=axis))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return ufunc_dispatch(np.add, "reduce", (self,), dict(axis=axis, dtype=dtype, out=out, keepdims=keepdims))

    def prod(self, axis=None, **kw):
        return ufunc_dispatch(np.multiply, "reduce", (self,), dict(axis=axis))

    def mean(self, axis=None, **kw):
        n = self.size if axis is None else self.shape[axis]
        return _scal_div(self.sum(axis=axis), n)

    def max(self, axis=None, **kw):
        return ufunc_dispatch(np.maximum, "reduce", (self,), dict(axis=axis))

    def min(self, axis=None, **kw):
        return ufunc_dispatch(np.minimum, "reduce", (self,), dict(axis=axis))

    def dot(self, b, out=None):
        return dot(self, b)

    def conj(self):
        return ufunc_dispatch(np.conjugate, "__call__", (self,), {})
    conjugate = conj

    def argsort(self, axis=-1, **kw):
        return argsort(self, axis=axis)

    def argmin(self, axis=None, **kw):
        return argmin(self, axis)

    def argmax(self, axis=None, **kw):
        return argmax(self, axis)

    def sort(self, axis=-1, **kw):
        self[...] = sort(self, axis)

    def nonzero(self):
        return nonzero(self)

    def cumsum(self, axis=None, **kw):
        return cumsum(self, axis)

    def round(self, decimals=0, out=None):
        return wrap(np.frompyfunc(lambda x: s_round(lift(x), decimals), 1, 1)(self.view(np.ndarray)), self.sdt)

    def clip(self, lo=None, hi=None, **kw):
        return clip(self, lo, hi)

    def trace(self, *a, **k):
        return sum((self[i, i] for i in range(min(self.shape))), 0)

    def tobytes(self, *a, **k):
        raise Unsupported("tobytes of a symbolic array")

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def copy(self, order="C"):
        r = self.view(np.ndarray).copy(order)
        return mk(r, self.sdt, False)

    def __repr__(self):
        return f"SymArray({self.view(np.ndarray).tolist()!r}, {self.sdt})"
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    @property
    def nbytes(self):
        return self.size * self.sdt.itemsize

    @property
    def itemsize(self):
        return self.sdt.itemsize


def _sym_array_ufunc(self, ufunc, method, *inputs, **kw):
    return ufunc_dispatch(ufunc, method, inputs, kw)


Sym.__array_ufunc__ = _sym_array_ufunc
SymBool.__array_ufunc__ = _sym_array_ufunc
Sym.dtype = property(lambda self: {"i": I64, "f": F64, "c": C128}[self.ty])
Sym.size = 1


def _scal_div(a, n):
    if isinstance(a, np.ndarray):
        return a / n
    return lift(a) / n


# ------------------------------------------------------------------------------------------------
# functions of the numpy namespace
# ------------------------------------------------------------------------------------------------
def array(x, dtype=None, copy=True, order="K", ndmin=0, subok=False, like=None):
    dt = to_dtype(dtype)
    if isinstance(x, SymArray):
        r = x.view(np.ndarray).copy()
        sd = x.sdt
    elif isinstance(x, np.ndarray):
        if x.dtype.kind in "SUMmV":
            return np.array(x, dtype=dtype)
        r, sd = x.astype(object), (x.dtype if x.dtype != OBJ else infer(x))
    else:
        if isinstance(x, types.GeneratorType) or isinstance(x, (dict, set)) or type(x).__name__ in ("dict_keys", "dict_values"):
            r = np.empty((), dtype=object)
            r[()] = x
            return r
        r = asobj(x)
        sd = seq_dtype(x) if isinstance(x, (list, tuple, range)) else elem_dtype(x if not hasattr(x, "toarray") else r.flat[0])
    if dt is not None and dt.kind in "SUV":
        return np.array(x, dtype=dtype)
    if dt is None and sd == OBJ:
        if all(isinstance(v, str) for v in r.flat):
            return np.array(x)
    if ndmin > r.ndim:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    out = mk(r, dt or sd)
    if order == "F":
        out = mk(np.asfortranarray(out.view(np.ndarray)), out.sdt, False)
    elif order == "C":
        out = mk(np.ascontiguousarray(out.view(np.ndarray)) if out.ndim else out.view(np.ndarray), out.sdt, False)
    return out


def asarray(x, dtype=None, order=None, **kw):
    dt = to_dtype(dtype)
    if isinstance(x, SymArray) and (dt is None or dt == x.sdt):
        if order == "F" and not x.flags.f_contiguous:
            return array(x, order="F")
        if order == "C" and not x.flags.c_contiguous:
            return array(x, order="C")
        return x
    return array(x, dtype=dtype, order=order or "K")


def _shape(s):
    if isinstance(s, (tuple, list)) or isinstance(s, np.ndarray):
        return tuple(operator.index(x) for x in s)
    return (operator.index(s),)


def _fill(shape, v, dtype, order="C"):
    dt = to_dtype(dtype) or F64
    if dt.kind in "SUV":
        return np.zeros(shape, dtype=dtype)
    sh = _shape(shape)
    o = np.empty(sh, dtype=object, order=order if order in ("C", "F") else "C")
    o[...] = cast(v, dt) if dt != OBJ else v
    r = o.view(SymArray)
    r.sdt = dt
    return r


def zeros(shape, dtype=None, order="C", **kw):
    return _fill(shape, 0, dtype, order)


def ones(shape, dtype=None, order="C", **kw):
    return _fill(shape, 1, dtype, order)


def empty(shape, dtype=None, order="C", **kw):
    return _fill(shape, 0, dtype, order)


def full(shape, v, dtype=None, order="C", **kw):
    dt = to_dtype(dtype)
    if isinstance(v, np.ndarray):
        r = _fill(shape, 0, dt or dtype_of(v), order)
        r[...] = v
        return r
    return _fill(shape, v, dt or elem_dtype(v), order)


def zeros_like(a, dtype=None, **kw):
    return zeros(asobj(a).shape, dtype or dtype_of(a))


def ones_like(a, dtype=None, **kw):
    return ones(asobj(a).shape, dtype or dtype_of(a))


def empty_like(a, dtype=None, **kw):
    return zeros_like(a, dtype)


def full_like(a, v, dtype=None, **kw):
    return full(asobj(a).shape, v, dtype or dtype_of(a))


def eye(n, m=None, k=0, dtype=None, **kw):
    r = zeros((n, m or n), dtype or F64)
    for i in range(operator.index(n)):
        if 0 <= i + k < (m or n):
            r[i, i + k] = 1
    return r


def identity(n, dtype=None, **kw):
    return eye(n, dtype=dtype)


def arange(*a, dtype=None, **kw):
    if all(isinstance(x, int) or (isinstance(x, Sym) and x.ty == "i") for x in a):
        a = [operator.index(x) for x in a]
        return array(list(range(*a)), dtype=to_dtype(dtype) or I64)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    n = max(0, operator.index(s_ceil((lift(stop) - start) / step)))
    return array([lift(start) + lift(step) * i for i in range(n)], dtype=to_dtype(dtype) or F64)


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = operator.index(num)
    div = (n - 1) if endpoint else n
    A, B = asobj(a), asobj(b)
    if A.ndim or B.ndim:
        r = [wrap(A + (B - A) * lift(Fraction(i, div) if div else 0), F64) for i in range(n)]
        out = array(r, dtype=F64) if n else zeros((0,) + np.broadcast(A, B).shape)
        return out
    la, lb = lift(a), lift(b)
    r = [Sym((la + (lb - la) * lift(Fraction(i, div) if div else 0)).p, "c" if "c" in (la.ty, lb.ty) else "f") for i in range(n)]
    out = array(r, dtype=to_dtype(dtype) or None) if n else zeros(0)
    if retstep:
        return out, (lb - la) / div
    return out


def dot(a, b, out=None):
    A, B = asobj(a), asobj(b)
    if isinstance(a, SpMat):
        return a.dot(b)
    dt = np.promote_types(dtype_of(a), dtype_of(b))
    if A.ndim == 0 or B.ndim == 0:
        return wrap(np.frompyfunc(operator.mul, 2, 1)(A, B), dt)
    if A.ndim == 1 and B.ndim == 1:
        return wrap(_dot1(A, B), dt)
    if A.shape[-1] != (B.shape[-2] if B.ndim > 1 else B.shape[0]):
        raise ValueError(f"shapes {A.shape} and {B.shape} not aligned")
    if A.shape[-1] == 0:
        return zeros(A.shape[:-1] + (B.shape[:-2] + B.shape[-1:] if B.ndim > 1 else ()), dt)
    return wrap(np.dot(A, B), dt)


def matmul(a, b, out=None):
    return ufunc_dispatch(np.matmul, "__call__", (a, b), {})


def vdot(a, b):
    A, B = asobj(a).ravel(), asobj(b).ravel()
    s = 0
    for x, y in zip(A, B):
        s = s + lift(x).conjugate() * y
    return wrap(s, np.promote_types(dtype_of(a), dtype_of(b)))


def inner(a, b):
    A, B = asobj(a), asobj(b)
    if A.ndim == 1 and B.ndim == 1:
        return dot(a, b)
    return dot(a, np.swapaxes(B, -1, -2) if B.ndim > 1 else b)


def outer(a, b, out=None):
    A, B = asobj(a).ravel(), asobj(b).ravel()
    return wrap(np.frompyfunc(operator.mul, 2, 1)(A[:, None], B[None, :]), np.promote_types(dtype_of(a), dtype_of(b)))


def cross(a, b, *args, **kw):
    A, B = asobj(a), asobj(b)
    dt = np.promote_types(dtype_of(a), dtype_of(b))
    if A.shape == (2,) and B.shape == (2,):
        return wrap(A[0] * B[1] - A[1] * B[0], dt)
    if A.shape == (3,) and B.shape == (3,):
        r = [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]]
        return array(r, dtype=dt)
    A, B = np.broadcast_arrays(A, B)
    if A.shape[-1] == 3:
        o = np.empty(A.shape, dtype=object)
        o[..., 0] = A[..., 1] * B[..., 2] - A[..., 2] * B[..., 1]
        o[..., 1] = A[..., 2] * B[..., 0] - A[..., 0] * B[..., 2]
        o[..., 2] = A[..., 0] * B[..., 1] - A[..., 1] * B[..., 0]
        return mk(o, dt)
    raise Unsupported("np.cross")


def kron(a, b):
    A, B = asobj(a), asobj(b)
    dt = np.promote_types(dtype_of(a), dtype_of(b))
    if A.ndim == 1 and B.ndim == 1:
        return outer(a, b).reshape(-1)
    n, m = A.shape
    p, q = B.shape
    o = np.empty((n * p, m * q), dtype=object)
    for i in range(n):
        for j in range(m):
            for x in range(p):
                for y in range(q):
                    o[i * p + x, j * q + y] = A[i, j] * B[x, y]
    return mk(o, dt)


def _catdt(arrs):
    dt = None
    for a in arrs:
        d = dtype_of(a)
        dt = d if dt is None else np.promote_types(dt, d)
    return dt


def concatenate(arrs, axis=0, out=None, dtype=None, **kw):
    arrs = list(arrs)
    return mk(np.concatenate([asobj(a) for a in arrs], axis=axis), to_dtype(dtype) or _catdt(arrs))


def vstack(arrs, **kw):
    arrs = list(arrs)
    return mk(np.vstack([asobj(a) for a in arrs]), _catdt(arrs))


def hstack(arrs, **kw):
    arrs = list(arrs)
    return mk(np.hstack([asobj(a) for a in arrs]), _catdt(arrs))


class _C:
    def __getitem__(self, k):
        if not isinstance(k, tuple) or any(isinstance(x, (slice, str)) for x in k):
            raise Unsupported("np.c_ with slices")
        return column_stack([x if isinstance(x, np.ndarray) else array([x]) for x in k])


def column_stack(arrs):
    arrs = list(arrs)
    return mk(np.column_stack([asobj(a) for a in arrs]), _catdt(arrs))


def stack(arrs, axis=0, **kw):
    arrs = list(arrs)
    return mk(np.stack([asobj(a) for a in arrs], axis=axis), _catdt(arrs))


def append(a, v, axis=None):
    if axis is None:
        a, v = ravel(a), ravel(v)
        axis = 0
    return concatenate((a, v), axis=axis)


def ravel(a, order="C"):
    return mk(asobj(a).ravel(order), dtype_of(a))


def copy(a, order="K", subok=False):
    return array(a)


def delete(a, idx, axis=None):
    return mk(np.delete(asobj(a), _conc_index(idx), axis=axis), dtype_of(a))


def insert(a, idx, v, axis=None):
    dt = dtype_of(a)
    return mk(np.insert(asobj(a), _conc_index(idx), asobj(v), axis=axis), dt)


def _red(u):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
        if isinstance(a, types.GeneratorType):
            a = list(a)
        if not isinstance(a, np.ndarray):
            a = array(a)
        if a.ndim == 0:
            return a[()]
        return ufunc_dispatch(u, "reduce", (a,), dict(axis=axis, dtype=dtype, keepdims=keepdims, out=out))
    return f


sum_ = _red(np.add)
prod = _red(np.multiply)
max_ = _red(np.maximum)
min_ = _red(np.minimum)
all_ = _red(np.logical_and)
any_ = _red(np.logical_or)


def mean(a, axis=None, **kw):
    return array(a).mean(axis)


def cumsum(a, axis=None, **kw):
    a = asobj(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return ufunc_dispatch(np.add, "accumulate", (wrap(a),), dict(axis=axis))


def average(a, axis=None, weights=None, **kw):
    if weights is None:
        return mean(a, axis)
    a, w = array(a), array(weights)
    if w.shape != a.shape:
        if axis is None or w.ndim != 1:
            raise Unsupported("np.average weights")
        w = w.reshape([-1 if i == axis % a.ndim else 1 for i in range(a.ndim)])
    w = w + zeros(a.shape)
    return (a * w).sum(axis) / w.sum(axis)


def var(a, axis=None, ddof=0, **kw):
    a = array(a)
    m = a.sum(axis, keepdims=True)
    n = a.size if axis is None else a.shape[axis]
    d = a - m / n
    if d.dtype.kind == "c":
        d = ufunc_dispatch(np.absolute, "__call__", (d,), {})
    return (d * d).sum(axis) / (n - ddof)


def std(a, axis=None, ddof=0, **kw):
    return ufunc_dispatch(np.sqrt, "__call__", (var(a, axis, ddof),), {})


def _cints(a):
    """Concrete integer array (Unsupported if symbolic)."""
    o = asobj(a)
    r = np.empty(o.shape, dtype=np.int64)
    for i in np.ndindex(*o.shape):
        v = o[i]
        if isinstance(v, Sym):
            v = v.conc() if hasattr(v, "conc") else v.__index__()
        r[i] = int(v)
    return r


def bincount(x, weights=None, minlength=0):
    k = _cints(x)
    n = max(int(minlength), int(k.max()) + 1 if k.size else 0)
    if weights is None:
        return array(np.bincount(k, minlength=minlength))
    w = list(asobj(weights).ravel())
    out = [lift(0.0)] * n
    for i, v in zip(k.tolist(), w):
        out[i] = out[i] + v
    return array(out, dtype=F64)


def _truth(c):
    o = asobj(c)
    r = np.empty(o.shape, dtype=bool)
    for i in np.ndindex(*o.shape):
        r[i] = bool(o[i])
    return r


def select(condlist, choicelist, default=0):
    out = array(default)
    for cnd, ch in reversed(list(zip(condlist, choicelist))):
        out = where(cnd, ch, out)
    return out


def choose(a, choices, **kw):
    k = _cints(a)
    cs = [asobj(x) for x in choices]
    shp = np.broadcast_shapes(k.shape, *[x.shape for x in cs])
    k = np.broadcast_to(k, shp)
    cs = [np.broadcast_to(x, shp) for x in cs]
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        out[i] = cs[k[i]][i]
    return wrap(out, _catdt(list(choices)))


def polyval(p, x):
    y = array(x) * 0 if isinstance(x, np.ndarray) else 0
    for v in asobj(p):
        y = y * x + v
    return y


def gradient(f, *varargs, **kw):
    o = list(asobj(f))
    if asobj(f).ndim != 1 or kw or len(varargs) > 1 or (varargs and np.ndim(varargs[0])):
        raise Unsupported("np.gradient options")
    h = varargs[0] if varargs else 1.0
    n = len(o)
    return array([(o[min(i + 1, n - 1)] - o[max(i - 1, 0)]) / (h * (min(i + 1, n - 1) - max(i - 1, 0))) for i in range(n)], dtype=F64)


def vectorize(f, *a, **kw):
    def g(*args):
        arrs = [asobj(x) for x in args]
        shp = np.broadcast_shapes(*[x.shape for x in arrs])
        bs = [np.broadcast_to(x, shp) for x in arrs]
        out = np.empty(shp, dtype=object)
        for i in np.ndindex(*shp):
            out[i] = f(*[b[i] for b in bs])
        return wrap(out) if shp else array(out[()])
    return g


class _R:
    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        parts = []
        for x in k:
            if isinstance(x, str):
                raise Unsupported("np.r_ with directives")
            if isinstance(x, slice):
                if isinstance(x.step, complex):
                    x = linspace(x.start, x.stop, int(abs(x.step)))
                else:
                    x = arange(x.start or 0, x.stop, x.step if x.step is not None else 1)
            parts.append(x if isinstance(x, np.ndarray) and x.ndim else array(x) if isinstance(x, (list, tuple)) else array([x]))
        return concatenate(parts)


def matrix_power(a, n):
    a = array(a)
    if n < 0:
        a, n = inv(a), -n
    r = eye(a.shape[0])
    for _ in range(n):
        r = dot(r, a)
    return r


def iscomplexobj(x):
    return array(x).dtype.kind == "c"


def result_type(*xs):
    return np.result_type(*[array(x).dtype if isinstance(x, (np.ndarray, Sym)) else x for x in xs])


import functools  # noqa: E402


def _cmpkey(a, b):
    if a < b:
        return -1
    if b < a:
        return 1
    return 0


def argsort(a, axis=-1, kind=None, **kw):
    o = asobj(a)
    if o.ndim == 1:
        key = functools.cmp_to_key(_cmpkey)
        idx = sorted(range(len(o)), key=lambda i: key(o[i]))
        return array(idx, dtype=I64)
    if o.ndim == 2 and axis in (-1, 1):
        return array([argsort(r) for r in o])
    raise Unsupported("argsort")


def sort(a, axis=-1, **kw):
    o = asobj(a)
    dt = dtype_of(a)
    if o.ndim == 1:
        return mk(o[[int(i) for i in argsort(o)]], dt)
    if o.ndim == 2 and axis in (-1, 1):
        return array([sort(r) for r in o], dtype=dt)
    raise Unsupported("sort")


def argmin(a, axis=None, **kw):
    o = asobj(a)
    if axis is not None and o.ndim > 1:
        raise Unsupported("argmin axis")
    o = o.ravel()
    b = 0
    for i in range(1, len(o)):
        if o[i] < o[b]:
            b = i
    return b


def argmax(a, axis=None, **kw):
    o = asobj(a)
    if axis is not None and o.ndim > 1:
        raise Unsupported("argmax axis")
    o = o.ravel()
    b = 0
    for i in range(1, len(o)):
        if o[i] > o[b]:
            b = i
    return b


def nonzero(a):
    o = asobj(a)
    m = np.array([bool(x != 0) if not isinstance(x, (bool, SymBool)) else bool(x) for x in o.flat]).reshape(o.shape)
    return tuple(mk(x.astype(object), I64) for x in np.nonzero(m))


def where(c, *xy):
    if not xy:
        return nonzero(c)
    x, y = xy
    C = asobj(c)
    dt = np.promote_types(dtype_of(x), dtype_of(y))
    r = np.frompyfunc(lambda cc, a, b: ite(cc, a, b), 3, 1)(C, asobj(x), asobj(y))
    return wrap(r, dt)


def isclose(a, b, rtol=1e-05, atol=1e-08, **kw):
    def f(x, y):
        d = lift(x) - y
        t = lift(atol) + lift(rtol) * s_abs(lift(y))
        if not d.p.is_real():
            return s_and(d.real * d.real + d.imag * d.imag <= t * t)
        d = d.real
        return s_and(d <= t, -d <= t)
    return wrap(np.frompyfunc(f, 2, 1)(asobj(a), asobj(b)), BOOL)


def allclose(a, b, rtol=1e-05, atol=1e-08, **kw):
    r = isclose(a, b, rtol, atol)
    return all_(r) if isinstance(r, np.ndarray) else r


def array_equal(a, b, **kw):
    A, B = asobj(a), asobj(b)
    if A.shape != B.shape:
        return False
    return s_and(*[x == y for x, y in zip(A.flat, B.flat)])


def diag(a, k=0):
    o = asobj(a)
    dt = dtype_of(a)
    if o.ndim == 2:
        return mk(np.diagonal(o, k).copy(), dt)
    n = len(o) + abs(k)
    r = zeros((n, n), dt)
    for i, x in enumerate(o):
        r[(i, i + k) if k >= 0 else (i - k, i)] = x
    return r


def trace(a, *args, **kw):
    return sum_(diag(a))


def real(a):
    if isinstance(a, np.ndarray):
        return wrap(a).real
    return lift(a).real


def imag(a):
    if isinstance(a, np.ndarray):
        return wrap(a).imag
    return lift(a).imag


def angle(a, deg=False):
    r = wrap(np.frompyfunc(_angle, 1, 1)(asobj(a)), F64)
    return r * 180 / core.PI if deg else r


def clip(a, lo, hi, out=None, **kw):
    r = a
    if lo is not None:
        r = ufunc_dispatch(np.maximum, "__call__", (r, lo), {})
    if hi is not None:
        r = ufunc_dispatch(np.minimum, "__call__", (r, hi), {})
    return r


def round_(a, decimals=0, out=None):
    if isinstance(a, np.ndarray):
        return wrap(a).round(decimals)
    return s_round(lift(a), decimals)


def meshgrid(*xs, indexing="xy", **kw):
    return [mk(o, dtype_of(x)) for o, x in zip(np.meshgrid(*[asobj(x) for x in xs], indexing=indexing), xs)]


def tensordot(a, b, axes=2):
    return wrap(np.tensordot(asobj(a), asobj(b), axes=axes), np.promote_types(dtype_of(a), dtype_of(b)))


def einsum(spec, *ops, **kw):
    spec = spec.replace(" ", "")
    ins, outp = spec.split("->") if "->" in spec else (spec, None)
    terms = ins.split(",")
    objs = [asobj(o) for o in ops]
    if "." in spec:
        free = [c for c in "ABCDEFGHIJ" if c not in spec]
        lead = [o.ndim - len(t.replace(".", "")) if "." in t else 0 for t, o in zip(terms, objs)]
        if len({n for n, t in zip(lead, terms) if "." in t}) > 1:
            raise Unsupported("einsum ellipsis broadcasting")
        ell = "".join(free[:max(lead)])
        terms = [t.replace("...", ell) for t in terms]
        if outp is None:
            raise Unsupported("einsum ellipsis without output")
        outp = outp.replace("...", ell)
    if outp is None:
        s = "".join(terms)
        outp = "".join(sorted(c for c in set(s) if s.count(c) == 1))
    dims = {}
    for t, o in zip(terms, objs):
        for c, n in zip(t, o.shape):
            dims[c] = n
    summed = [c for c in dims if c not in outp]
    out = np.empty(tuple(dims[c] for c in outp), dtype=object)
    for idx in np.ndindex(*out.shape):
        env = dict(zip(outp, idx))
        s = 0
        for k in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, k))
            p = 1
            for t, o in zip(terms, objs):
                p = p * o[tuple(env[c] for c in t)]
            s = s + p
        out[idx] = s
    return wrap(out, _catdt(ops))


def unique(a, **kw):
    if kw:
        o = asobj(a)
        if any(isinstance(v, Sym) and v.const() is None for v in o.flat if hasattr(v, "const")) or \
                any(isinstance(v, Sym) for v in o.flat):
            raise Unsupported("np.unique options")
        r = np.unique(np.array(o.tolist()), **kw)
        return tuple(array(x) for x in r) if isinstance(r, tuple) else array(r)
    o = list(asobj(a).ravel())
    r = []
    for x in sort(array(o)):
        if not r or bool(r[-1] != x):
            r.append(x)
    if kw:
        raise Unsupported("np.unique options")
    return array(r, dtype=dtype_of(a))


def trapz(y, x=None, dx=1.0, axis=-1):
    Y = asobj(y)
    if Y.ndim != 1:
        Y = np.moveaxis(Y, axis, -1)
        if x is not None and asobj(x).ndim != 1:
            raise Unsupported("trapz nd")
        out = np.empty(Y.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = trapz(Y[i], x, dx)
        return wrap(out)
    s = lift(0.0)
    X = asobj(x) if x is not None else None
    for i in range(len(Y) - 1):
        d = (X[i + 1] - X[i]) if X is not None else dx
        s = s + lift(d) * (lift(Y[i]) + Y[i + 1]) / 2
    return s


def cumtrapz(y, x=None, dx=1.0, axis=-1, initial=None):
    Y = asobj(y)
    X = asobj(x) if x is not None else None
    if (X is not None and X.ndim != 1) or initial not in (None, 0):
        raise Unsupported("cumulative_trapezoid options")
    Y = np.moveaxis(Y, axis, -1)
    out = np.empty(Y.shape[:-1] + (Y.shape[-1] if initial is not None else Y.shape[-1] - 1,), dtype=object)
    for i in np.ndindex(*Y.shape[:-1]):
        o = 0 if initial is None else 1
        if o:
            out[i + (0,)] = lift(0.0)
        s = lift(0.0)
        for k in range(Y.shape[-1] - 1):
            d = (X[k + 1] - X[k]) if X is not None else dx
            s = s + lift(d) * (lift(Y[i + (k,)]) + Y[i + (k + 1,)]) / 2
            out[i + (k + o,)] = s
    return wrap(np.moveaxis(out, -1, axis))


def cdist(a, b, metric="euclidean", **kw):
    A, B = asobj(a), asobj(b)
    if metric not in ("euclidean", "sqeuclidean"):
        raise Unsupported("cdist metric")
    out = np.empty((A.shape[0], B.shape[0]), dtype=object)
    for i, j in np.ndindex(*out.shape):
        s = lift(0.0)
        for p, q in zip(A[i], B[j]):
            s = s + (lift(p) - q) * (lift(p) - q)
        out[i, j] = s if metric == "sqeuclidean" else s_sqrt(s)
    return wrap(out)


# ---- linalg ------------------------------------------------------------------------------------
def det(a):
    o = asobj(a)
    return lift(_det(o.tolist()))


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    s = 0
    for j in range(n):
        x = m[0][j]
        if isinstance(x, Sym) and x.p.is_zero() or not isinstance(x, Sym) and x == 0:
            continue
        minor = [r[:j] + r[j + 1:] for r in m[1:]]
        t = x * _det(minor)
        s = s + t if j % 2 == 0 else s - t
    return s


def inv(a):
    o = asobj(a)
    n = o.shape[0]
    if o.ndim != 2 or o.shape[1] != n:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    dt = C128 if dtype_of(a).kind == "c" else F64
    if n > 4:
        raise Unsupported("inverse of a large symbolic matrix")
    m = [[lift(x) for x in r] for r in o.tolist()]
    d = lift(_det(m))
    if d.p.is_zero():
        raise np.linalg.LinAlgError("Singular matrix")
    r = np.empty((n, n), dtype=object)
    if n == 1:
        r[0, 0] = 1 / d
        return mk(r, dt)
    id_ = 1 / d
    for i in range(n):
        for j in range(n):
            minor = [row[:i] + row[i + 1:] for k, row in enumerate(m) if k != j]
            c = _det(minor)
            r[i, j] = (c if (i + j) % 2 == 0 else -c) * id_
    return mk(r, dt)


def solve(a, b):
    return dot(inv(a), b)


def norm(x, ord=None, axis=None, keepdims=False):
    o = asobj(x)
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm order")
    sq = np.frompyfunc(lambda v: (v * v) if not (isinstance(v, Sym) and v.ty == "c") else lift(v * v.conjugate()).real
                       if not isinstance(v, complex) else abs(v) ** 2, 1, 1)(o)
    if axis is None:
        s = 0
        for v in sq.flat:
            s = s + v
        return s_sqrt(lift(s))
    r = ufunc_dispatch(np.add, "reduce", (mk(sq, F64),), dict(axis=axis, keepdims=keepdims))
    return np.sqrt(r)


VFS = {}


def save(path, a, **kw):
    path = str(path)
    VFS[path if path.endswith(".npy") else path + ".npy"] = array(a)


def load(path, **kw):
    if str(path) not in VFS:
        raise FileNotFoundError(path)
    return VFS[str(path)].copy()


HOOKS = {}          # name -> replacement (eigen solvers ...) installed by harnesses


def _hook(name):
    def f(*a, **k):
        h = HOOKS.get(name)
        if h is None:
            raise Unsupported(f"{name} on symbolic values")
        return h(*a, **k)
    f.__name__ = name.split(".")[-1]
    return f


# ---- sparse ------------------------------------------------------------------------------------
class SpMat:
    """Minimal scipy.sparse stand-in: duplicates are summed, entries sorted by (row, column)."""
    __array_priority__ = 3000.0
    __array_ufunc__ = None
    fmt = "csr"

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        dt = to_dtype(dtype)
        self.d = {}
        if isinstance(arg, SpMat):
            self.shape, self.sdt = arg.shape, dt or arg.sdt
            self.d = dict(arg.d)
        elif isinstance(arg, tuple) and len(arg) == 2 and all(isinstance(x, (int, Sym)) for x in arg):
            self.shape, self.sdt = _shape(arg), dt or F64
        elif isinstance(arg, tuple) and len(arg) == 3:
            data, ind, ptr = (asobj(x) for x in arg)
            n = len(ptr) - 1
            self.sdt = dt or dtype_of(arg[0])
            cols = [operator.index(c) for c in ind]
            self.shape = _shape(shape) if shape is not None else (n, max(cols, default=-1) + 1)
            for r in range(n):
                for k in range(operator.index(ptr[r]), operator.index(ptr[r + 1])):
                    self._acc(r, cols[k], data[k])
        elif isinstance(arg, tuple) and self.fmt == "dia":
            data, off = arg
            data = asobj(data)
            if data.ndim == 1:
                data = data[None, :]
            offs = [operator.index(x) for x in (off if isinstance(off, (list, tuple, np.ndarray)) else [off])]
            self.sdt = dt or dtype_of(arg[0])
            self.shape = _shape(shape)
            for row, k in zip(data, offs):
                for j, v in enumerate(row):
                    i = j - k
                    if 0 <= i < self.shape[0] and j < self.shape[1]:
                        if not (isinstance(v, Sym) and v.p.is_zero()):
                            self._acc(i, j, v)
        elif isinstance(arg, tuple):
            data, (ri, ci) = arg
            self.sdt = dt or dtype_of(data)
            ri = [operator.index(x) for x in asobj(ri)]
            ci = [operator.index(x) for x in asobj(ci)]
            for nm, src in (("row", arg[1][0]), ("column", arg[1][1])):
                if isinstance(src, np.ndarray) and dtype_of(src).kind not in "iu":
                    raise TypeError(f"{nm} index is not an integer array")
            self.shape = _shape(shape) if shape is not None else (max(ri) + 1, max(ci) + 1)
            data = asobj(data)
            if not len(data) == len(ri) == len(ci):
                raise ValueError("row, column, and data array must all be the same length")
            for i, j, v in zip(ri, ci, data):
                if not (0 <= i < self.shape[0] and 0 <= j < self.shape[1]):
                    raise ValueError("index exceeds matrix dimensions")
                self._acc(i, j, v)
        else:
            o = asobj(arg)
            self.shape, self.sdt = o.shape, dt or dtype_of(arg)
            for i in range(o.shape[0]):
                for j in range(o.shape[1]):
                    v = o[i, j]
                    if isinstance(v, Sym) and v.p.is_zero() or not isinstance(v, Sym) and v == 0:
                        continue
                    self._acc(i, j, v)
        for k in self.d:
            self.d[k] = cast(self.d[k], self.sdt)

    def _acc(self, i, j, v):
        k = (i, j)
        self.d[k] = self.d[k] + v if k in self.d else v

    def _new(self, d, shape=None, dt=None, cls=None):
        r = (cls or csr_matrix).__new__(cls or csr_matrix)
        r.shape, r.sdt, r.d = shape or self.shape, dt or self.sdt, {k: cast(v, dt or self.sdt) for k, v in d.items()}
        return r

    dtype = property(lambda self: self.sdt)
    nnz = property(lambda self: len(self.d))

    def getnnz(self):
        return len(self.d)

    def _sorted(self):
        return sorted(self.d.items())

    @property
    def data(self):
        return array([v for _, v in self._sorted()], dtype=self.sdt) if self.d else zeros(0, self.sdt)

    @property
    def row(self):
        return array([k[0] for k, _ in self._sorted()], dtype=I32)

    @property
    def col(self):
        return array([k[1] for k, _ in self._sorted()], dtype=I32)

    @property
    def indices(self):
        return self.col

    @property
    def indptr(self):
        c = [0] * (self.shape[0] + 1)
        for (i, _), _v in self.d.items():
            c[i + 1] += 1
        for i in range(self.shape[0]):
            c[i + 1] += c[i]
        return array(c, dtype=I32)

    def toarray(self, *a, **k):
        r = zeros(self.shape, self.sdt)
        for (i, j), v in self.d.items():
            r[i, j] = v
        return r
    todense = toarray

    @property
    def A(self):
        return self.toarray()

    def tocsr(self, copy=False):
        return self._new(self.d, cls=csr_matrix)

    def tocoo(self, copy=False):
        return self._new(dict(self._sorted()), cls=coo_matrix)

    def todok(self, copy=False):
        return self._new(self.d, cls=dok_matrix)
    tocsc = tolil = tocsr

    def copy(self):
        return self._new(dict(self.d), cls=type(self))

    def _comb(self, o, f):
        if isinstance(o, SpMat):
            if o.shape != self.shape:
                raise ValueError("inconsistent shapes")
            d = {}
            for k in list(self.d) + [k for k in o.d if k not in self.d]:
                v = f(self.d.get(k, 0), o.d.get(k, 0))
                if isinstance(v, Sym) and v.p.is_zero():
                    continue
                d[k] = v
            return self._new(d, dt=np.promote_types(self.sdt, o.sdt))
        if isinstance(o, np.ndarray):
            return wrap(np.frompyfunc(f, 2, 1)(asobj(self.toarray()), asobj(o)), np.promote_types(self.sdt, dtype_of(o)))
        if o == 0:
            return self.copy()
        raise NotImplementedError("adding a nonzero scalar to a sparse matrix is not supported")

    def __add__(self, o):
        return self._comb(o, operator.add)
    __radd__ = __add__

    def __sub__(self, o):
        return self._comb(o, operator.sub)

    def __neg__(self):
        return self._new({k: -v for k, v in self.d.items()}, cls=type(self))

    def _scale(self, s, f=operator.mul):
        dt = np.result_type(_one(self.sdt), scalar_sample(s))
        return self._new({k: f(v, s) for k, v in self.d.items()}, dt=dt, cls=type(self))

    def __mul__(self, o):
        if isinstance(o, SpMat):
            return self.__matmul__(o)
        if isinstance(o, np.ndarray) and o.ndim:
            return self.dot(o)
        return self._scale(o)

    def __rmul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return dot(o, self.toarray())
        return self._scale(o)

    def __truediv__(self, o):
        return self._scale(o, _div)

    def __matmul__(self, o):
        if isinstance(o, SpMat):
            r = dot(self.toarray(), o.toarray())
            return csr_matrix(r)
        return self.dot(o)

    def dot(self, o):
        if isinstance(o, SpMat):
            return self.__matmul__(o)
        return dot(self.toarray(), o)

    def multiply(self, o):
        if isinstance(o, (int, float, complex, Sym)):
            return self._scale(o)
        return csr_matrix(self.toarray() * (o.toarray() if isinstance(o, SpMat) else o))

    def transpose(self, *a, **k):
        return self._new({(j, i): v for (i, j), v in self.d.items()}, shape=self.shape[::-1], cls=type(self))
    T = property(transpose)

    def conj(self, copy=True):
        return self._new({k: lift(v).conjugate() for k, v in self.d.items()}, cls=type(self))
    conjugate = conj

    def getH(self):
        return self.transpose().conj()
    H = property(getH)

    @property
    def real(self):
        return self._new({k: lift(v).real for k, v in self.d.items()}, dt=F64, cls=type(self))

    @property
    def imag(self):
        return self._new({k: lift(v).imag for k, v in self.d.items()}, dt=F64, cls=type(self))

    def diagonal(self, k=0):
        return diag(self.toarray())

    def sort_indices(self):
        pass
    sum_duplicates = sort_indices
    has_sorted_indices = True
    has_canonical_format = True

    def eliminate_zeros(self):
        self.d = {k: v for k, v in self.d.items() if bool(lift(v) != 0)}

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, (int, np.integer, Sym)) for x in k):
            i, j = (operator.index(x) for x in k)
            i %= self.shape[0]
            j %= self.shape[1]
            return self.d.get((i, j), cast(0, self.sdt))
        return csr_matrix(self.toarray()[k]) if False else self.toarray()[k]

    def __setitem__(self, k, v):
        i, j = (operator.index(x) for x in k)
        if not (-self.shape[0] <= i < self.shape[0] and -self.shape[1] <= j < self.shape[1]):
            raise IndexError("index out of bounds")
        self.d[(i % self.shape[0], j % self.shape[1])] = cast(v, self.sdt)

    def items(self):
        return self.d.items()

    def keys(self):
        return self.d.keys()

    def values(self):
        return self.d.values()

    def __abs__(self):
        return self._new({k: s_abs(lift(v)) for k, v in self.d.items()}, dt=F64)

    def sum(self, axis=None):
        return sum_(self.toarray(), axis=axis)

    def astype(self, dt):
        return self._new(self.d, dt=to_dtype(dt), cls=type(self))

    def max(self):
        return max_(self.toarray())


class csr_matrix(SpMat):
    fmt = "csr"


class coo_matrix(SpMat):
    fmt = "coo"


class dok_matrix(SpMat):
    fmt = "dok"


class dia_matrix(SpMat):
    fmt = "dia"


class KDTree:
    """Exhaustive stand-in for scipy.spatial.KDTree: the documented contract of the query functions."""
    def __init__(self, data, *a, **k):
        self.data = asarray(data)
        self.n = len(self.data)

    @staticmethod
    def _d2(p, q):
        s = 0
        for x, y in zip(p, q):
            s = s + (x - y) * (x - y)
        return lift(s)

    def query_ball_point(self, x, r, *a, **k):
        x = asarray(x)
        if x.ndim > 1:
            out = np.empty(x.shape[:-1], dtype=object)
            for i in np.ndindex(*x.shape[:-1]):
                out[i] = self.query_ball_point(x[i], r)
            return out
        r = lift(r)
        return [i for i in range(self.n) if bool(self._d2(self.data[i], x) <= r * r)]

    def sparse_distance_matrix(self, other, max_distance, *a, **k):
        m = lift(max_distance)
        r = dok_matrix((self.n, other.n))
        for i in range(self.n):
            for j in range(other.n):
                d2 = self._d2(self.data[i], other.data[j])
                if bool(d2 <= m * m):
                    r.d[(i, j)] = Sym(s_sqrt(d2).p, "f")
        return r

    def query_ball_tree(self, other, r, *a, **k):
        return [other.query_ball_point(p, r) for p in self.data]

    def query_pairs(self, r, *a, **k):
        r = lift(r)
        return {(i, j) for i in range(self.n) for j in range(i + 1, self.n) if bool(self._d2(self.data[i], self.data[j]) <= r * r)}

    def query(self, x, k=1, **kw):
        x = asarray(x)
        if x.ndim > 1 or k != 1:
            raise Unsupported("KDTree.query")
        b = 0
        ds = [self._d2(self.data[i], x) for i in range(self.n)]
        for i in range(1, self.n):
            if ds[i] < ds[b]:
                b = i
        return s_sqrt(ds[b]), b


# ---- __array_function__ ------------------------------------------------------------------------
_FUNCS = {}


def array_function(func, args, kwargs):
    f = _FUNCS.get(func.__name__)
    if f is not None:
        return f(*args, **kwargs)

    def conv(x):
        if isinstance(x, SymArray):
            return x.view(np.ndarray)
        if isinstance(x, (list, tuple)):
            return type(x)(conv(y) for y in x) if type(x) in (list, tuple) else x
        return x
    arrs = []

    def coll(x):
        if isinstance(x, SymArray):
            arrs.append(x)
        elif isinstance(x, (list, tuple)):
            for y in x:
                coll(y)
    coll(args)
    coll(list(kwargs.values()))
    try:
        r = func(*[conv(a) for a in args], **{k: conv(v) for k, v in kwargs.items()})
    except (Unsupported, core.Infeasible, core.PathLimit):
        raise
    except (TypeError, AttributeError) as e:
        raise Unsupported(f"np.{func.__name__}: {e}")
    dt = _catdt(arrs)
    if isinstance(r, np.ndarray) and r.dtype == OBJ:
        return wrap(r, dt) if func.__name__ in _STRUCT else wrap(r)
    return wrap(r)


_STRUCT = {"reshape", "transpose", "swapaxes", "moveaxis", "squeeze", "expand_dims", "flip", "flipud", "fliplr", "roll",
           "repeat", "tile", "take", "broadcast_to", "atleast_1d", "atleast_2d", "diagonal", "triu", "tril", "rollaxis",
           "split", "array_split", "resize", "compress", "choose", "extract", "pad", "rot90", "concatenate", "diff"}


class Shim(types.ModuleType):
    """Module whose unknown attributes come from the real module."""
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        v = getattr(self.__dict__["_real"], k)
        if isinstance(v, np.ufunc):
            u = v

            def f(*a, **kw):
                return ufunc_dispatch(u, "__call__", a, kw)
            f.reduce = lambda a, axis=0, **kw: ufunc_dispatch(u, "reduce", (a,), dict(axis=axis, **kw))
            f.accumulate = lambda a, axis=0, **kw: ufunc_dispatch(u, "accumulate", (a,), dict(axis=axis, **kw))
            f.outer = lambda a, b, **kw: ufunc_dispatch(u, "outer", (a, b), kw)
            f.at = lambda *a: ufunc_dispatch(u, "at", a, {})
            f.__name__ = k
            self.__dict__[k] = f
            return f
        if isinstance(v, types.ModuleType):
            raise Unsupported(f"numpy submodule {k}")
        if callable(v) and not isinstance(v, type) and v.__class__.__name__ != "dtype":
            fn = v

            def g(*a, **kw):
                if any(isinstance(x, (Sym, SymArray)) for x in a) or any(
                        isinstance(x, (list, tuple)) and any(isinstance(y, (Sym, SymArray)) for y in x) for x in a):
                    a = [array(x) if isinstance(x, (list, tuple)) and any(isinstance(y, Sym) for y in x) else x for x in a]
                    if any(isinstance(x, Sym) for x in a) and not any(isinstance(x, SymArray) for x in a):
                        a = [array(x) if isinstance(x, Sym) else x for x in a]
                    return array_function(fn, a, kw)
                return wrap(fn(*a, **kw))
            g.__name__ = k
            self.__dict__[k] = g
            return g
        return v


def _symconst_scalar(kind):
    dt = np.dtype(kind)

    class Meta(type):
        def __instancecheck__(cls, x):
            if isinstance(x, np.generic):
                return x.dtype == dt
            return False

        def __eq__(cls, o):
            try:
                return np.dtype(o) == dt
            except TypeError:
                return False

        def __hash__(cls):
            return hash(dt)

    class T(metaclass=Meta):
        dtype = dt

        def __new__(cls, x=0):
            if isinstance(x, (list, tuple, np.ndarray)):
                return array(x, dtype=dt)
            return cast(x, dt)
    T.__name__ = T.__qualname__ = str(dt)
    return T


_NUM = {n: _symconst_scalar(n) for n in ("float64", "complex128", "int32", "int64", "float32", "int16", "int8")}
_NUM["bool_"] = _symconst_scalar("bool")


def _elemwise(f):
    def g(x):
        if not isinstance(x, (np.ndarray, list, tuple)):
            return f(x)
        return vectorize(f)(x)
    return g


class _FFT:
    @classmethod
    def _ft(cls, a, sign, scale, n=None, axis=-1):
        o = asobj(a)
        if o.ndim != 1:
            o = np.moveaxis(o, axis, -1)
            rows = [asobj(cls._ft(o[i], sign, scale, n)) for i in np.ndindex(*o.shape[:-1])]
            r = np.empty((len(rows), len(rows[0])), dtype=object)
            for i, x in enumerate(rows):
                r[i] = x
            return array(np.moveaxis(r.reshape(o.shape[:-1] + (-1,)), -1, axis), dtype=C128)
        o = list(o)
        if n is not None:
            o = (o + [0] * n)[:n]
        n = len(o)
        out = []
        for k in range(n):
            s = lift(0j)
            for j in range(n):
                s = s + Sym(core._root_of_unity(Fraction(sign * 2 * j * k, n)), "c") * o[j]
            out.append(s * lift(Fraction(1, n)) if scale else s)
        return array(out, dtype=C128)

    def fft(self, a, n=None, axis=-1, norm=None, **k):
        if norm not in (None, "backward"):
            raise Unsupported("fft norm")
        return self._ft(a, -1, False, n, axis)

    def ifft(self, a, n=None, axis=-1, norm=None, **k):
        if norm not in (None, "backward"):
            if norm == "forward":
                return self._ft(a, 1, False, n, axis)
            raise Unsupported("fft norm")
        return self._ft(a, 1, True, n, axis)

    def _shift(self, x, axes, inv):
        a = array(x)
        axes = range(a.ndim) if axes is None else [axes] if isinstance(axes, int) else axes
        for ax in axes:
            n = a.shape[ax] // 2
            a = wrap(np.roll(a.view(np.ndarray), -n if inv else n, axis=ax), dtype_of(a))
        return a

    def fftshift(self, x, axes=None):
        return self._shift(x, axes, False)

    def ifftshift(self, x, axes=None):
        return self._shift(x, axes, True)

    def fftfreq(self, n, d=1.0):
        k = [i for i in range((n - 1) // 2 + 1)] + [i for i in range(-(n // 2), 0)]
        return array([lift(i) / (lift(d) * n) for i in k], dtype=F64)

    def __getattr__(self, k):
        raise Unsupported(f"np.fft.{k}")


linalg = Shim("numpy.linalg", np.linalg, dict(
    det=det, inv=inv, solve=solve, norm=norm, eigh=_hook("eigh"), eigvalsh=_hook("eigvalsh"), eig=_hook("eig"),
    eigvals=_hook("eigvals"), svd=_hook("svd"), qr=_hook("qr"), matrix_power=matrix_power, LinAlgError=np.linalg.LinAlgError))

_over = dict(
    save=save, load=load, array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=lambda x, dtype=None: asarray(x, dtype, order="C"),
    asfortranarray=lambda x, dtype=None: asarray(x, dtype, order="F"),
    zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like,
    full_like=full_like, eye=eye, identity=identity, arange=arange, linspace=linspace, dot=dot, matmul=matmul, vdot=vdot,
    inner=inner, outer=outer, cross=cross, kron=kron, concatenate=concatenate, vstack=vstack, hstack=hstack, stack=stack,
    c_=_C(), column_stack=column_stack, row_stack=vstack,
    append=append, ravel=ravel, copy=copy, delete=delete, insert=insert, sum=sum_, prod=prod, product=prod, max=max_, amax=max_, min=min_,
    amin=min_, all=all_, any=any_, mean=mean, average=average, cumsum=cumsum, argsort=argsort, sort=sort, argmin=argmin, argmax=argmax,
    nonzero=nonzero, where=where, isclose=isclose, allclose=allclose, array_equal=array_equal, diag=diag, trace=trace,
    real=real, imag=imag, angle=angle, clip=clip, round=round_, around=round_, meshgrid=meshgrid, tensordot=tensordot,
    einsum=einsum, unique=unique, trapz=trapz, var=var, std=std, bincount=bincount, select=select, choose=choose,
    polyval=polyval, gradient=gradient, vectorize=vectorize, r_=_R(), iscomplexobj=iscomplexobj,
    isrealobj=lambda x: not iscomplexobj(x), result_type=result_type, sinc=_elemwise(_sinc), linalg=linalg, fft=_FFT(), pi=core.PI, e=core.s_exp(lift(1.0)),
    ndarray=np.ndarray, newaxis=None, random=_hook("np.random"), **_NUM)
_over["float_"] = _NUM["float64"]
_over["int_"] = _NUM["int64"]
_over["complex_"] = _NUM["complex128"]
numpy = Shim("numpy", np, _over)


def _ndmeta():
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, np.ndarray)

        def __subclasscheck__(cls, c):
            return issubclass(c, np.ndarray)

    class ndarray(metaclass=Meta):
        def __new__(cls, shape=None, dtype=None, **kw):
            return zeros(shape, dtype)
    return ndarray


numpy.ndarray = _ndmeta()
for _k in list(_over):
    v = _over[_k]
    if callable(v) and not isinstance(v, type):
        _FUNCS[_k] = v
_FUNCS["norm"], _FUNCS["inv"], _FUNCS["det"], _FUNCS["solve"] = norm, inv, det, solve
for _k in ("random",):
    _FUNCS.pop(_k, None)
for _k in ("reshape", "transpose"):
    _FUNCS.pop(_k, None)


# ---- math / cmath ------------------------------------------------------------------------------
def _mreal(f):
    def g(x):
        if isinstance(x, np.ndarray):
            x = x.item()
        x = lift(x)
        if not x.p.is_real():
            raise TypeError("must be real number, not complex")
        return f(Sym(x.p.re(), "f" if x.ty == "c" else x.ty))
    return g


def _mexp(x):
    return s_exp(lift(x))


def _int(x):
    return x.value() if isinstance(x, Sym) and x.is_const() else x


def _fmod(a, b):
    q = s_trunc(lift(a) / b)
    return lift(a) - q * b


math = Shim("math", _math, dict(
    pi=core.PI, e=_over["e"], sqrt=_mreal(lambda x: Sym(s_sqrt(x).p, "f")), exp=_mreal(_mexp), cos=_mreal(s_cos), sin=_mreal(s_sin),
    tan=_mreal(_tan), acos=_mreal(s_acos), floor=lambda x: _int(s_floor(lift(x).real)), ceil=lambda x: _int(s_ceil(lift(x).real)), trunc=lambda x: _int(s_trunc(lift(x))),
    fabs=lambda x: Sym(s_abs(lift(x)).p, "f"), log=_mreal(s_log), radians=lambda x: lift(x) * core.PI / 180,
    degrees=lambda x: lift(x) * 180 / core.PI, pow=lambda a, b: lift(a) ** b, hypot=_hypot, fmod=_fmod,
    atan2=lambda a, b: s_uf("atan2", a, b), atan=lambda a: s_uf("atan", a), asin=lambda a: s_uf("asin", a),
    tanh=s_tanh, cosh=s_cosh, sinh=s_sinh, isnan=lambda x: False, isinf=lambda x: False,
    isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: isclose(a, b, rtol=rel_tol, atol=abs_tol),
    prod=lambda xs: functools.reduce(operator.mul, xs, 1), fsum=lambda xs: sum(xs, 0)))
cmath = Shim("cmath", __import__("cmath"), dict(
    pi=core.PI, exp=lambda x: Sym(s_exp(lift(x)).p, "c"), sqrt=lambda x: s_sqrt(Sym(lift(x).p, "c")),
    phase=_angle, rect=lambda r, t: r * (s_cos(t) + core.I * s_sin(t))))
