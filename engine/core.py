"""Symbolic scalars, path exploration and SMT back end.

Scalars are multivariate (Laurent) polynomials over the Gaussian rationals in *atoms*.  Atoms are
input variables, pi, square roots, reciprocals, floors, indicator variables of conditions, exp(m) and
exp(i*m) of monomials m.  The normal form only applies sound rewrites (r*r -> p for r = sqrt(p),
exp(a)exp(b) -> exp(a+b), b*b -> b for 0/1 indicators ...); every verdict on a property or on the
feasibility of a branch is the answer of z3 on the resulting terms together with the defining axioms
of the atoms that occur.
"""
import math
import time
from fractions import Fraction

import z3

__all__ = ["Sym", "SymBool", "lift", "Explorer", "Unsupported", "PathLimit", "Infeasible", "PI", "I",
           "s_sqrt", "s_cos", "s_sin", "s_exp", "s_abs", "s_floor", "s_ceil", "s_trunc", "s_round",
           "ite", "cur", "is_sym", "s_and", "s_or", "s_not", "evalf", "s_uf", "s_sign"]


class Unsupported(Exception):
    """The code under check used something the encoder does not model."""


class PathLimit(Exception):
    pass


class Infeasible(BaseException):
    """The assumptions of the current path became unsatisfiable."""


# ------------------------------------------------------------------------------------------------
# atoms
# ------------------------------------------------------------------------------------------------
class Atom:
    __slots__ = ("id", "kind", "data", "isint", "unit", "name", "lo", "hi")

    def __init__(self, id_, kind, data, isint=False, unit=False, name=None, lo=None, hi=None):
        self.id, self.kind, self.data, self.isint, self.unit = id_, kind, data, isint, unit
        self.name, self.lo, self.hi = name, lo, hi


ATOMS = []
_ATOM_KEYS = {}


def _atom(kind, key, data=None, **kw):
    k = (kind, key)
    a = _ATOM_KEYS.get(k)
    if a is None:
        a = Atom(len(ATOMS), kind, data, **kw)
        ATOMS.append(a)
        _ATOM_KEYS[k] = a
    return a


def _norm(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


def _cmul(a, b):
    ar, ai = a
    br, bi = b
    if ai == 0 and bi == 0:
        return (_norm(ar * br), 0)
    return (_norm(ar * br - ai * bi), _norm(ar * bi + ai * br))


ONE = ()
_NEEDS = {"sqrt", "ind", "cispi", "cis"}

_pi_atom = _atom("PI", "PI", name="pi")
_cispi = _atom("cispi", "cispi", unit=True, name="cispi")     # exp(i*pi)**exponent


class Poly:
    """dict monomial -> (re, im)."""
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(re, im=0):
        re, im = _norm(re), _norm(im)
        return Poly({ONE: (re, im)}) if re != 0 or im != 0 else Poly({})

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items(), key=lambda kv: _mkey(kv[0])))
        return self._h

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def const_val(self):
        return self.t.get(ONE, (0, 0))

    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            d = r.get(m)
            if d is None:
                r[m] = c
            else:
                s = (_norm(d[0] + c[0]), _norm(d[1] + c[1]))
                if s[0] == 0 and s[1] == 0:
                    del r[m]
                else:
                    r[m] = s
        return Poly(r)

    def neg(self):
        return Poly({m: (-c[0], -c[1]) for m, c in self.t.items()})

    def __sub__(self, o):
        return self + o.neg()

    def scale(self, re, im=0):
        if re == 0 and im == 0:
            return Poly({})
        if im == 0 and re == 1:
            return self
        return Poly({m: _cmul(c, (re, im)) for m, c in self.t.items()})

    def __mul__(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return Poly({})
        if len(a) == 1 and ONE in a:
            return o.scale(*a[ONE])
        if len(b) == 1 and ONE in b:
            return self.scale(*b[ONE])
        r = {}
        red = None
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m, need = _mmul(m1, m2)
                c = _cmul(c1, c2)
                if need:
                    p = _reduce(m).scale(*c)
                    red = p if red is None else red + p
                    continue
                d = r.get(m)
                if d is None:
                    r[m] = c
                else:
                    r[m] = (_norm(d[0] + c[0]), _norm(d[1] + c[1]))
        r = {m: c for m, c in r.items() if c[0] != 0 or c[1] != 0}
        p = Poly(r)
        if red is not None:
            p = p + red
        if len(p.t) > MAX_TERMS:
            raise Unsupported(f"expression larger than {MAX_TERMS} terms")
        return p

    def pow(self, n):
        if n < 0:
            return self.inv().pow(-n)
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def conj(self):
        r = {}
        extra = None
        for m, (re, im) in self.t.items():
            if any(ATOMS[a].unit for a, _ in m):
                mm = tuple((a, -e if ATOMS[a].unit else e) for a, e in m)
                if any(ATOMS[a].kind == "cispi" for a, _ in mm):
                    p = _reduce(mm).scale(re, -im)
                    extra = p if extra is None else extra + p
                    continue
                r[mm] = (re, -im)
            else:
                r[m] = (re, -im)
        p = Poly(r)
        return p if extra is None else p + extra

    def is_real(self):
        c = True
        for m, (re, im) in self.t.items():
            if im != 0 or any(ATOMS[a].unit for a, _ in m):
                c = False
                break
        return c or (self - self.conj()).is_zero()

    def re(self):
        if all(im == 0 and not any(ATOMS[a].unit for a, _ in m) for m, (_, im) in self.t.items()):
            return self
        return (self + self.conj()).scale(Fraction(1, 2))

    def im(self):
        return (self - self.conj()).scale(0, Fraction(-1, 2))

    def inv(self):
        if not self.t:
            raise ZeroDivisionError("division by zero")
        if len(self.t) == 1:
            (m, (re, im)), = self.t.items()
            d = re * re + im * im
            c = (_norm(Fraction(re) / d), _norm(Fraction(-im) / d))
            out = Poly.const(*c)
            simple = []
            for a, e in m:
                k = ATOMS[a].kind
                if k == "sqrt":
                    out = out * Poly({((a, 1),): (1, 0)}) * ATOMS[a].data.inv()
                elif k == "cispi":
                    out = out * _reduce(((a, -e),))
                elif k == "ind":
                    # 1/ind is only meaningful where ind = 1
                    out = out * Poly({((a, e),): (1, 0)})
                elif k == "inv":
                    out = out * ATOMS[a].data.pow(e)
                else:
                    if cur() is not None and k not in ("exp", "cis", "PI"):
                        cur().nonzero(a)
                    simple.append((a, -e))
            if simple:
                out = out * Poly({tuple(simple): (1, 0)})
            return out
        if not self.is_real():
            c = self.conj()
            return c * (self * c).inv()
        # rational factor: normalise content so that equal denominators share an atom
        lead = max(self.t.items(), key=lambda kv: _mkey(kv[0]))[1][0]
        if lead == 0:
            lead = max((c[0] for c in self.t.values() if c[0] != 0), default=1)
        # common monomial factor of plain variables
        p = self.scale(Fraction(1) / lead)
        a = _atom("inv", p.key(), p, name=f"inv{len(ATOMS)}")
        if cur() is not None:
            cur().nonzero_poly(p)
        return Poly({((a.id, 1),): (1, 0)}).scale(Fraction(1) / lead)

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s


MAX_TERMS = 20000


def _mkey(m):
    return tuple((a, float(e)) for a, e in m)


def _mmul(m1, m2):
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    d = dict(m1)
    need = False
    for a, e in m2:
        e0 = d.get(a)
        if e0 is None:
            d[a] = e
        else:
            s = e0 + e
            k = ATOMS[a].kind
            if k in _NEEDS:
                need = True
            if s == 0:
                del d[a]
            else:
                d[a] = _norm(s)
    return tuple(sorted(d.items())), need


def _root_of_unity(q):
    """exp(i*pi*q) for rational q as a Poly in sqrt(2), sqrt(3), or with cispi for other denominators."""
    q = Fraction(q) % 2
    sign = 1
    if q >= 1:
        q -= 1
        sign = -1
    n, d = q.numerator, q.denominator
    if d in (1, 2, 3, 4, 6, 12):
        deg = int(q * 12)     # multiples of 15 degrees
        h = Fraction(1, 2)
        s2, s3 = sqrt_const(2), sqrt_const(3)
        table = {0: (Poly.const(1), Poly.const(0)),
                 2: (s3.scale(h), Poly.const(h)),
                 3: (s2.scale(h), s2.scale(h)),
                 4: (Poly.const(h), s3.scale(h)),
                 6: (Poly.const(0), Poly.const(1))}
        if deg in (1, 5):
            s6 = s2 * s3
            c = (s6 + s2).scale(Fraction(1, 4))
            s = (s6 - s2).scale(Fraction(1, 4))
            if deg == 5:
                c, s = s, c
        elif deg <= 6:
            c, s = table[deg]
        else:
            cc, ss = _root_of_unity(Fraction(12 - deg, 12)), None
            r = cc.conj().neg()
            return r.scale(sign)
        r = c + s.scale(0, 1)
        return r.scale(sign)
    if d == 8 or d == 24 and False:
        # powers of exp(i pi/8): keep one generator, exponent 1/8 only
        k = q * 8
        k = int(k)
        if k == 1:
            return Poly({((_cispi.id, Fraction(1, 8)),): (sign, 0)})
        r = Poly({((_cispi.id, Fraction(1, 8)),): (1, 0)})
        rest = _root_of_unity(Fraction(k - 1, 8))
        out = Poly({})
        for m, c in rest.t.items():
            out = out + Poly({tuple(sorted(m + ((_cispi.id, Fraction(1, 8)),))): c})
        return out.scale(sign)
    return Poly({((_cispi.id, q),): (sign, 0)})


def _reduce(m):
    """Poly for the (possibly unreduced) monomial m."""
    plain = []
    out = None

    def mult(p):
        nonlocal out
        out = p if out is None else out * p
    for a, e in m:
        at = ATOMS[a]
        k = at.kind
        if k == "sqrt" and (e >= 2 or e < 0):
            half, rem = divmod(e, 2)
            mult(at.data.pow(half))
            if rem:
                plain.append((a, 1))
        elif k == "ind":
            if e > 0:
                plain.append((a, 1))
        elif k == "cispi":
            mult(_root_of_unity(e))
        elif k == "cis":
            mono = at.data
            if at.name == "period":
                e = Fraction(e)
                if e % 2 == 0:
                    continue
                if e.denominator == 1:
                    plain.append((a, 1))
                else:
                    plain.append((a, _norm(e)))
            else:
                plain.append((a, e))
        else:
            plain.append((a, e))
    base = Poly({tuple(plain): (1, 0)})
    return base if out is None else _mul_noreduce(base, out)


def _mul_noreduce(a, b):
    # a is a single reduced monomial; b arbitrary
    return a * b


_SQRT_CACHE = {}


def sqrt_const(q):
    """sqrt of a nonnegative rational as Poly."""
    q = Fraction(q)
    if q in _SQRT_CACHE:
        return _SQRT_CACHE[q]
    n = q.numerator * q.denominator
    sq, rest = 1, 1
    d = 2
    m = n
    while d * d <= m and d < 10000:
        while m % (d * d) == 0:
            m //= d * d
            sq *= d
        if m % d == 0:
            rest *= d
            m //= d
        d += 1
    r = math.isqrt(m)
    if r * r == m:
        sq *= r
        m = 1
    rest *= m
    coef = Fraction(sq, q.denominator)
    if rest == 1:
        p = Poly.const(coef)
    elif rest in (6,):
        p = (sqrt_const(2) * sqrt_const(3)).scale(coef)
    else:
        a = _atom("sqrt", Poly.const(rest).key(), Poly.const(rest), name=f"sqrt{rest}")
        p = Poly({((a.id, 1),): (coef, 0)})
    _SQRT_CACHE[q] = p
    return p


# ------------------------------------------------------------------------------------------------
# scalars
# ------------------------------------------------------------------------------------------------
_FLOAT_CACHE = {}


def lift_float(f):
    p = _FLOAT_CACHE.get(f)
    if p is None:
        p = _lift_float(f)
        _FLOAT_CACHE[f] = p
    return p


def _lift_float(f):
    if math.isnan(f) or math.isinf(f):
        raise Unsupported(f"non-finite float {f}")
    if f == int(f) and abs(f) < 2**60:
        return Poly.const(int(f))
    a = abs(f)
    sg = 1 if f > 0 else -1
    tol = 3.0 * math.ulp(a)
    if a > 1e-9:
        fr = Fraction(a).limit_denominator(20000)
        if fr != 0 and abs(float(fr) - a) <= tol:
            return Poly.const(sg * fr)
        n = round(1 / a)
        if 20000 < n < 10 ** 7 and abs(1 / n - a) <= tol:
            return Poly.const(Fraction(sg, n))
    r = repr(a)
    digits = r.split("e")[0].replace(".", "").strip("0")
    if len(digits) <= 14:
        return Poly.const(sg * Fraction(r))
    x = Fraction(a / math.pi).limit_denominator(5000)
    if x != 0 and abs(float(x) * math.pi - a) <= 2 * tol:
        return Poly({((_pi_atom.id, 1),): (_norm(sg * x), 0)})
    x = Fraction(a * a).limit_denominator(5000)
    if x != 0 and abs(math.sqrt(float(x)) - a) <= 2 * tol:
        return sqrt_const(x).scale(sg)
    x = Fraction(a * math.pi).limit_denominator(5000)
    if x != 0 and abs(float(x) / math.pi - a) <= 2 * tol:
        return Poly({((_pi_atom.id, -1),): (_norm(sg * x), 0)})
    return Poly.const(Fraction(f))


def lift(v):
    """Any number -> Sym."""
    if isinstance(v, Sym):
        return v
    if isinstance(v, SymBool):
        return v.as_int()
    if isinstance(v, bool):
        return Sym(Poly.const(int(v)), "i")
    if isinstance(v, int):
        return Sym(Poly.const(v), "i")
    if isinstance(v, float):
        return Sym(lift_float(float(v)), "f")
    if isinstance(v, Fraction):
        return Sym(Poly.const(v), "f")
    if isinstance(v, complex):
        p = lift_float(v.real)
        if v.imag != 0:
            p = p + lift_float(v.imag).scale(0, 1)
        return Sym(p, "c")
    t = type(v).__module__
    if t == "numpy":
        return lift(v.item())
    return NotImplemented


_ORD = {"i": 0, "f": 1, "c": 2}


def _ty(a, b):
    return a if _ORD[a] >= _ORD[b] else b


FORMAT_TOKENS = None      # text tokens of formatted symbolic numbers (loader.STRNUM)
STR_TOKENS = [False]     # str() of a symbolic number gives a token


class Sym:
    __slots__ = ("p", "ty")
    __array_priority__ = 1000.0
    __array_ufunc__ = None

    def __init__(self, p, ty):
        self.p, self.ty = p, ty

    # arithmetic ----------------------------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return Sym(self.p + o.p, _ty(self.ty, o.ty))
    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return Sym(self.p - o.p, _ty(self.ty, o.ty))

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return Sym(o.p - self.p, _ty(self.ty, o.ty))

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return Sym(self.p * o.p, _ty(self.ty, o.ty))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return Sym(self.p * _inv(o.p), _ty(_ty(self.ty, o.ty), "f"))

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o.__truediv__(self)

    def __neg__(self):
        return Sym(self.p.neg(), self.ty)

    def __pos__(self):
        return self

    def __pow__(self, n):
        if isinstance(n, Sym):
            if n.p.is_const() and n.p.const_val()[1] == 0:
                n = n.p.const_val()[0]
            else:
                raise Unsupported("symbolic exponent")
        if hasattr(n, "item"):
            n = n.item()
        if isinstance(n, float):
            n = Fraction(n)
        if isinstance(n, Fraction) and n.denominator == 1:
            n = int(n)
        if isinstance(n, int):
            ty = self.ty if n >= 0 else _ty(self.ty, "f")
            return Sym(self.p.pow(n), ty)
        if isinstance(n, Fraction) and n.denominator == 2:
            r = s_sqrt(self)
            return r ** n.numerator
        raise Unsupported(f"exponent {n}")

    def __rpow__(self, b):
        bb = lift(b)
        if self.p.is_const():
            return bb ** self
        # b ** x = exp(x log b): b > 0 constant
        if bb.p.is_const():
            v = bb.p.const_val()[0]
            if v > 0:
                return s_exp(self * s_log_const(v))
        raise Unsupported("symbolic power")

    def __floordiv__(self, o):
        return s_divmod(self, o)[0]

    def __rfloordiv__(self, o):
        return s_divmod(o, self)[0]

    def __mod__(self, o):
        return s_divmod(self, o)[1]

    def __rmod__(self, o):
        return s_divmod(o, self)[1]

    def __divmod__(self, o):
        return s_divmod(self, o)

    def __abs__(self):
        return s_abs(self)

    # comparisons ---------------------------------------------------------------------------
    def __eq__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return False
        return cmp_("==", self.p - o.p)

    def __ne__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return True
        return s_not(cmp_("==", self.p - o.p))

    def __lt__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return cmp_("<", self.p - o.p)

    def __le__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return cmp_("<=", self.p - o.p)

    def __gt__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return cmp_("<", o.p - self.p)

    def __ge__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return cmp_("<=", o.p - self.p)

    def __hash__(self):
        if self.p.is_const():
            re, im = self.p.const_val()
            if im == 0:
                return hash(re)
            return hash((re, im))
        c = cur()
        if c is not None and c.hash_mode == "concretize" and self.ty == "i":
            return hash(c.concretize(self))
        return 7

    def __bool__(self):
        return bool(self != 0)

    # conversions ---------------------------------------------------------------------------
    def is_const(self):
        return self.p.is_const()

    def value(self):
        """Python number of a constant."""
        re, im = self.p.const_val()
        if self.ty == "i":
            return re
        if self.ty == "c" or im != 0:
            return complex(float(re), float(im))
        return float(re)

    def __index__(self):
        if self.p.is_const():
            v = self.p.const_val()[0]
            if isinstance(v, int):
                return v
            raise TypeError("'float' object cannot be interpreted as an integer")
        if self.ty != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return cur().concretize(self)

    def __int__(self):
        if self.ty != "i":
            return int(s_trunc(self).__index__())
        return self.__index__()

    def __float__(self):
        if self.p.is_const():
            return float(self.p.const_val()[0])
        try:
            return evalf(self, {}).real
        except KeyError:
            raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        if self.p.is_const():
            re, im = self.p.const_val()
            return complex(float(re), float(im))
        try:
            return complex(evalf(self, {}))
        except KeyError:
            raise Unsupported("complex() of a symbolic value")

    def __round__(self, n=None):
        return s_round(self, n)

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return s_ceil(self)

    def __trunc__(self):
        return s_trunc(self)

    @property
    def real(self):
        return Sym(self.p.re(), "f" if self.ty == "c" else self.ty)

    @property
    def imag(self):
        if self.ty != "c":
            return Sym(Poly({}), self.ty)
        return Sym(self.p.im(), "f")

    def conjugate(self):
        if self.ty != "c":
            return self
        return Sym(self.p.conj(), "c")
    conj = conjugate

    def item(self, *a):
        return self

    @property
    def T(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def is_integer(self):
        return s_floor(self) == self

    # numpy object-ufunc hooks
    def sqrt(self):
        return s_sqrt(self)

    def exp(self):
        return s_exp(self)

    def cos(self):
        return s_cos(self)

    def sin(self):
        return s_sin(self)

    def floor(self):
        return s_floor(self)

    def ceil(self):
        return s_ceil(self)

    def rint(self):
        return s_round(self)

    def __repr__(self):
        return f"Sym<{fmt(self.p)}>"

    def __str__(self):
        if STR_TOKENS[0] and isinstance(FORMAT_TOKENS, dict):
            tok = f"~{len(FORMAT_TOKENS)}~"
            FORMAT_TOKENS[tok] = self
            return tok
        return repr(self)

    def __format__(self, spec):
        if not spec:
            return str(self)
        if spec[-1] not in "efgdEGF":
            return repr(self)
        if self.is_const() and (spec[-1] == "d" or self.value() == 0):
            return format(int(self.value()) if spec[-1] == "d" else 0.0, spec)
        if not isinstance(FORMAT_TOKENS, dict):
            return repr(self)
        tok = f"~{len(FORMAT_TOKENS)}~"
        FORMAT_TOKENS[tok] = self if self.ty != "i" or spec[-1] == "d" else Sym(self.p, "f")
        return f" {tok} "

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def fmt(p, n=6):
    out = []
    for i, (m, (re, im)) in enumerate(p.t.items()):
        if i >= n:
            out.append(f"...({len(p.t)} terms)")
            break
        c = f"{re}" if im == 0 else f"({re}+{im}i)"
        ms = "*".join(f"{ATOMS[a].name or ATOMS[a].kind + str(a)}" + (f"^{e}" if e != 1 else "") for a, e in m)
        out.append(f"{c}*{ms}" if ms else c)
    return " + ".join(out) if out else "0"


def _inv(p):
    if p.is_zero():
        raise ZeroDivisionError("division by zero")
    return p.inv()


PI = Sym(Poly({((_pi_atom.id, 1),): (1, 0)}), "f")
I = Sym(Poly.const(0, 1), "c")


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


# ------------------------------------------------------------------------------------------------
# conditions
# ------------------------------------------------------------------------------------------------
class SymBool:
    __slots__ = ("op", "args", "_k")
    __array_priority__ = 1000.0
    __array_ufunc__ = None

    def __init__(self, op, args):
        self.op, self.args, self._k = op, args, None

    def key(self):
        if self._k is None:
            if self.op in ("==", "<", "<="):
                self._k = (self.op, self.args.key())
            else:
                self._k = (self.op,) + tuple(a.key() if isinstance(a, SymBool) else a for a in self.args)
        return self._k

    def __bool__(self):
        c = cur()
        if c is None:
            raise Unsupported("branch on a symbolic condition outside an exploration")
        return c.fork(self)

    def __and__(self, o):
        return s_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return s_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return s_not(self)

    def __xor__(self, o):
        return s_or(s_and(self, s_not(o)), s_and(s_not(self), o))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)) or type(o).__name__ in ("bool_", "bool"):
            return s_not(self ^ o)
        return self.as_int() == o

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def as_int(self):
        return ite(self, 1, 0)

    def logical_not(self):
        return s_not(self)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self.as_int() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def item(self):
        return self

    def all(self):
        return self

    def any(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        if self.op in ("==", "<", "<="):
            return f"({fmt(self.args)} {self.op} 0)"
        return f"({self.op} {' '.join(map(repr, self.args))})"


def cmp_(op, p):
    if op == "==":
        if p.is_zero():
            return True
        if p.is_const():
            return False
        if not p.is_real():
            return s_and(cmp_("==", p.re()), cmp_("==", p.im()))
        if len(p.t) == 1:
            # c * monomial == 0: only plain variables/sqrt/ind can vanish
            (m, c), = p.t.items()
            rest = tuple((a, 1) for a, e in m if ATOMS[a].kind in ("var", "sqrt", "ind", "floor", "uf") and e > 0)
            if not rest:
                return False
            p = Poly({rest: (1, 0)})
        else:
            p = _canon_sign(p)
    else:
        if p.is_const():
            re = p.const_val()[0]
            return re < 0 if op == "<" else re <= 0
        if not p.is_real():
            raise TypeError("'<' not supported between instances of 'complex' and 'complex'")
        p = p.re()
        if p.is_const():
            return cmp_(op, p)
        p = _canon_scale(p)
    r = _bounds_decide(op, p)
    if r is not None:
        return r
    return SymBool(op, p)


def _canon_scale(p):
    lead = max(p.t.items(), key=lambda kv: _mkey(kv[0]))[1][0]
    if lead == 0:
        return p
    return p.scale(Fraction(1) / abs(lead))


def _canon_sign(p):
    lead = max(p.t.items(), key=lambda kv: _mkey(kv[0]))[1][0]
    if lead == 0:
        return p
    return p.scale(Fraction(1) / lead)


def _interval(p):
    """Sound interval of a real poly from the declared variable bounds, or None."""
    lo = hi = 0
    for m, (re, im) in p.t.items():
        l, h = 1, 1
        for a, e in m:
            at = ATOMS[a]
            if at.kind in ("var", "floor") and at.lo is not None and at.hi is not None and isinstance(e, int) and e > 0:
                al, ah = at.lo, at.hi
            elif at.kind == "ind" and e > 0:
                al, ah = 0, 1
            elif at.kind == "PI" and e == 1:
                al, ah = Fraction(31415926, 10**7), Fraction(31415927, 10**7)
            else:
                return None
            for _ in range(e):
                c = (l * al, l * ah, h * al, h * ah)
                l, h = min(c), max(c)
            if e == 2 and al < 0 < ah and len(m) == 1:
                l = max(l, 0)
        if re >= 0:
            lo += re * l
            hi += re * h
        else:
            lo += re * h
            hi += re * l
    return lo, hi


def _bounds_decide(op, p):
    iv = _interval(p)
    if iv is None:
        return None
    lo, hi = iv
    if op == "==":
        if lo > 0 or hi < 0:
            return False
    elif op == "<":
        if hi < 0:
            return True
        if lo >= 0:
            return False
    else:
        if hi <= 0:
            return True
        if lo > 0:
            return False
    return None


def _tb(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    return bool(x)


def s_and(*xs):
    out = []
    for x in xs:
        x = _tb(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool("and", tuple(out))


def s_or(*xs):
    out = []
    for x in xs:
        x = _tb(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool("or", tuple(out))


def s_not(x):
    x = _tb(x)
    if x is True or x is False:
        return not x
    if x.op == "not":
        return x.args[0]
    if x.op == "<":
        return SymBool("<=", x.args.neg())
    if x.op == "<=":
        return SymBool("<", x.args.neg())
    return SymBool("not", (x,))


def boolvar(name):
    return SymBool("bvar", (name,))


def ite(c, a, b):
    c = _tb(c)
    if c is True:
        return a
    if c is False:
        return b
    la, lb = lift(a), lift(b)
    if (la.p - lb.p).is_zero():
        return la if _ORD[la.ty] >= _ORD[lb.ty] else lb
    at = _atom("ind", c.key(), c, isint=True, name=f"ind{len(ATOMS)}")
    ind = Poly({((at.id, 1),): (1, 0)})
    return Sym(lb.p + ind * (la.p - lb.p), _ty(la.ty, lb.ty))


# ------------------------------------------------------------------------------------------------
# functions
# ------------------------------------------------------------------------------------------------
def s_sqrt(x):
    x = lift(x)
    p = x.p
    if p.is_zero():
        return Sym(Poly({}), "f")
    if p.is_const():
        re, im = p.const_val()
        if im == 0 and re >= 0:
            return Sym(sqrt_const(re), "f" if x.ty != "c" else "c")
        if im == 0:
            if x.ty == "c":
                return Sym(sqrt_const(-re).scale(0, 1), "c")
            raise ValueError("math domain error")
        raise Unsupported("sqrt of a complex constant")
    if not p.is_real():
        raise Unsupported("sqrt of a complex value")
    p = p.re()
    coef = 1
    # pull out the leading coefficient
    lead = max(p.t.items(), key=lambda kv: _mkey(kv[0]))[1][0]
    if lead < 0:
        lead = -lead
    if lead != 1:
        p = p.scale(Fraction(1) / lead)
    out = sqrt_const(lead)
    # square of a monomial?
    if len(p.t) == 1:
        (m, c), = p.t.items()
        even = all(isinstance(e, int) and e % 2 == 0 or ATOMS[a].kind == "exp" for a, e in m)
        if even and c == (1, 0):
            r = None
            for a, e in m:
                at = ATOMS[a]
                h = _norm(Fraction(e) / 2)
                if at.kind in ("exp", "PI", "sqrt") or (at.lo is not None and at.lo >= 0 and at.kind == "var"):
                    q = Poly({((a, h),): (1, 0)})
                elif isinstance(h, int) and h % 2 == 0:
                    q = Poly({((a, h),): (1, 0)})
                else:
                    sq = Poly({((a, 2),): (1, 0)})
                    sa = _atom("sqrt", sq.key(), sq, name=f"abs_{at.name}")
                    q = Poly({((sa.id, 1),): (1, 0)})
                    k = abs(h)
                    q = q.pow(k) if h > 0 else q.pow(k).inv()
                r = q if r is None else r * q
            return Sym(out * r, "f")
    a = _atom("sqrt", p.key(), p, name=f"sqrt{len(ATOMS)}")
    return Sym(out * Poly({((a.id, 1),): (1, 0)}), "f" if x.ty != "c" else "c")


def s_abs(x):
    if isinstance(x, SymBool):
        return x.as_int()
    x = lift(x)
    if x.p.is_const():
        re, im = x.p.const_val()
        if im == 0:
            return Sym(Poly.const(abs(re)), "f" if x.ty == "c" else x.ty)
        return Sym(sqrt_const(Fraction(re) ** 2 + Fraction(im) ** 2), "f")
    if x.p.is_real():
        if x.ty == "i":
            return ite(x >= 0, x, -x)
        p = x.p.re()
        iv = _interval(p)
        if iv is not None:
            if iv[0] >= 0:
                return Sym(p, "f")
            if iv[1] <= 0:
                return Sym(p.neg(), "f")
        # a monomial times a positive constant keeps its simple shape
        lead = max(p.t.items(), key=lambda kv: _mkey(kv[0]))[1]
        if (lead[0] or lead[1]) < 0:
            p = p.neg()
        return s_sqrt(Sym(p * p, "f")) if len(p.t) == 1 else Sym(_abs_poly(p), "f")
    re, im = x.p.re(), x.p.im()
    return s_sqrt(Sym(re * re + im * im, "f"))


def _abs_poly(p):
    lead = max(p.t.items(), key=lambda kv: _mkey(kv[0]))[1]
    lead = abs(lead[0] or lead[1])
    q = p.scale(Fraction(1) / lead)
    sq = q * q
    a = _atom("sqrt", sq.key(), sq, name=f"abs{len(ATOMS)}")
    return Poly({((a.id, 1),): (_norm(lead), 0)})


def s_sign(x):
    return ite(x > 0, 1, ite(x < 0, -1, 0))


def _exp_poly(p):
    """exp(p) for a complex poly p: product over monomials."""
    out = Poly.const(1)
    for m, (re, im) in p.t.items():
        if any(ATOMS[a].unit for a, _ in m):
            # phases inside the exponent: split into re and im first
            return _exp_poly_split(p)
        if re != 0:
            if m == ONE:
                a = _atom("exp", ONE, ONE, name="e")
                out = out * Poly({((a.id, re),): (1, 0)})
            else:
                a = _atom("exp", m, m, name=f"exp[{_mname(m)}]")
                out = out * Poly({((a.id, re),): (1, 0)})
        if im != 0:
            if m == ((_pi_atom.id, 1),):
                out = out * _root_of_unity(im)
                continue
            if m == ONE:
                a = _atom("cis", ONE, ONE, unit=True, name="cis1")
            else:
                per = (_pi_atom.id, 1) in m and all(
                    a_ == _pi_atom.id or (ATOMS[a_].isint and isinstance(e_, int) and e_ > 0) for a_, e_ in m)
                a = _atom("cis", m, m, unit=True, name="period" if per else f"cis[{_mname(m)}]")
            if a.name == "period":
                im = Fraction(im)
                k = im % 2
                if im.denominator == 1:
                    im = k
                if im == 0:
                    continue
                out = out * Poly({((a.id, _norm(im)),): (1, 0)})
            else:
                out = out * Poly({((a.id, im),): (1, 0)})
    return out


def _exp_poly_split(p):
    raise Unsupported("exponent containing exp(i x)")


def _mname(m):
    return "*".join(f"{ATOMS[a].name}" + (f"^{e}" if e != 1 else "") for a, e in m)


def s_exp(x):
    x = lift(x)
    return Sym(_exp_poly(x.p), "c" if x.ty == "c" else "f")


def _cis(x):
    x = lift(x)
    if not x.p.is_real():
        raise Unsupported("cos/sin of a complex value")
    return _exp_poly(x.p.re().scale(0, 1))


def s_cos(x):
    return Sym(_cis(x).re(), "f")


def s_sin(x):
    return Sym(_cis(x).im(), "f")


def s_log_const(v):
    a = _atom("uf", ("log", v), ("log", (Sym(Poly.const(v), "f"),)), name=f"log({v})")
    return Sym(Poly({((a.id, 1),): (1, 0)}), "f")


def s_uf(name, *args, isint=False):
    """Real-valued uninterpreted function of real arguments (used for Bessel functions, log, ...)."""
    ls = tuple(lift(a) for a in args)
    a = _atom("uf", (name, tuple(l.p.key() for l in ls)), (name, ls), isint=isint, name=f"{name}{len(ATOMS)}")
    return Sym(Poly({((a.id, 1),): (1, 0)}), "i" if isint else "f")


def s_floor(x):
    x = lift(x)
    if x.ty == "i":
        return x
    if x.p.is_const():
        return Sym(Poly.const(math.floor(x.p.const_val()[0])), "i")
    if not x.p.is_real():
        raise TypeError("floor of complex")
    if _int_poly(x.p):
        return Sym(x.p, "i")
    # split integer part: floor(n + y) = n + floor(y)
    ip, rp = {}, {}
    for m, c in x.p.re().t.items():
        if m != ONE and c[1] == 0 and isinstance(c[0], int) and all(ATOMS[a].isint and isinstance(e, int) and e > 0 for a, e in m):
            ip[m] = c
        else:
            rp[m] = c
    rpoly = Poly(rp)
    if rpoly.is_const():
        return Sym(Poly(ip) + Poly.const(math.floor(rpoly.const_val()[0])), "i")
    iv = _interval(rpoly)
    lo, hi = (math.floor(iv[0]), math.floor(iv[1])) if iv else (None, None)
    a = _atom("floor", rpoly.key(), rpoly, isint=True, name=f"floor{len(ATOMS)}", lo=lo, hi=hi)
    return Sym(Poly(ip) + Poly({((a.id, 1),): (1, 0)}), "i")


def _int_poly(p):
    return all(c[1] == 0 and isinstance(c[0], int) and
               all(ATOMS[a].isint and isinstance(e, int) and e > 0 for a, e in m) for m, c in p.t.items())


def s_ceil(x):
    return -s_floor(-lift(x))


def s_trunc(x):
    x = lift(x)
    if x.ty == "i":
        return x
    if x.p.is_const():
        return Sym(Poly.const(math.trunc(x.p.const_val()[0])), "i")
    if _int_poly(x.p):
        return Sym(x.p, "i")
    return ite(x >= 0, s_floor(x), s_ceil(x))


def s_round(x, n=None):
    x = lift(x)
    if n is not None and n != 0:
        f = 10 ** n
        return s_round(x * f) / f
    if x.ty == "i":
        return x
    if x.p.is_const():
        return Sym(Poly.const(round(Fraction(x.p.const_val()[0]))), "i")
    if _int_poly(x.p):
        return Sym(x.p, "i")
    # ties: round half up is used; exact ties are a measure-zero set excluded by an assumption
    h = x + Fraction(1, 2)
    f = s_floor(h)
    c = cur()
    if c is not None:
        c.side(s_not(cmp_("==", h.p - f.p)), "ties in rounding are excluded")
    return f


def s_divmod(a, b):
    a, b = lift(a), lift(b)
    if a.p.is_const() and b.p.is_const():
        x, y = a.p.const_val()[0], b.p.const_val()[0]
        q, r = divmod(Fraction(x), Fraction(y))
        ty = _ty(a.ty, b.ty)
        return Sym(Poly.const(q), ty), Sym(Poly.const(r), ty)
    if b.ty == "i" and a.ty == "i":
        if b.p.is_const():
            n = b.p.const_val()[0]
            if n == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            # split multiples of n
            ip, rp = {}, {}
            for m, c in a.p.t.items():
                if isinstance(c[0], int) and c[0] % n == 0:
                    ip[m] = (c[0] // n, 0)
                else:
                    rp[m] = c
            qi, rest = Poly(ip), Poly(rp)
            if rest.is_const():
                c = rest.const_val()[0]
                q, r = divmod(c, n)
                return Sym(qi + Poly.const(q), "i"), Sym(Poly.const(r), "i")
            fl = s_floor(Sym(rest.scale(Fraction(1, n)), "f"))
            return Sym(qi + fl.p, "i"), Sym(rest - fl.p.scale(n), "i")
        fl = s_floor(Sym(a.p * _inv(b.p), "f"))
        return fl, Sym(a.p - fl.p * b.p, "i")
    q = s_floor(Sym(a.p * _inv(b.p), "f"))
    return Sym(q.p, "f"), Sym(a.p - q.p * b.p, "f")


# ------------------------------------------------------------------------------------------------
# numeric evaluation
# ------------------------------------------------------------------------------------------------
def numeric_const(p):
    """Float value of a real polynomial in pi alone, else None."""
    for mono in p.t:
        for a, e in mono:
            if ATOMS[a].kind != "PI":
                return None
    v = complex(evalf(Sym(p, "f"), {}))
    return v.real if v.imag == 0 else None


def evalf(x, env, cache=None):
    if cache is None:
        cache = {}
    if isinstance(x, SymBool):
        return evalb(x, env, cache)
    if isinstance(x, Sym):
        v = _evp(x.p, env, cache)
        if x.ty == "i":
            return int(round(v.real))
        if x.ty == "f":
            return v.real
        return v
    return x


def _evp(p, env, cache):
    s = 0j
    for m, (re, im) in p.t.items():
        v = complex(float(re), float(im))
        for a, e in m:
            v *= _eva(a, env, cache) ** (e if isinstance(e, int) else float(e)) if ATOMS[a].kind not in ("cis", "exp", "cispi") \
                else _evpow(a, e, env, cache)
        s += v
    return s


def _evpow(a, e, env, cache):
    at = ATOMS[a]
    e = float(e)
    if at.kind == "cispi":
        return complex(math.cos(math.pi * e), math.sin(math.pi * e))
    m = _evp(Poly({at.data: (1, 0)}), env, cache).real
    if at.kind == "exp":
        return math.exp(m * e)
    return complex(math.cos(m * e), math.sin(m * e))


def _eva(a, env, cache):
    if a in cache:
        return cache[a]
    at = ATOMS[a]
    k = at.kind
    if k == "var":
        v = env[at.name]
    elif k == "PI":
        v = math.pi
    elif k == "sqrt":
        v = math.sqrt(max(_evp(at.data, env, cache).real, 0.0))
    elif k == "inv":
        v = 1.0 / _evp(at.data, env, cache).real
    elif k == "floor":
        v = math.floor(_evp(at.data, env, cache).real + 1e-12)
    elif k == "ind":
        v = 1 if evalb(at.data, env, cache) else 0
    elif k == "uf":
        fn = UF_EVAL.get(at.data[0])
        if fn is None:
            raise KeyError(f"uf {at.data[0]}")
        v = fn(*[evalf(x, env, cache) for x in at.data[1]])
    else:
        raise KeyError(k)
    cache[a] = v
    return v


UF_EVAL = {"log": math.log}


def evalb(c, env, cache=None, tol=0.0):
    if cache is None:
        cache = {}
    if c is True or c is False:
        return c
    if c.op == "bvar":
        return bool(env[c.args[0]])
    if c.op == "and":
        return all(evalb(a, env, cache) for a in c.args)
    if c.op == "or":
        return any(evalb(a, env, cache) for a in c.args)
    if c.op == "not":
        return not evalb(c.args[0], env, cache)
    v = _evp(c.args, env, cache)
    if c.op == "==":
        return abs(v) <= 1e-12
    if c.op == "<":
        return v.real < 0
    return v.real <= 0


# ------------------------------------------------------------------------------------------------
# z3
# ------------------------------------------------------------------------------------------------
def _steps(e, unit):
    q = Fraction(e) / unit
    if q.denominator != 1 or abs(q) > 200:
        raise Unsupported("exponent out of reach")
    return int(q)


class Z3Enc:
    """Encodes polys/conditions into z3 terms, collecting axioms of the atoms."""
    def __init__(self):
        self.v = {}
        self.ax = []
        self.bv = {}
        self.unit = {}
        self.exps = {}
        self.gens = None

    def combo(self, a, e):
        """exp(i pi e) as a sign and an integer combination of generators within the first quadrant."""
        def fold(x):
            x = x % 2
            sign = 1
            if x >= 1:
                x, sign = x - 1, -1
            if x > Fraction(1, 2):
                return -sign, x - 1
            return sign, x
        if self.gens is None:
            self.gens = []
            for x in sorted({abs(fold(x)[1]) for x in self.exps.get(a, ())} - {0}):
                if self.solve(x) is None:
                    self.gens.append(x)
        sign, e = fold(e)
        if e == 0:
            return sign, []
        r = self.solve(abs(e))
        if r is None:
            self.gens.append(abs(e))
            r = [(1, abs(e))]
        return sign, (r if e > 0 else [(-n, g) for n, g in r])

    def solve(self, e):
        for n in range(1, 13):
            if e / n in self.gens:
                return [(n, e / n)]
        for g in self.gens:
            for n in (1, -1, 2, -2, 3, -3, 4, -4):
                r = e - n * g
                for m in (1, 2, 3, 4):
                    for s in (1, -1):
                        if s * r / m in self.gens:
                            return [(n, g), (s * m, s * r / m)]
        return None

    def cispi(self, a, g):
        key = ("u", a, g)
        if key not in self.v:
            c, s = z3.Real(f"c{a}_{g}"), z3.Real(f"s{a}_{g}")
            self.v[key] = (c, s)
            self.ax.append(c * c + s * s == 1)
            th = math.pi * float(g)
            for var, val in ((c, math.cos(th)), (s, math.sin(th))):
                q = Fraction(val).limit_denominator(10**12)
                self.ax.append(var > self.num(q - Fraction(1, 10**9)))
                self.ax.append(var < self.num(q + Fraction(1, 10**9)))
        return self.v[key]

    def prepare(self, polys):
        """Fix the common measure of rational exponents before encoding."""
        seen = set()
        stack = list(polys)
        while stack:
            p = stack.pop()
            for m in p.t:
                for a, e in m:
                    if ATOMS[a].kind in ("cis", "cispi", "exp"):
                        f, g = Fraction(e), self.unit.get(a)
                        if ATOMS[a].kind == "cispi":
                            self.exps.setdefault(a, set()).add(abs(f))
                        # greatest common measure of all exponents of the atom
                        self.unit[a] = abs(f) if g is None else Fraction(math.gcd(f.numerator * g.denominator, g.numerator * f.denominator),
                                                                         f.denominator * g.denominator)
                    if a not in seen:
                        seen.add(a)
                        at = ATOMS[a]
                        if at.kind in ("sqrt", "inv", "floor"):
                            stack.append(at.data)
                        elif at.kind == "ind":
                            stack.extend(cond_polys(at.data))

    def num(self, q):
        q = Fraction(q)
        return z3.RealVal(f"{q.numerator}/{q.denominator}") if q.denominator != 1 else z3.RealVal(q.numerator)

    def atom(self, a, e):
        """(re, im) of atom**e."""
        at = ATOMS[a]
        k = at.kind
        if k in ("cis", "cispi"):
            unit = self.unit.get(a) or Fraction(1)
            key = ("u", a)
            if k == "cispi" and abs(Fraction(e) / unit) > 12:
                # small integer combinations of a few generators, each with its own enclosure
                sign, parts = self.combo(a, Fraction(e))
                re, im = z3.RealVal(sign), z3.RealVal(0)
                for n, g in parts:
                    c, s = self.cispi(a, g)
                    if n < 0:
                        s, n = -s, -n
                    for _ in range(n):
                        re, im = re * c - im * s, re * s + im * c
                return z3.simplify(re), z3.simplify(im)
            if key not in self.v:
                c, s = z3.Real(f"c{a}"), z3.Real(f"s{a}")
                self.v[key] = (c, s)
                self.ax.append(c * c + s * s == 1)
                if k == "cispi":
                    th = math.pi * float(unit)
                    for var, val in ((c, math.cos(th)), (s, math.sin(th))):
                        q = Fraction(val).limit_denominator(10**12)
                        self.ax.append(var > self.num(q - Fraction(1, 10**9)))
                        self.ax.append(var < self.num(q + Fraction(1, 10**9)))
            c, s = self.v[key]
            n = _steps(e, unit)
            if n < 0:
                s, n = -s, -n
            re, im = z3.RealVal(1), z3.RealVal(0)
            for _ in range(n):
                re, im = re * c - im * s, re * s + im * c
            return z3.simplify(re), z3.simplify(im)
        if k == "exp":
            unit = self.unit.get(a) or Fraction(1)
            key = ("e", a)
            if key not in self.v:
                x, xi = z3.Real(f"e{a}"), z3.Real(f"ei{a}")
                self.v[key] = (x, xi)
                self.ax.append(x > 0)
                self.ax.append(x * xi == 1)
                if at.data == ONE:
                    if unit == 1:
                        self.ax.append(x > self.num(Fraction(27182818, 10**7)))
                        self.ax.append(x < self.num(Fraction(27182819, 10**7)))
                else:
                    mre, _ = self.poly(Poly({at.data: (1, 0)}))
                    self.ax.append(z3.Implies(mre > 0, x > 1))
                    self.ax.append(z3.Implies(mre < 0, x < 1))
                    self.ax.append(z3.Implies(mre == 0, x == 1))
            x, xi = self.v[key]
            n = _steps(e, unit)
            b = x if n >= 0 else xi
            r = z3.RealVal(1)
            for _ in range(abs(n)):
                r = r * b
            return r, None
        base = self.base(a)
        if e < 0:
            key = ("i", a)
            if key not in self.v:
                xi = z3.Real(f"inv{a}")
                self.v[key] = xi
                self.ax.append(base * xi == 1)
            base = self.v[key]
            e = -e
        if not isinstance(e, int):
            raise Unsupported("fractional power")
        r = base
        for _ in range(e - 1):
            r = r * base
        return r, None

    def base(self, a):
        key = ("b", a)
        if key in self.v:
            return self.v[key]
        at = ATOMS[a]
        k = at.kind
        if k == "var":
            if at.isint:
                x = z3.ToReal(z3.Int(f"v_{at.name}"))
            else:
                x = z3.Real(f"v_{at.name}")
            self.v[key] = x
            if at.lo is not None:
                self.ax.append(x >= self.num(at.lo))
            if at.hi is not None:
                self.ax.append(x <= self.num(at.hi))
        elif k == "PI":
            x = z3.Real("pi")
            self.v[key] = x
            self.ax.append(x > self.num(Fraction(31415926535897, 10**13)))
            self.ax.append(x < self.num(Fraction(31415926535898, 10**13)))
        elif k == "sqrt":
            x = z3.Real(f"r{a}")
            self.v[key] = x
            p, _ = self.poly(at.data)
            self.ax.append(x >= 0)
            self.ax.append(x * x == p)
        elif k == "inv":
            x = z3.Real(f"q{a}")
            self.v[key] = x
            p, _ = self.poly(at.data)
            self.ax.append(x * p == 1)
        elif k == "floor":
            n = z3.Int(f"f{a}")
            x = z3.ToReal(n)
            self.v[key] = x
            p, _ = self.poly(at.data)
            self.ax.append(x <= p)
            self.ax.append(p < x + 1)
        elif k == "ind":
            c = self.cond(at.data)
            x = z3.If(c, z3.RealVal(1), z3.RealVal(0))
            self.v[key] = x
        elif k == "uf":
            x = z3.Real(f"uf{a}")
            self.v[key] = x
            if at.data[0] == "log":
                v = at.data[1][0].value()
                q = Fraction(math.log(v)).limit_denominator(10**9)
                self.ax.append(x > self.num(q - Fraction(1, 10**8)))
                self.ax.append(x < self.num(q + Fraction(1, 10**8)))
        else:
            raise Unsupported(f"z3 encoding of atom kind {k}")
        return self.v[key]

    def poly(self, p):
        """(re, im) z3 terms; im is None when p is syntactically real."""
        key = ("p", p.key())
        if key in self.v:
            return self.v[key]
        res, ims = [], []
        for m, (cr, ci) in p.t.items():
            re, im = None, None
            for a, e in m:
                r, i = self.atom(a, e)
                if re is None:
                    re, im = r, i
                else:
                    if i is None and im is None:
                        re = re * r
                    elif i is None:
                        re, im = re * r, im * r
                    elif im is None:
                        re, im = re * r, re * i
                    else:
                        re, im = re * r - im * i, re * i + im * r
            if re is None:
                re = z3.RealVal(1)
            zr, zi = [], []
            if cr != 0:
                zr.append(self.num(cr) * re if cr != 1 else re)
                if im is not None:
                    zi.append(self.num(cr) * im if cr != 1 else im)
            if ci != 0:
                zi.append(self.num(ci) * re)
                if im is not None:
                    zr.append(self.num(-ci) * im)
            res += zr
            ims += zi
        out = (z3.Sum(res) if len(res) > 1 else (res[0] if res else z3.RealVal(0)),
               (z3.Sum(ims) if len(ims) > 1 else ims[0]) if ims else None)
        self.v[key] = out
        return out

    def cond(self, c):
        if c is True:
            return z3.BoolVal(True)
        if c is False:
            return z3.BoolVal(False)
        if c.op == "bvar":
            return z3.Bool(f"b_{c.args[0]}")
        if c.op == "and":
            return z3.And(*[self.cond(a) for a in c.args])
        if c.op == "or":
            return z3.Or(*[self.cond(a) for a in c.args])
        if c.op == "not":
            return z3.Not(self.cond(c.args[0]))
        re, _ = self.poly(c.args)
        if c.op == "==":
            return re == 0
        if c.op == "<":
            return re < 0
        return re <= 0


class LinEnc(Z3Enc):
    """Linear relaxation: everything non-linear in a condition is one opaque number, so 'unsat' carries over."""
    def poly(self, p):
        lin, rest = [], []
        for m, c in p.t.items():
            if not m and c[1] == 0:
                lin.append(self.num(c[0]))
                continue
            if len(m) == 1 and m[0][1] == 1 and c[1] == 0:
                a = m[0][0]
                at = ATOMS[a]
                if at.kind in ("var", "PI"):
                    lin.append(self.num(c[0]) * self.base(a))
                    continue
                if at.kind in ("sqrt", "uf"):
                    key = ("b", a)
                    if key not in self.v:
                        self.v[key] = z3.Real(f"o{a}")
                        if at.kind == "sqrt":
                            self.ax.append(self.v[key] >= 0)
                    lin.append(self.num(c[0]) * self.v[key])
                    continue
            rest.append((m, c))
        if rest:
            key = ("rest", frozenset(rest))
            if key not in self.v:
                self.v[key] = z3.Real(f"n{len(self.v)}")
            lin.append(self.v[key])
        return (z3.Sum(lin) if lin else self.num(0)), None


def cond_polys(c):
    if c is True or c is False or c.op == "bvar":
        return []
    if c.op in ("and", "or", "not"):
        out = []
        for a in c.args:
            out += cond_polys(a)
        return out
    return [c.args]


# ------------------------------------------------------------------------------------------------
# exploration
# ------------------------------------------------------------------------------------------------
_CUR = None


def cur():
    return _CUR


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.feas = 0

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + getattr(o, k))


class Explorer:
    """Depth-first exploration by re-execution; one instance per (case, path prefix tree)."""
    def __init__(self, feas_timeout=2000, query_timeout=20000, max_paths=4000, hash_mode="const", seed=1,
                 deadline=None):
        self.feas_timeout, self.query_timeout = feas_timeout, query_timeout
        self.max_paths, self.hash_mode, self.seed = max_paths, hash_mode, seed
        self.stats = Stats()
        self.deadline = deadline
        self.assumed_side = set()
        self.paths = 0
        self.aborted = 0

    # -- path state ---------------------------------------------------------------------------
    def _begin(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pc = []
        self.known = {}
        self.vars = {}
        self.solver = None
        self.pending = []
        self.enc = None

    def run(self, fn):
        """Run fn() on every feasible path; yields the return value per path."""
        global _CUR
        stack = [[]]
        while stack:
            prefix = stack.pop()
            if self.paths >= self.max_paths:
                raise PathLimit(f"more than {self.max_paths} paths")
            if self.deadline is not None and time.time() > self.deadline:
                raise PathLimit("time budget of the case used up")
            self._begin(prefix)
            prev, _CUR = _CUR, self
            try:
                try:
                    res = fn()
                    ok = True
                except Infeasible:
                    ok = False
                    self.aborted += 1
                    res = None
                if ok:
                    self.paths += 1
                    yield res
            finally:
                _CUR = prev
            for i in range(len(self.trace) - 1, len(prefix) - 1, -1):
                d = self.trace[i]
                if d[1]:
                    alt = self.trace[:i] + [(d[0], False, not d[2], d[3])]
                    stack.append(alt)

    # -- variables ----------------------------------------------------------------------------
    def var(self, name, ty, lo=None, hi=None):
        def q(x):
            return None if x is None else (Fraction(repr(x)) if isinstance(x, float) else Fraction(x))
        lo, hi = q(lo), q(hi)
        a = _atom("var", (name, ty, lo, hi), None, isint=(ty == "i"), name=name, lo=lo, hi=hi)
        self.vars[name] = (ty, lo, hi)
        return Sym(Poly({((a.id, 1),): (1, 0)}), ty)

    def bvar(self, name):
        self.vars[name] = ("b", None, None)
        return boolvar(name)

    # -- assumptions and forks ------------------------------------------------------------------
    def add_pc(self, c):
        if c is True:
            return
        self.pc.append(c)
        self.known[_ckey(c)] = True
        self.known[_ckey(s_not(c))] = False
        if c.op == "and":
            for a in c.args:
                if isinstance(a, SymBool):
                    self.known[_ckey(a)] = True
                    self.known[_ckey(s_not(a))] = False
        self.pending.append(c)

    def assume(self, c):
        c = _tb(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        k = self.known.get(_ckey(c))
        if k is True:
            return
        if k is False:
            raise Infeasible()
        self.add_pc(c)
        if self.pos >= len(self.prefix):
            if self.check([]) == "unsat":
                raise Infeasible()

    def side(self, c, why):
        """Side condition of the encoding (e.g. a denominator is not zero): assumed and recorded."""
        self.assumed_side.add(why)
        c = _tb(c)
        if c is True:
            return
        if self.known.get(_ckey(c)) is True if c is not False else False:
            return
        if c is False:
            raise Infeasible()
        self.add_pc(c)

    def nonzero(self, a):
        self.side(s_not(cmp_("==", Poly({((a, 1),): (1, 0)}))), "denominators are non-zero")

    def nonzero_poly(self, p):
        self.side(s_not(cmp_("==", p)), "denominators are non-zero")

    def _solver(self, conds, timeout):
        polys = []
        for c in self.pc:
            polys += cond_polys(c)
        for c in conds:
            polys += cond_polys(c)
        enc = Z3Enc()
        enc.prepare(polys)
        s = z3.Solver()
        s.set("timeout", timeout)
        s.set("random_seed", self.seed)
        zs = [enc.cond(c) for c in self.pc] + [enc.cond(c) for c in conds]
        for z in enc.ax:
            s.add(z)
        for z in zs:
            s.add(z)
        return s, enc

    def _relaxed(self, conds):
        enc = LinEnc()
        s = z3.Solver()
        s.set("timeout", 1000)
        zs = [enc.cond(c) for c in self.pc] + [enc.cond(c) for c in conds]
        for z in enc.ax + zs:
            s.add(z)
        return str(s.check()) == "unsat"

    def check(self, conds, timeout=None, want_model=False, feas=True):
        t0 = time.time()
        timeout = timeout or self.feas_timeout
        s, enc = self._solver(conds, min(timeout, 300))
        r = str(s.check())
        if r == "unknown":
            if self._relaxed(conds):
                r = "unsat"
            elif timeout > 300:
                s.set("timeout", timeout)
                r = str(s.check())
        self.stats.time += time.time() - t0
        self.stats.queries += 1
        if feas:
            self.stats.feas += 1
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        if want_model:
            return r, (self._model(s.model()) if r == "sat" else None), s
        return r

    def _model(self, m):
        env = {}
        for name, (ty, lo, hi) in self.vars.items():
            if ty == "b":
                env[name] = bool(z3.is_true(m.eval(z3.Bool(f"b_{name}"), model_completion=True)))
                continue
            v = z3.Int(f"v_{name}") if ty == "i" else z3.Real(f"v_{name}")
            x = m.eval(v, model_completion=False)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                d = lo if lo is not None else 0
                if ty == "i":
                    env[name] = int(math.ceil(d)) if d > 0 or hi is None or hi >= 0 else int(hi)
                    if lo is not None and hi is not None and lo <= 0 <= hi:
                        env[name] = 0
                else:
                    env[name] = None      # free: caller picks a generic value
            elif z3.is_int_value(x):
                env[name] = x.as_long()
            elif z3.is_rational_value(x):
                env[name] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            elif z3.is_algebraic_value(x):
                a = x.approx(20)
                env[name] = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
            else:
                env[name] = None
        return env

    def fork(self, c):
        c = _tb(c)
        if c is True or c is False:
            return c
        k = self.known.get(_ckey(c))
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.trace.append(d)
            self.pos += 1
            v = d[2]
            self.add_pc(c if v else s_not(c))
            return v
        r1 = self.check([c])
        if r1 == "unsat":
            v, alt = False, False
        else:
            r2 = self.check([s_not(c)])
            v, alt = True, r2 != "unsat"
        self.trace.append(("b", alt, v, None))
        self.pos += 1
        self.add_pc(c if v else s_not(c))
        return v

    def concretize(self, x):
        if x.p.is_const():
            return x.p.const_val()[0]
        for _ in range(1000):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.trace.append(d)
                self.pos += 1
                val, eq = d[3], d[2]
                c = x == val
                if eq:
                    if c is not True:
                        if c is False:
                            raise Infeasible()
                        self.add_pc(c)
                    return val
                if c is True:
                    raise Infeasible()
                if c is not False:
                    self.add_pc(s_not(c))
                continue
            val = self._pick(x)
            if val is None:
                raise Infeasible()
            c = x == val
            if c is True:
                return val
            r2 = self.check([s_not(c)])
            self.trace.append(("c", r2 != "unsat", True, val))
            self.pos += 1
            self.add_pc(c)
            return val
        raise PathLimit("symbolic index with too many values")

    def _pick(self, x):
        iv = _interval(x.p)
        if iv is not None and iv[1] - iv[0] <= 64:
            for v in range(math.ceil(iv[0]), math.floor(iv[1]) + 1):
                c = x == v
                if c is False:
                    continue
                if c is True or self.known.get(_ckey(c)) is True:
                    return v
                if self.known.get(_ckey(c)) is False:
                    continue
                if self.check([c]) != "unsat":
                    return v
            return None
        t0 = time.time()
        s, enc = self._solver([], self.feas_timeout)
        z = enc.poly(x.p)[0]
        s2 = z3.Solver()
        s2.set("timeout", self.feas_timeout)
        for a in s.assertions():
            s2.add(a)
        for a in enc.ax:
            s2.add(a)
        t = z3.Real("pick")
        s2.add(t == z)
        r = s2.check()
        self.stats.queries += 1
        self.stats.feas += 1
        self.stats.time += time.time() - t0
        setattr(self.stats, str(r), getattr(self.stats, str(r)) + 1)
        if str(r) != "sat":
            return None
        v = s2.model().eval(t, model_completion=True)
        return int(Fraction(v.numerator_as_long(), v.denominator_as_long()))


def _ckey(c):
    return c.key()


# ------------------------------------------------------------------------------------------------
# deciding equalities
# ------------------------------------------------------------------------------------------------
def clear_denominators(p, limit=60):
    """Multiply p by the denominators of its inv atoms until none is left (they are non-zero)."""
    for _ in range(limit):
        invs = [a for a in p.atoms() if ATOMS[a].kind == "inv"]
        negs = {}
        for m in p.t:
            for a, e in m:
                if e < 0 and ATOMS[a].kind in ("var", "floor", "uf", "PI", "sqrt"):
                    negs[a] = min(negs.get(a, 0), e)
        if not invs and not negs:
            return p
        if negs:
            f = Poly({tuple(sorted((a, -e) for a, e in negs.items())): (1, 0)})
            p = p * f
            continue
        a = max(invs)
        n = max(e for m in p.t for b, e in m if b == a)
        d = ATOMS[a].data
        dp = [Poly.const(1)]
        for _ in range(n):
            dp.append(dp[-1] * d)
        out = Poly({})
        for m, c in p.t.items():
            e = dict(m).get(a, 0)
            rest = tuple((b, f) for b, f in m if b != a)
            out = out + Poly({rest: c}) * dp[n - e]
        p = out
    return p


def nonzero_cond(p):
    """Condition 'p != 0' (complex) with denominators cleared."""
    if p.is_zero():
        return False
    p = clear_denominators(p)
    if p.is_zero():
        return False
    c = cmp_("==", p.re())
    d = cmp_("==", p.im())
    return s_not(s_and(c, d))
