"""Harness context: the same harness function runs symbolically (SymCtx) and on the real package (ConcCtx)."""
import cmath
import math
import random
from fractions import Fraction

import numpy as np


class AssumeFail(Exception):
    pass


class HarnessFail(Exception):
    pass


def flat(x):
    """nested value -> (shape description, list of scalars)."""
    if hasattr(x, "toarray"):
        x = x.toarray()
    if isinstance(x, np.ndarray):
        return tuple(x.shape), [v for v in x.view(np.ndarray).ravel(order="C")] if x.ndim else [x[()]]
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return (0,), []
        parts = [flat(y) for y in x]
        s0 = parts[0][0]
        vals = [v for p in parts for v in p[1]]
        if all(p[0] == s0 for p in parts):
            return (len(x),) + s0, vals
        return ("ragged", tuple(p[0] for p in parts)), vals
    return (), [x]


class BaseCtx:
    symbolic = False

    def _rnd(self, rr, gg):
        return (rr or (lambda s, i: self.real(f"rr{s}_{i}", 0, 2)), gg or (lambda s, i: self.real(f"rg{s}_{i}", 0, 1)))

    def cplx(self, name, bound=None):
        lo, hi = (None, None) if bound is None else (-bound, bound)
        return self.real(name + "_re", lo, hi) + self.I * self.real(name + "_im", lo, hi)

    def choose(self, name, options):
        """One of finitely many values, picked by the solver."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.conc(self.int(name, 0, len(options) - 1))]

    def boolean(self, name):
        return self.choose(name, [False, True])

    def reals(self, name, n, lo=None, hi=None):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

    def cplxs(self, name, n):
        return [self.cplx(f"{name}{i}") for i in range(n)]

    def vec3(self, name, lo=None, hi=None):
        return self.np.array(self.reals(name, 3, lo, hi))

    def mat(self, name, n, m, lo=None, hi=None):
        return self.np.array([self.reals(f"{name}_{i}_", m, lo, hi) for i in range(n)], dtype=np.dtype("f8"))

    def cmat(self, name, n, m):
        return self.np.array([self.cplxs(f"{name}_{i}_", m) for i in range(n)], dtype=np.dtype("c16"))

    def farr(self, x):
        return self.np.array(x, dtype=np.dtype("f8"))

    def carr(self, x):
        return self.np.array(x, dtype=np.dtype("c16"))

    def iarr(self, x, dt="i8"):
        return self.np.array(x, dtype=np.dtype(dt))

    def zeros(self, shape, dt="f8"):
        return self.np.zeros(shape, dtype=np.dtype(dt))

    def cis(self, x):
        return self.cos(x) + self.I * self.sin(x)

    def raises(self, label, exc, fn):
        """fn() must raise exc; returns True when it did."""
        try:
            fn()
        except exc:
            self.check(label, True)
            return True
        self.check(label, False)
        return False


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, explorer, package, opts=None):
        from . import core, npshim
        self.ex, self.package = explorer, package
        self.tb = package.get("tbplas")
        self.core = core
        self.np, self.math = npshim.numpy, npshim.math
        self.pi, self.I = core.PI, core.I
        self.obl = []
        self.seen = set()
        self.opts = opts or {}

    def mod(self, name):
        return self.package.get(name)

    def real(self, name, lo=None, hi=None):
        return self.ex.var(name, "f", lo, hi)

    def int(self, name, lo, hi):
        return self.ex.var(name, "i", lo, hi)

    def conc(self, x):
        """Case split on an integer value."""
        return x.__index__()

    def const(self, x):
        """Value of x as a float if it is a constant, else None."""
        p = self.core.lift(x).p
        return float(p.const_val()[0]) if p.is_const() else None

    def num(self, q):
        return self.core.lift(Fraction(q))

    def assume(self, c):
        self.ex.assume(c)

    def sqrt(self, x):
        return self.core.s_sqrt(x)

    def exp(self, x):
        return self.core.s_exp(x)

    def cos(self, x):
        return self.core.s_cos(x)

    def sin(self, x):
        return self.core.s_sin(x)

    def abs(self, x):
        return self.core.s_abs(x)

    def abs2(self, x):
        x = self.core.lift(x)
        return (x * x.conjugate()).real

    def conj(self, x):
        return self.core.lift(x).conjugate()

    def re(self, x):
        return self.core.lift(x).real

    def im(self, x):
        return self.core.lift(x).imag

    def ite(self, c, a, b):
        return self.core.ite(c, a, b)

    def And(self, *a):
        return self.core.s_and(*a)

    def Or(self, *a):
        return self.core.s_or(*a)

    def Not(self, a):
        return self.core.s_not(a)

    def floor(self, x):
        return self.core.s_floor(x)

    def uf(self, name, *a):
        return self.core.s_uf(name, *a)

    def eq(self, label, got, exp, tol=None):
        s1, g = flat(got)
        s2, e = flat(exp)
        if s1 != s2 and len(g) != len(e) or (s1 != s2 and s1 != () and s2 != ()):
            self.obl.append((label, "check", False, f"shape {s1} != {s2}"))
            return
        self.obl.append((label, "eq", [self._l(x) for x in g], [self._l(x) for x in e]))

    def _l(self, x):
        from .core import SymBool
        if isinstance(x, SymBool):
            return self.core.lift(x.as_int())
        r = self.core.lift(x)
        if r is NotImplemented:
            raise self.core.Unsupported(f"comparison of {type(x)}")
        return r

    def check(self, label, cond):
        self.obl.append((label, "check", self.core._tb(cond), None))

    def le(self, label, a, b):
        self.check(label, self.core.lift(a) <= b)

    def defer(self, fn):
        pass

    def hook(self, name, fn):
        from . import npshim
        npshim.HOOKS[name] = fn

    def eigen(self, systems):
        """systems: list of (H, e, V) or (H, e, V, S) with known solutions, H V = S V diag(e), e ascending.  The
        eigen-solvers called by the code return the known solution of the matrix they are given."""
        from . import npshim
        ent = []
        for s in systems:
            S = self._m(s[3]) if len(s) > 3 and s[3] is not None else None
            ent.append((self._m(s[0]), s[1], self.carr(s[2]), S))
        calls = self.eigen_calls = []

        def solve(a, b):
            if hasattr(a, "toarray"):
                a = a.toarray()
            if b is not None and hasattr(b, "toarray"):
                b = b.toarray()
            got, gb = self._m(a), (self._m(b) if b is not None else None)
            for n, (h, e, v, s) in enumerate(ent):
                if self._same(got, h) and (gb is None) == (s is None) and (gb is None or self._same(gb, s)):
                    calls.append(n)
                    return e, v
            n = min(len(calls), len(ent) - 1)
            calls.append(n)
            self.obl.append(("matrix given to the eigen-solver", "check", False, "matrix given to the eigen-solver is not H(k)"))
            return ent[n][1], ent[n][2]
        H = npshim.HOOKS

        def lap(a, *r, **k):
            e, v = solve(a, None)
            return self.farr(e), v.copy(), 0

        def lapg(a, b, *r, **k):
            e, v = solve(a, b)
            return self.farr(e), v.copy(), 0

        def eigh(a, b=None, *r, **k):
            e, v = solve(a, b)
            return self.farr(e), v.copy()

        def eigsh(a, k=None, **kw):
            e, v = solve(a, None)
            n = len(e) if k is None else k
            idx = list(range(len(e)))[-n:]
            return self.farr([e[i] for i in idx]), v[:, idx].copy()
        for nm in ("zheev", "zheevd", "zheevr"):
            H["scipy.linalg.lapack." + nm] = lap
        for nm in ("zhegv", "zhegvd"):
            H["scipy.linalg.lapack." + nm] = lapg
        H["eigh"] = H["scipy.linalg.eigh"] = eigh
        H["eigvalsh"] = H["scipy.linalg.eigvalsh"] = lambda *a, **k: eigh(*a, **k)[0]
        H["scipy.sparse.linalg.eigsh"] = eigsh

        def general(a, *r, **k):
            """Eigenvalues of a triangular matrix."""
            n = a.shape[0]
            z = [self.core.lift(v) for v in flat(a)[1]]
            off = [[z[i * n + j].p.is_zero() for j in range(n)] for i in range(n)]
            if not (all(off[i][j] for i in range(n) for j in range(i)) or all(off[i][j] for i in range(n) for j in range(i + 1, n))):
                raise self.core.Unsupported("eigenvalues of a general matrix")
            return self.carr([z[i * n + i] for i in range(n)])
        H["scipy.linalg.lapack.zgeev"] = lambda a, *r, **k: (general(a), None, None, 0)
        H["eigvals"] = H["scipy.linalg.eigvals"] = general
        H["eig"] = H["scipy.linalg.eig"] = lambda a, *r, **k: (general(a), None)

    def _m(self, x):
        return [self.core.lift(v) for v in flat(x)[1]]

    def _same(self, a, b):
        if len(a) != len(b):
            return False
        d = [x.p - y.p for x, y in zip(a, b)]
        d = [x for x in d if not x.is_zero()]
        if not d:
            return True
        n = self.core.s_or(*[self.core.nonzero_cond(x) for x in d])
        if n is False:
            return True
        if n is True:
            return False
        return self.ex.check([n], timeout=self.ex.query_timeout) == "unsat"

    def random(self, ns, nw, rr=None, gg=None):
        """Random numbers of the Fortran part become variables: draw 2i is 1 - exp(-r_i**2), draw 2i+1 is g_i.
        Returns [(r, g), ...] per stream; streams are numbered by the order of first use of a seed.
        rr(s, i), gg(s, i) give fixed values instead of variables."""
        rr, gg = self._rnd(rr, gg)
        from . import ftn
        R = ftn.RANDOM

        def fn(s, k):
            if s >= ns or k >= 2 * nw:
                raise self.core.Unsupported("more random numbers than modelled")
            if k % 2 == 0:
                r = rr(s, k // 2)
                return 1 - self.core.s_exp(-(r * r))
            return gg(s, k // 2)
        R.fn = fn
        return [[(rr(s, i), gg(s, i)) for i in range(nw)] for s in range(ns)]

    def bessel(self, values):
        """Bessel functions of order 0, 1, ... take the given values, higher ones are zero."""
        from . import npshim
        npshim.HOOKS["scipy.special.jv"] = lambda n, x: self.core.lift(values[int(n)] if int(n) < len(values) else 0.0)

    def random_log(self):
        from . import ftn
        return list(ftn.RANDOM.log)

    def vfs(self, path, text, tokens=None):
        from . import loader
        loader.VFS[path] = text
        loader.STRNUM.update(tokens or {})

    def read(self, path):
        """Lines of a text file written by the code, as lists of words; numbers by number()."""
        from . import loader
        t = loader.VFS[path]
        return [x.split() for x in t.splitlines()]

    def printed(self, fn):
        """Text printed by fn(); symbolic numbers as tokens ~n~ for number()."""
        import contextlib
        import io
        b = io.StringIO()
        self.core.STR_TOKENS[0] = True
        try:
            with contextlib.redirect_stdout(b):
                fn()
        finally:
            self.core.STR_TOKENS[0] = False
        return b.getvalue()

    def number(self, word):
        from . import loader
        t = loader.STRNUM.get(word)
        return t if t is not None else self.core.lift(Fraction(word))


class ConcCtx(BaseCtx):
    def __init__(self, env, seed=1, scratch=None):
        import tbplas
        self.env = dict(env)
        self.rng = random.Random(seed)
        self.tb = tbplas
        self.np, self.math = np, math
        self.pi, self.I = math.pi, 1j
        self.fails = []
        self.obs = []
        self.count = 0
        self.scratch = scratch
        self.undo = []

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def real(self, name, lo=None, hi=None):
        v = self.env.get(name)
        if v is None:
            a = -1.0 if lo is None else float(lo)
            b = 1.0 if hi is None else float(hi)
            if lo is not None and hi is None:
                b = a + 2.0
            if hi is not None and lo is None:
                a = b - 2.0
            v = self.rng.uniform(a + 0.03 * (b - a), b - 0.03 * (b - a))
            self.env[name] = v
        return float(v)

    def int(self, name, lo, hi):
        v = self.env.get(name)
        if v is None:
            v = self.rng.randint(lo, hi)
            self.env[name] = v
        return int(v)

    def conc(self, x):
        return int(x)

    def const(self, x):
        return float(x)

    def num(self, q):
        return float(Fraction(q))

    def assume(self, c):
        if not c:
            raise AssumeFail()

    def sqrt(self, x):
        return math.sqrt(x)

    def exp(self, x):
        return cmath.exp(x) if isinstance(x, complex) else math.exp(min(x, 700.0))

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def abs(self, x):
        return abs(x)

    def abs2(self, x):
        return abs(x) ** 2

    def conj(self, x):
        return complex(x).conjugate() if isinstance(x, complex) or np.iscomplexobj(x) else x

    def re(self, x):
        return complex(x).real

    def im(self, x):
        return complex(x).imag

    def ite(self, c, a, b):
        return a if c else b

    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not a

    def floor(self, x):
        return math.floor(x)

    def eq(self, label, got, exp, tol=None):
        self.count += 1
        s1, g = flat(got)
        s2, e = flat(exp)
        if s1 != s2 and len(g) != len(e) or (s1 != s2 and s1 != () and s2 != ()):
            self.fails.append((label, f"shape {s1} != {s2}"))
            self.obs.append((label, None))
            return
        self.obs.append((label, [_num(x) for x in g] if tol is None or tol < 1e-6 else None))
        try:
            ga, ea = np.array([complex(x) for x in g]), np.array([complex(x) for x in e])
        except TypeError as ex:
            self.fails.append((label, f"not numeric: {ex}"))
            return
        if len(ga) == 0:
            return
        if not np.all(np.isfinite(ga)):
            self.fails.append((label, f"not finite: got {ga[:4]}"))
            return
        scale = max(1e-300, np.max(np.abs(ea)), np.max(np.abs(ga)))
        t = (tol if tol is not None else 1e-7)
        d = np.abs(ga - ea)
        bad = d > t * np.maximum(np.abs(ea), min(1.0, scale)) + 1e-9 * min(1.0, scale) + 1e-13
        if np.any(bad):
            i = int(np.argmax(d * bad))
            self.fails.append((label, f"element {i}: got {ga[i]} expected {ea[i]}"))

    def check(self, label, cond):
        self.count += 1
        self.obs.append((label, None))
        if not bool(cond):
            self.fails.append((label, "condition is false"))

    def le(self, label, a, b):
        self.count += 1
        self.obs.append((label, None))
        if not a <= b + 1e-9 * (1 + abs(b)):
            self.fails.append((label, f"{a} > {b}"))

    def defer(self, fn):
        self.undo.append(fn)

    def hook(self, name, fn):
        pass

    def eigen(self, systems):
        pass

    def _rndlib(self):
        import ctypes
        import os
        L = ctypes.CDLL(os.environ["VP_RND"])
        L.vp_rnd_set.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_double]
        return L

    def random(self, ns, nw, rr=None, gg=None):
        rr, gg = self._rnd(rr, gg)
        L = self._rndlib()
        L.vp_rnd_reset(1)
        self.undo.append(lambda: L.vp_rnd_reset(0))
        out = []
        for s in range(ns):
            row = []
            for i in range(nw):
                r, g = rr(s, i), gg(s, i)
                L.vp_rnd_set(s, 2 * i, -math.expm1(-r * r))
                L.vp_rnd_set(s, 2 * i + 1, g)
                row.append((r, g))
            out.append(row)
        return out

    def bessel(self, values):
        import scipy.special as sp
        old = sp.jv
        sp.jv = lambda n, x: np.float64(values[int(n)] if int(n) < len(values) else 0.0)
        self.undo.append(lambda: setattr(sp, "jv", old))

    def random_log(self):
        import ctypes
        b = (ctypes.c_int * 1024)()
        n = self._rndlib().vp_rnd_log(b, 1024)
        return list(b)[:n]

    def vfs(self, path, text, tokens=None):
        import os
        for k, v in (tokens or {}).items():
            text = text.replace(k, repr(float(v)) if not isinstance(v, int) else str(v))
        with open(os.path.join(self.scratch or ".", path), "w") as f:
            f.write(text)

    def read(self, path):
        import os
        with open(os.path.join(self.scratch or ".", path)) as f:
            return [x.split() for x in f.read().splitlines()]

    def printed(self, fn):
        import contextlib
        import io
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            fn()
        return b.getvalue()

    def number(self, word):
        return float(word)


def _num(x):
    try:
        z = complex(x)
    except TypeError:
        return None
    return (z.real, z.imag)
