"""Loads the sources of /repo/tbplas for symbolic execution.

Modules are executed from their current source text with a private ``__import__``: numpy, math, scipy, mpi4py,
matplotlib are the stand-ins of npshim / stubs below, ``tbplas.cython.*`` comes from cyfront and
``tbplas.fortran.f2py`` from ftn.
"""
import builtins
import os
import sys
import types

import numpy as _np

from . import core, npshim, cyfront
from .core import Sym, SymBool, lift, Unsupported, s_trunc

REPO = os.environ.get("VERIF_REPO", "/repo")


# ---- builtins ----------------------------------------------------------------------------------
def _mk_num(name, real, test, make):
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real) and not (real is not bool and False) or test(x)

        def __subclasscheck__(cls, c):
            return issubclass(c, real)

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)

        def __getattr__(cls, k):
            return getattr(real, k)

    class T(metaclass=Meta):
        __symname__ = name

        def __new__(cls, *a, **k):
            return make(*a, **k)
    T.__name__ = T.__qualname__ = name
    return T


def _float(x=0.0):
    if isinstance(x, _np.ndarray):
        x = x.item()
    if isinstance(x, (Sym, SymBool)):
        if isinstance(x, Sym) and x.ty == "c":
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        return Sym(lift(x).p, "f")
    if isinstance(x, str):
        t = STRNUM.get(x.strip())
        if t is not None:
            return t
    return float(x)


def _int(x=0, *a):
    if isinstance(x, _np.ndarray):
        x = x.item()
    if isinstance(x, (Sym, SymBool)):
        r = s_trunc(lift(x))
        return r.value() if isinstance(r, Sym) and r.is_const() else r
    if isinstance(x, str):
        t = STRNUM.get(x.strip())
        if t is not None:
            return t
    return int(x, *a)


def _complex(a=0, b=0):
    if isinstance(a, _np.ndarray):
        a = a.item()
    if isinstance(a, (Sym, SymBool)) or isinstance(b, (Sym, SymBool)):
        return Sym((lift(a) + lift(b) * core.I).p, "c")
    if b == 0 and not isinstance(a, str):
        return complex(a)
    return complex(a, b)


STRNUM = {}       # text tokens that stand for symbolic numbers (file parsing)
core.FORMAT_TOKENS = STRNUM


class SymHash:
    """hash() of a structure with symbolic leaves: equal iff the structures are equal, except for CPython's
    hash(-1) == hash(-2)."""
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        if not isinstance(o, SymHash):
            return False
        return _heq(self.x, o.x)

    def __ne__(self, o):
        r = self == o
        return core.s_not(r)

    def __hash__(self):
        return 7


def _heq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return False
        return core.s_and(*[_heq(x, y) for x, y in zip(a, b)])
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b

    def m(x, v):
        return x == v
    return core.s_or(a == b, core.s_and(core.s_or(m(a, -1), m(a, -2)), core.s_or(m(b, -1), m(b, -2))))


def _has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, (tuple, frozenset)):
        return any(_has_sym(y) for y in x)
    return False


def _hash(x):
    if isinstance(x, (tuple, Sym, int, float)) and not isinstance(x, str):
        return SymHash(x)
    if isinstance(x, str):
        return hash(x)
    return type(x).__hash__(x)


def _noprint(*a, **k):
    if core.STR_TOKENS[0]:
        print(*a, **k)


VFS = npshim.VFS      # path -> text, saved array or pickled object; directories map to None


class _VFile(__import__("io").StringIO):
    def __init__(self, path, text, write):
        super().__init__(text)
        self.path, self.write_back = path, write
        if write:
            self.seek(0, 2)

    def close(self):
        if self.write_back and not self.closed:
            VFS[self.path] = self.getvalue()
        super().close()


class _VBin:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _open(path, mode="r", *a, **k):
    path = str(path)
    if "b" in mode:
        if "r" in mode and path not in VFS:
            raise FileNotFoundError(path)
        return _VBin(path)
    if "r" in mode:
        if not isinstance(VFS.get(path), str):
            raise FileNotFoundError(path)
        return _VFile(path, VFS[path], "+" in mode)
    return _VFile(path, VFS.get(path, "") if "a" in mode else "", True)


class _Pickle(types.ModuleType):
    HIGHEST_PROTOCOL = 5

    @staticmethod
    def dump(obj, f, *a, **k):
        import copy
        VFS[f.path] = copy.deepcopy(obj)

    @staticmethod
    def load(f, *a, **k):
        import copy
        return copy.deepcopy(VFS[f.path])


class _OS(types.ModuleType):
    """os with files and directories kept in VFS."""
    def __getattr__(self, k):
        return getattr(os, k)

    class _Path(types.ModuleType):
        def __getattr__(self, k):
            return getattr(os.path, k)

        @staticmethod
        def exists(p):
            return str(p).rstrip("/") in VFS
        isdir = isfile = exists
    path = _Path("os.path")

    @staticmethod
    def mkdir(p, *a, **k):
        if str(p).rstrip("/") in VFS:
            raise FileExistsError(p)
        VFS[str(p).rstrip("/")] = None

    @staticmethod
    def makedirs(p, *a, exist_ok=False, **k):
        if not exist_ok and str(p).rstrip("/") in VFS:
            raise FileExistsError(p)
        VFS[str(p).rstrip("/")] = None


# ---- stubs -------------------------------------------------------------------------------------
class Stub:
    def __init__(self, name):
        self._name = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Stub(f"{self._name}.{k}")

    def __call__(self, *a, **k):
        return Stub(self._name + "()")

    def __iter__(self):
        return iter(())

    def __mro_entries__(self, bases):
        return (object,)


class StubModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Stub(f"{self.__name__}.{k}")


class FakeComm:
    """Single-process communicator; harnesses install a multi-rank one."""
    def Get_rank(self):
        return 0

    def Get_size(self):
        return 1

    def Reduce(self, a, b, op=None, root=0):
        b[...] = a
    Allreduce = Reduce

    def Allreduce(self, a, b, op=None):
        b[...] = a

    def Bcast(self, a, root=0):
        pass

    def Barrier(self):
        pass


class MPIModule(types.ModuleType):
    SUM = "SUM"
    COMM_WORLD = FakeComm()


def _mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


class UnsupModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return npshim._hook(f"{self.__name__}.{k}")


def _unsup(name, **kw):
    m = UnsupModule(name)
    m.__dict__.update(kw)
    return m


def _jv(n, x):
    h = npshim.HOOKS.get("scipy.special.jv")
    if h is not None:
        return h(int(n), x)
    x = lift(x)
    v = core.numeric_const(x.p)
    if v is not None:
        import scipy.special
        from fractions import Fraction
        return Sym(lift(Fraction(float(scipy.special.jv(int(n), v)))).p, "f")
    return core.s_uf("jv%d" % int(n), x)


def _register_jv():
    import math

    def J(n, x):
        # series; only used for numeric evaluation of models with small arguments
        s, t = 0.0, (x / 2) ** n / math.factorial(n)
        for k in range(60):
            s += t
            t *= -(x / 2) ** 2 / ((k + 1) * (k + 1 + n))
        return s
    for n in range(400):
        core.UF_EVAL["jv%d" % n] = (lambda n: lambda x: J(n, x))(n)


_register_jv()


def _diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if isinstance(offsets, int):
        offsets, diagonals = [offsets], [diagonals]
    diagonals = [list(npshim.asobj(npshim.array(d)).ravel()) for d in diagonals]
    if shape is None:
        n = len(diagonals[0]) + abs(int(offsets[0]))
        shape = (n, n)
    r, c, v = [], [], []
    for d, o in zip(diagonals, offsets):
        o = int(o)
        n = min(shape[0] + min(o, 0), shape[1] - max(o, 0))
        d = d * n if len(d) == 1 else d
        for i in range(n):
            r.append(i - min(o, 0))
            c.append(i + max(o, 0))
            v.append(d[i])
    return npshim.csr_matrix((npshim.array(v), (r, c)), shape=shape)


def make_shims():
    sp = npshim
    sparse_linalg = _unsup("scipy.sparse.linalg")
    sparse = _unsup("scipy.sparse", csr_matrix=sp.csr_matrix, coo_matrix=sp.coo_matrix, dok_matrix=sp.dok_matrix,
                    dia_matrix=sp.dia_matrix, csc_matrix=sp.csr_matrix, lil_matrix=sp.dok_matrix, linalg=sparse_linalg,
                    csr_array=sp.csr_matrix, coo_array=sp.coo_matrix, spmatrix=sp.SpMat, issparse=lambda x: isinstance(x, sp.SpMat),
                    diags=_diags, identity=lambda n, **k: sp.csr_matrix(sp.eye(n)),
                    eye=lambda n, **k: sp.csr_matrix(sp.eye(n)))
    lapack = _unsup("scipy.linalg.lapack")
    linalg = _unsup("scipy.linalg", lapack=lapack, det=sp.det, inv=sp.inv, norm=sp.norm, solve=sp.solve)
    special = _unsup("scipy.special", jv=lambda n, x: JVRes(_jv(n, x)), expit=lambda x: 1 / (1 + npshim.numpy.exp(-x)))
    integrate = _unsup("scipy.integrate", trapz=sp.trapz, trapezoid=sp.trapz, cumtrapz=sp.cumtrapz,
                       cumulative_trapezoid=sp.cumtrapz)
    signal = _unsup("scipy.signal", hilbert=hilbert)
    scipy = _mod("scipy", sparse=sparse, linalg=linalg, special=special, integrate=integrate, signal=signal,
                 spatial=_unsup("scipy.spatial", KDTree=sp.KDTree, cKDTree=sp.KDTree,
                                distance=_unsup("scipy.spatial.distance", cdist=sp.cdist)), optimize=_unsup("scipy.optimize"),
                 interpolate=_unsup("scipy.interpolate"))
    mpi = MPIModule("mpi4py.MPI")
    mpi4py = _mod("mpi4py", MPI=mpi)
    mpl = StubModule("matplotlib")
    return {"numpy": npshim.numpy, "math": npshim.math, "cmath": npshim.cmath, "scipy": scipy, "mpi4py": mpi4py, "os": _OS("os"), "pickle": _Pickle("pickle"),
            "matplotlib": mpl, "ase": StubModule("ase")}


def JVRes(x):
    return x


def hilbert(x, N=None, axis=-1):
    """scipy.signal.hilbert: analytic signal by FFT."""
    n = len(x)
    X = npshim.numpy.fft.fft(x)
    h = [0] * n
    if n % 2 == 0:
        h[0] = h[n // 2] = 1
        for i in range(1, n // 2):
            h[i] = 2
    else:
        h[0] = 1
        for i in range(1, (n + 1) // 2):
            h[i] = 2
    return npshim.numpy.fft.ifft(X * npshim.array(h))


# ---- C conversions of Cython --------------------------------------------------------------------
def cy_cd(x):
    if isinstance(x, _np.ndarray):
        x = x.item()
    if isinstance(x, SymBool):
        x = x.as_int()
    if isinstance(x, Sym):
        if x.ty == "f":
            return x
        if x.ty == "c":
            if x.p.is_real():
                return Sym(x.p, "f")
            raise TypeError("must be real number, not complex")
        return Sym(x.p, "f")
    if isinstance(x, complex):
        raise TypeError("must be real number, not complex")
    return float(x)


def cy_cc(x):
    if isinstance(x, SymBool):
        x = x.as_int()
    if isinstance(x, Sym):
        return x if x.ty == "c" else Sym(x.p, "c")
    return lift(complex(x))


def cy_ci(x):
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, Sym):
        if x.ty != "i":
            if core._int_poly(x.p):
                return Sym(x.p, "i")
            raise TypeError("expected int, got float")
        return x
    if isinstance(x, _np.ndarray):
        x = x.item()
        return cy_ci(x)
    if isinstance(x, (float, complex)):
        raise TypeError("expected int, got float")
    return int(x)


def cy_cb(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    return bool(x)


def cy_trunc(x):
    return _int(x)


_DT = {"f8": _np.dtype("f8"), "c16": _np.dtype("c16"), "i4": _np.dtype("i4"), "i8": _np.dtype("i8")}


def cy_mv(x, elem, ndim, contig):
    if x is None:
        return x
    if not isinstance(x, _np.ndarray):
        raise TypeError("a bytes-like object is required")
    if not isinstance(x, npshim.SymArray):
        x = npshim.wrap(x)
    if elem is not None and x.sdt != _DT[elem]:
        raise ValueError(f"Buffer dtype mismatch, expected {elem} but got {x.sdt}")
    if x.ndim != ndim:
        raise ValueError(f"Buffer has wrong number of dimensions (expected {ndim}, got {x.ndim})")
    if contig == "C" and not x.flags.c_contiguous:
        raise ValueError("ndarray is not C-contiguous")
    if contig == "F" and not x.flags.f_contiguous:
        raise ValueError("ndarray is not Fortran contiguous")
    return x


class _CyDir:
    def __getattr__(self, k):
        return lambda *a, **kw: (lambda f: f)


_libc_math = npshim.Shim("libc.math", __import__("math"), dict(npshim.math.__dict__))
_libc_math.__dict__["M_PI"] = core.PI
_libc_math.__dict__["fabs"] = npshim.math.fabs
for _n in ("floor", "ceil"):
    _libc_math.__dict__[_n] = (lambda f: lambda x: Sym(lift(f(x)).p, "f"))(getattr(npshim.math, _n))
_libc_math.__dict__["round"] = lambda x: Sym(core.s_round(lift(x)).p, "f")


def _cyfun(name):
    f = getattr(npshim.math, name)

    def g(x):
        return cy_cd(f(x))
    return g


# ---- package loader ------------------------------------------------------------------------------
class Package:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.shims = make_shims()
        self.ftn = None
        b = dict(builtins.__dict__)
        b.update(
            __import__=self._import, print=_noprint, open=_open, hash=_hash,
            float=_mk_num("float", float, lambda x: isinstance(x, Sym) and x.ty == "f", _float),
            int=_mk_num("int", int, lambda x: isinstance(x, Sym) and x.ty == "i", _int),
            complex=_mk_num("complex", complex, lambda x: isinstance(x, Sym) and x.ty == "c", _complex))
        self.builtins = b

    # import protocol
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = globals["__package__"]
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:-(level - 1)]
            name = ".".join(parts + ([name] if name else []))
        root = name.split(".")[0]
        if root == "tbplas":
            m = self.get(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            setattr(m, f, self.get(name + "." + f))
                        except ImportError:
                            pass
                return m
            return self.get("tbplas")
        if root in self.shims:
            m = self.shims[root]
            if fromlist:
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
                return m
            return m
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def get(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = os.path.join(self.repo, *name.split("."))
        parent = name.rpartition(".")[0]
        if name == "tbplas.fortran.f2py":
            from . import ftn
            m = ftn.F2PyModule(os.path.join(self.repo, "tbplas", "fortran"))
            self.mods[name] = m
            setattr(self.get(parent), "f2py", m)
            return m
        if os.path.isfile(path + ".pyx"):
            m = types.ModuleType(name)
            m.__file__ = path + ".pyx"
            m.__package__ = parent
            src = cyfront.translate(path + ".pyx")
            m.__dict__.update(__builtins__=self.builtins, __libc_math=_libc_math, __np=npshim.numpy, __cython=_CyDir(), __mv=cy_mv,
                              __cd=cy_cd, __cc=cy_cc, __ci=cy_ci, __cb=cy_cb, __trunc=cy_trunc)
            self.mods[name] = m
            exec(compile(src, path + ".pyx", "exec"), m.__dict__)
        elif os.path.isdir(path):
            m = types.ModuleType(name)
            m.__package__ = name
            m.__path__ = [path]
            m.__file__ = os.path.join(path, "__init__.py")
            self.mods[name] = m
            self._exec(m, m.__file__)
        elif os.path.isfile(path + ".py"):
            m = types.ModuleType(name)
            m.__package__ = parent
            m.__file__ = path + ".py"
            self.mods[name] = m
            self._exec(m, m.__file__)
        else:
            raise ImportError(f"No module named {name}")
        if parent:
            setattr(self.get(parent), name.rpartition(".")[2], m)
        return m

    def _exec(self, m, path):
        m.__dict__["__builtins__"] = self.builtins
        if os.path.exists(path):
            with open(path, encoding="utf-8") as f:
                src = f.read()
            exec(compile(src, path, "exec"), m.__dict__)
