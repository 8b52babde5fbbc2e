"""C24: results do not depend on the number of OpenMP threads or the order of the iterations."""
import os
from engine.run import case

BOUNDS = ("every OpenMP worksharing loop of the Fortran sources: two arbitrary different iterations, loop lengths, array sizes and the contents of index arrays are free integers (no bound); "
          "queries the solver leaves open are repeated with all integers in -8..64 (fft butterfly)")
OUTSIDE = ("changes of the last digits when a reduction adds in another order; aliasing between different dummy arguments; BLAS/MKL builds; constructs other than PARALLEL DO with private, reduction and "
           "collapse clauses; writes inside procedures called from a loop are taken as touching the whole argument given")
GROUPS = dict(lindhard=["lindhard.f90"], kpm=["kpm.f90", "analysis.f90"])
TOL = 1e-7


@case(quick=[dict(group=g, _opts=dict(validate=1)) for g in ("lindhard", "kpm", "other")])
def schedule(c, group):
    label = "the same results for every order of the iterations"
    if c.symbolic:
        from engine import omp
        f2py = c.mod("tbplas.fortran.f2py")
        an = omp.Analysis(f2py.prog(), c.ex.stats)
        named = {f for v in GROUPS.values() for f in v}
        bad, n = [], 0
        for proc, st, path in an.loops():
            if (proc.file in GROUPS[group]) if group in GROUPS else (proc.file not in named):
                n += 1
                an.used.add(f"tbplas/fortran/{proc.file}:{proc.name}")
                bad += [f"{proc.file}:{proc.name}: {x}" for x in an.check(proc, st, path)]
        f2py.used |= an.used
        if bad:
            print(bad[:5])
        c.check(label, not bad)
    else:
        c.check(label, compare(c, group))


def compare(c, group):
    """One against eight threads, on the build under test and on an unoptimised build of the same Fortran sources."""
    import subprocess
    import sys
    import numpy as np
    pkg = os.path.dirname(os.path.dirname(c.tb.__file__))
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine", "threads_driver.py")
    base = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "VP_RND", "OMP_NUM_THREADS")}
    slow = unoptimised(pkg, c.scratch)

    def run(threads, rep, lib=None):
        out = os.path.join(c.scratch, f"r{threads}_{rep}_{lib is not None}.npz")
        env = dict(base, OMP_NUM_THREADS=str(threads), OMP_WAIT_POLICY="passive")
        if lib:
            env["LD_PRELOAD"] = lib
        r = subprocess.run([sys.executable, here, pkg, group, out, str(rep)], env=env, cwd=c.scratch, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=200)
        if r.returncode:
            return None
        with np.load(out) as f:
            return {k: f[k] for k in f.files}
    ref = run(1, 1)
    if ref is None:
        from engine.ctx import AssumeFail
        raise AssumeFail()
    for lib in ([slow] if slow else []) + [None]:
        got = run(8, 3 if lib else 1, lib)
        if got is None:
            return False
        for k, v in got.items():
            want = ref[k[:-1] + "0"]
            m = max(1e-12, float(np.abs(want).max()))
            if not np.all(np.isfinite(v) == np.isfinite(want)) or np.nanmax(np.abs(v - want)) > TOL * m:
                return False
    return True


def unoptimised(pkg, scratch):
    """A library with the same Fortran procedures compiled without optimisation (they take the place of the optimised ones)."""
    import subprocess
    d = os.path.join(pkg, "tbplas", "fortran")
    first = ["const.f90", "math.F90", "csr.F90", "fft.F90", "random.f90", "propagation.f90", "kpm.f90", "funcs.f90", "tbpm.f90", "analysis.f90", "lindhard.f90"]
    have = [f for f in os.listdir(d) if f.lower().endswith(".f90")]
    src = [f for f in first if f in have] + sorted(f for f in have if f not in first)
    lib = os.path.join(scratch, "libslow.so")
    r = subprocess.run(["gfortran", "-cpp", "-fopenmp", "-fPIC", "-shared", "-O0", "-fno-second-underscore", "-J", scratch, "-I", d, "-o", lib]
                       + [os.path.join(d, f) for f in src], cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return lib if r.returncode == 0 and os.path.exists(lib) else None
