"""Scratch build of the real package from /repo's working tree."""
import glob
import os
import re
import shutil
import subprocess
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")


def start(checked=False):
    """checked: with subscript checks compiled into the Fortran and Cython extensions"""
    d = tempfile.mkdtemp(prefix="tbplas_check_")
    os.makedirs(os.path.join(d, "src", "tbplas"))
    ign = shutil.ignore_patterns("*.so", "__pycache__", "*.pyc")
    for s in ("fortran", "cython"):
        shutil.copytree(os.path.join(REPO, "tbplas", s), os.path.join(d, "src", "tbplas", s), ignore=ign)
    shutil.copy(os.path.join(REPO, "CMakeLists.txt"), os.path.join(d, "src"))
    shutil.copy(os.path.join(REPO, "tbplas", "__init__.py"), os.path.join(d, "src", "tbplas"))
    shutil.copytree(os.path.join(REPO, "tbplas"), os.path.join(d, "pkg", "tbplas"), ignore=ign)
    if checked:
        for f in glob.glob(os.path.join(d, "src", "tbplas", "cython", "*.pyx")):
            with open(f) as h:
                t = h.read()
            with open(f, "w") as h:
                h.write(re.sub(r"(boundscheck\s*[=(]\s*)False", r"\1True", t))
    py = "/opt/venv/bin/python"
    env = dict(os.environ, PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
    env.pop("PYTHONPATH", None)
    script = f"""set -e
cmake -S {d}/src -B {d}/b -G Ninja --log-level=NOTICE -DSKBUILD_PROJECT_NAME=tbplas -DCMAKE_BUILD_TYPE=Release \
 -DPython_EXECUTABLE={py} -DPYTHON_EXECUTABLE={py} -DCYTHON=/opt/venv/bin/cython -DUSE_INDEX64=OFF -DUSE_MKL=OFF \
 -DCMAKE_C_COMPILER=gcc -DCMAKE_Fortran_COMPILER=gfortran -DCMAKE_C_FLAGS="" \
 -DCMAKE_Fortran_FLAGS="-cpp -fopenmp -fno-second-underscore{" -fcheck=bounds" if checked else ""}"
cmake --build {d}/b
cmake --install {d}/b --prefix {d}/inst
cp -r {d}/inst/tbplas/fortran/*.so {d}/pkg/tbplas/fortran/
cp -r {d}/inst/tbplas/cython/*.so {d}/pkg/tbplas/cython/
rm -rf {d}/b {d}/inst {d}/src
"""
    log = open(os.path.join(d, "build.log"), "w")
    p = subprocess.Popen(["bash", "-c", script], stdout=log, stderr=subprocess.STDOUT, env=env, cwd=d)
    return d, p


def finish(d, p, timeout=600):
    rc = p.wait(timeout=timeout)
    if rc != 0:
        with open(os.path.join(d, "build.log")) as f:
            tail = f.read()[-3000:]
        raise RuntimeError("scratch build failed:\n" + tail)
    return os.path.join(d, "pkg")


def remove(d):
    shutil.rmtree(d, ignore_errors=True)
