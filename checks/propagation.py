"""C18: wave-packet propagation, Fermi operator and Haydock recursion are the Chebyshev and continued-fraction formulas."""
from engine.run import case

BOUNDS = ("systems of two and three orbitals with symbolic sparse Hamiltonian, symbolic Chebyshev coefficients (up to six) and wave function, up to three time steps; recursion depth up to three; "
          "real Bessel functions with up to eight terms")
OUTSIDE = "larger systems and longer expansions; convergence of the expansions with the number of terms; rounding; recursion past an exhausted Krylov space"


def sym_h(c, n, pat, herm=True):
    """Sparse matrix: pattern of (i, j) entries i <= j; returns dense list and CSR arrays."""
    H = [[0 * c.I] * n for _ in range(n)]
    for i, j in pat:
        if i == j:
            H[i][i] = c.real(f"h{i}{i}", -1, 1) + 0 * c.I
        else:
            H[i][j] = c.cplx(f"h{i}{j}", 1)
            H[j][i] = c.conj(H[i][j]) if herm else c.cplx(f"h{j}{i}", 1)
    return H


def csr(c, H, full=None):
    n = len(H)
    ptr, ind, val = [0], [], []
    for i in range(n):
        for j in range(n):
            if full is None or (i, j) in full:
                ind.append(j)
                val.append(H[i][j])
        ptr.append(len(ind))
    return c.iarr(ptr, "i4"), c.iarr(ind, "i4"), c.carr(val)


def mv(H, v):
    n = len(v)
    r = []
    for i in range(n):
        s = H[i][0] * v[0]
        for j in range(1, n):
            s = s + H[i][j] * v[j]
        r.append(s)
    return r


def comb(*terms):
    """sum of a * v"""
    n = len(terms[0][1])
    out = []
    for i in range(n):
        s = terms[0][0] * terms[0][1][i]
        for a, v in terms[1:]:
            s = s + a * v[i]
        out.append(s)
    return out


def dot(c, u, v):
    s = c.conj(u[0]) * v[0]
    for x, y in zip(u[1:], v[1:]):
        s = s + c.conj(x) * y
    return s


def cheb(c, H, v, num):
    """T_0 v ... T_(num-1) v"""
    out = [list(v), mv(H, v)]
    while len(out) < num:
        out.append(comb((2, mv(H, out[-1])), (-1, out[-2])))
    return out[:num]


def evolve(c, H, bes, v, fwd=True):
    """[J_0 + 2 sum (-i)^n J_n T_n(H)] v"""
    T = cheb(c, H, v, len(bes))
    z = (-c.I) if fwd else c.I
    f = 1 + 0 * c.I
    terms = []
    for n, b in enumerate(bes):
        terms.append((f * b * (2 if n else 1), T[n]))
        f = f * z
    return comb(*terms)


def f2py(c):
    return c.mod("tbplas.fortran").f2py


PAT2 = [(0, 0), (0, 1), (1, 1)]


@case(quick=[dict(n=2, nb=4, nt=2, log=[0, 1, 2]), dict(n=2, nb=6, nt=1, log=[1]), dict(n=2, nb=3, nt=3, log=[1, 3]), dict(n=3, nb=4, nt=1, log=[0, 1])],
      thorough=[dict(n=2, nb=9, nt=1, log=[0, 1]), dict(n=2, nb=5, nt=3, log=[0, 2, 3]), dict(n=3, nb=5, nt=2, log=[1, 2])])
def kernel(c, n, nb, nt, log):
    """Fortran propagator with arbitrary expansion coefficients and Hamiltonian."""
    pat = PAT2 if n == 2 else [(0, 0), (0, 1), (1, 2), (2, 2)]
    H = sym_h(c, n, pat, herm=False)
    full = {(i, j) for i, j in pat} | {(j, i) for i, j in pat}
    ptr, ind, val = csr(c, H, full)
    bes = c.reals("b", nb, -1, 1)
    psi = c.cplxs("w", n)
    got = f2py(c).tbpm_psi_t(c.farr(bes), ptr, ind, val, c.carr(psi), c.iarr(log, "i4"), nt, 99, 1e-9)
    exp, v = [], psi
    for t in range(nt + 1):
        if t in log:
            exp.append(v)
        if t < nt:
            v = evolve(c, H, bes, v)
    c.eq("wave function", got, [[exp[k][i] for k in range(len(log))] for i in range(n)])


def bessel(c, prec, x):
    """Bessel functions up to the point where two in a row are below the precision."""
    from scipy.special import jv
    out, i = [], 0
    while True:
        v = float(jv(i, x))
        if abs(v) <= prec and abs(float(jv(i + 1, x))) <= prec:
            return out
        out.append(v)
        i += 1


def chain(c, n, lite=False):
    """Sample of n orbitals in a row; lite: given on-site energies, positive hopping terms."""
    pc = c.tb.PrimitiveCell(c.farr([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), unit=1.0)

    def on(i):
        return c.num(2 * i + 1) / 8 if lite else c.real(f"e{i}", -1, 1)
    for i in range(n):
        pc.add_orbital((c.num(i) / 8, c.num(i % 2) / 4, 0), on(i))
    H = [[0 * c.I] * n for _ in range(n)]
    for i in range(n):
        H[i][i] = on(i) + 0 * c.I
    for i in range(n - 1):
        t = c.real(f"t{i}", 0.3, 1) + 0 * c.I if lite else c.cplx(f"t{i}", 1)
        pc.add_hopping((0, 0, 0), i, i + 1, t)
        H[i][i + 1], H[i + 1][i] = t, c.conj(t)
    smp = c.tb.Sample(c.tb.SuperCell(pc, dim=(1, 1, 1), pbc=(False, False, False)))
    return smp, H


def quiet(c, smp, cfg, **kw):
    return c.tb.Solver(smp, cfg, echo_details=False, directory="sim", prefix="p", **kw)


@case(quick=[dict(dt=1.0, prec=0.03), dict(dt=0.5, prec=0.01), dict(dt=0.25, prec=0.003), dict(dt=1.5, prec=0.15), dict(dt=-0.5, prec=0.02)], thorough=[dict(dt=1.0, prec=1e-3)])
def psi_t(c, dt, prec):
    """Solver.calc_psi_t: states at the requested times, in ascending order, from the normalised initial state."""
    import math
    smp, H = chain(c, 2)
    f = c.real("f", 1.5, 3)
    smp.rescale_ham(f)
    H = [[x / f for x in row] for row in H]
    cfg = c.tb.Config()
    cfg.generic.update(Bessel_precision=prec, nr_time_steps=2)
    s = quiet(c, smp, cfg)
    psi = c.cplxs("w", 2)
    nrm = c.sqrt(c.abs2(psi[0]) + c.abs2(psi[1]))
    c.assume(nrm > 0.2)
    got = s.calc_psi_t(c.carr(psi), [2, 0, 2], dt_scale=dt)
    bes = [c.num(x) if c.symbolic else x for x in bessel(c, prec, math.pi * dt)]
    v = [x / nrm for x in psi]
    v2 = evolve(c, H, bes, evolve(c, H, bes, v))
    c.eq("states", got, [v, v2])
    c.raises("time out of range", ValueError, lambda: s.calc_psi_t(c.carr(psi), [0, 3], dt_scale=dt))
    c.raises("negative time", ValueError, lambda: s.calc_psi_t(c.carr(psi), [-1], dt_scale=dt))


@case(quick=[dict(log=[8, 1], nt=8), dict(log=[9, 3, 16, 9], nt=17)], thorough=[dict(log=[33, 2, 40], nt=40)])
def late(c, log, nt):
    """Many time steps with snapshots in any order: every initial state of a given Hamiltonian."""
    import math
    pc = c.tb.PrimitiveCell(c.farr([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), unit=1.0)
    pc.add_orbital((0, 0, 0), c.num(1) / 4)
    pc.add_orbital((c.num(1) / 2, 0, 0), -c.num(1) / 2)
    pc.add_hopping((0, 0, 0), 0, 1, c.num(3) / 4)
    smp = c.tb.Sample(c.tb.SuperCell(pc, dim=(1, 1, 1), pbc=(False, False, False)))
    smp.rescale_ham(c.num(2))
    H = [[x / 2 + 0 * c.I for x in r] for r in ((c.num(1) / 4, c.num(3) / 4), (c.num(3) / 4, -c.num(1) / 2))]
    cfg = c.tb.Config()
    cfg.generic.update(Bessel_precision=0.05, nr_time_steps=nt)
    psi = c.cplxs("w", 2)
    nrm = c.sqrt(c.abs2(psi[0]) + c.abs2(psi[1]))
    c.assume(nrm > 0.2)
    got = quiet(c, smp, cfg).calc_psi_t(c.carr(psi), log, dt_scale=0.25)
    bes = [c.num(x) if c.symbolic else x for x in bessel(c, 0.05, math.pi * 0.25)]
    v, exp = [x / nrm for x in psi], []
    for t in range(nt + 1):
        if t in log:
            exp.append(v)
        if t < nt:
            v = evolve(c, H, bes, v)
    c.eq("states", got, exp)


@case(quick=[dict(dt=1e-12), dict(dt=0.0)], thorough=[])
def short_step(c, dt):
    """Time steps so short that fewer than three terms of the expansion matter."""
    smp, H = chain(c, 2)
    smp.rescale_ham(3.0)
    cfg = c.tb.Config()
    cfg.generic.update(nr_time_steps=1)
    s = quiet(c, smp, cfg)
    psi = c.cplxs("w", 2)
    nrm = c.sqrt(c.abs2(psi[0]) + c.abs2(psi[1]))
    c.assume(nrm > 0.2)
    got = s.calc_psi_t(c.carr(psi), [1], dt_scale=dt)
    import math
    from scipy.special import jv
    bes = [float(jv(i, math.pi * dt)) for i in range(3)]
    H = [[x / 3 for x in row] for row in H]
    c.eq("state", got, [evolve(c, H, [c.num(x) for x in bes] if c.symbolic else bes, [x / nrm for x in psi])])


@case(quick=[dict(ns=1, depth=1, n=2), dict(ns=2, depth=1, n=2), dict(ns=1, depth=2, n=3), dict(ns=1, depth=3, n=4, lite=True)],
      thorough=[dict(ns=1, depth=4, n=5, lite=True), dict(ns=1, depth=6, n=7, lite=True)], query_timeout=60000)
def haydock(c, ns, depth, n, lite=False):
    """Recursion coefficients and the continued fraction of the local Green's function."""
    smp, H = chain(c, n, lite)
    f = c.num(2) if lite else c.real("f", 1.5, 3)
    smp.rescale_ham(f)
    cfg = c.tb.Config()
    nt = 1
    site = 0
    cfg.generic.update(nr_time_steps=nt, nr_random_samples=1)
    delta = c.real("delta", 0.1, 1)
    cfg.LDOS.update(site_indices=[0] if ns == 1 else [0, 1], delta=delta, recursion_depth=depth)
    for i in range(n - 1):
        c.assume(c.abs2(H[i][i + 1]) > 0.05)
    if ns == 2:
        c.assume(c.abs2(H[0][1]) < 0.5)
    rnd = c.random(1, ns)
    s = quiet(c, smp, cfg)
    en, ld = s.calc_ldos_haydock()
    tot = c.sqrt(sum((r * r for r, g in rnd[0]), c.num(0)))
    c.assume(tot > 0.3)
    v = [r * c.cis(2 * c.pi * g) / tot for r, g in rnd[0]] + [0 * c.I] * (n - ns)
    a, b, prev = [], [], None
    for d in range(depth):
        hv = mv(H, v)
        al = dot(c, v, hv)
        w = comb((1, hv), (-al, v))
        if prev is not None:
            w = comb((1, w), (-b[-1], prev))
        bb = c.sqrt(c.re(dot(c, w, w)))
        a.append(al)
        b.append(bb)
        if d < depth - 1:
            c.assume(bb > 0.05)
            prev, v = v, [x / bb for x in w]
    ens = [c.num(i) * f / nt for i in (-1, 0, 1)]
    c.eq("energies", en, ens)
    exp = []
    for e in ens:
        g = 0 * c.I
        for x, y in zip(reversed(a), reversed(b)):
            g = 1 / (e + c.I * delta - x - y * y * g)
        exp.append(-c.im(g) / c.pi)
    c.eq("local density of states", ld, exp)
