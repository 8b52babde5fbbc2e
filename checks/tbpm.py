"""C19: TBPM correlation functions are sample means of the defining expectation values."""
from engine.run import case
from engine.mpi import ranks
from checks.propagation import mv, comb, dot, cheb, evolve, quiet

BOUNDS = ("samples of two orbitals with symbolic Hamiltonian; symbolic random initial states, Bessel coefficients (three or four), temperature and chemical potential; one or two random samples, "
          "up to three time steps, Fermi operator with four Chebyshev terms, KPM with up to four moments")
OUTSIDE = "larger samples and longer series; statistical quality of the random numbers; the accuracy of truncated expansions; the wave-function norm monitor (wfn_check_steps)"


def sample(c, full=True, lite=False):
    """Two orbitals at (0,0), (x,y), rescaled by f; returns sample, scaled H, f, displacements and positions.
    On-site energies stay away from the cutoff below which they are not stored."""
    pc = c.tb.PrimitiveCell(c.farr([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), unit=1.0)
    z = c.num(1) / 4
    x, y = (c.num(1) / 2, c.num(3) / 4) if lite else (c.real("x", 0.1, 1), c.real("y", 0.1, 1))
    e = [c.real("e0", 0.1, 1), c.real("e1", -1, -0.1) if full else c.num(0)]
    pc.add_orbital((0, 0, 0), e[0])
    pc.add_orbital((x, y, z), e[1])
    t = c.cplx("t", 1) if full else c.real("t_re", 0.1, 1) + 0 * c.I
    pc.add_hopping((0, 0, 0), 0, 1, t)
    smp = c.tb.Sample(c.tb.SuperCell(pc, dim=(1, 1, 1), pbc=(False, False, False)))
    f = c.num(2) if lite else c.real("f", 2, 3)
    smp.rescale_ham(f)
    H = [[e[0] / f + 0 * c.I, t / f], [c.conj(t) / f, e[1] / f + 0 * c.I]]
    dr = [[[0, x], [-x, 0]], [[0, y], [-y, 0]]]
    pos = [[0, 0, 0], [x, y, z]]
    return smp, H, f, dr, pos


def states(c, ns, n=2, lite=False):
    """Normalised random states of ns samples."""
    if lite:
        rnd = c.random(ns, n, lambda s, i: c.num(3 + i) / 5 if s % 2 == 0 else c.num(4 - i) / 5, lambda s, i: c.num(i + s) / 4)
    else:
        rnd = c.random(ns, n)
    out = []
    for row in rnd:
        s = sum((r * r for r, g in row), c.num(0))
        if not lite:
            c.assume(s > 0.1)
        tot = c.sqrt(s)
        out.append([r * c.cis(2 * c.pi * g) / tot for r, g in row])
    return out


def setup(c, nb, nt, ns, **kw):
    cfg = c.tb.Config()
    cfg.generic.update(nr_time_steps=nt, nr_random_samples=ns, Bessel_precision=0.05, wfn_check_steps=999)
    cfg.generic.update(kw)
    bes = [c.real(f"b{i}", 0.1, 1) for i in range(nb)]
    c.bessel(bes)
    return cfg, bes


def mean(c, vals):
    s = vals[0]
    for v in vals[1:]:
        s = s + v
    return s / c.num(len(vals))


@case(quick=[dict(nb=3, nt=2, ns=1), dict(nb=4, nt=1, ns=1), dict(nb=3, nt=1, ns=2), dict(nb=3, nt=3, ns=1)], thorough=[dict(nb=5, nt=2, ns=1), dict(nb=4, nt=2, ns=2)])
def dos(c, nb, nt, ns):
    smp, H, f, dr, pos = sample(c)
    cfg, bes = setup(c, nb, nt, ns)
    wf = states(c, ns)
    got = quiet(c, smp, cfg).calc_corr_dos()
    cols = []
    for w in wf:
        v, row = w, []
        for t in range(nt + 1):
            row.append(dot(c, w, v))
            if t < nt:
                v = evolve(c, H, bes, v)
        cols.append(row)
    c.eq("correlation function", got, [mean(c, [r[t] for r in cols]) for t in range(nt + 1)])


@case(quick=[dict(sites=[1], nt=2, ns=1), dict(sites=[0, 1], nt=1, ns=1), dict(sites=[0], nt=1, ns=2)], thorough=[dict(sites=[1, 0], nt=2, ns=2)])
def ldos(c, sites, nt, ns):
    smp, H, f, dr, pos = sample(c)
    cfg, bes = setup(c, 3, nt, ns)
    cfg.LDOS["site_indices"] = sites
    wf = states(c, ns)
    got = quiet(c, smp, cfg).calc_corr_ldos()
    cols = []
    for w in wf:
        p = sum((c.abs2(w[i]) for i in sites), c.num(0))
        c.assume(p > 0.05)
        q = c.sqrt(p)
        w = [w[i] / q if i in sites else 0 * c.I for i in range(2)]
        v, row = w, []
        for t in range(nt + 1):
            row.append(dot(c, w, v))
            if t < nt:
                v = evolve(c, H, bes, v)
        cols.append(row)
    c.eq("correlation function", got, [mean(c, [r[t] for r in cols]) for t in range(nt + 1)])


def fermi_coef(c, n, beta, mu, one_minus):
    """Chebyshev coefficients with Jackson kernel of the Fermi function sampled at n angles."""
    import math
    m = n // 2
    ang = [2 * c.pi * c.num(j) / n for j in range(n)]
    fd = []
    for a in ang:
        e = c.cos(a)
        p = 1 / (1 + c.exp(beta * (e - mu)))
        fd.append(1 - p if one_minus else p)
    q = c.pi / m
    cot = c.cos(q) / c.sin(q)
    out = []
    for k in range(m):
        g = c.num(1) / 2 if k == 0 else ((m - k) * c.cos(q * k) + cot * c.sin(q * k)) / m
        s = 0 * c.num(1)
        for j in range(n):
            s = s + fd[j] * c.cos(2 * c.pi * c.num(j * k) / n)
        out.append(g * s / m)
    return out


def apply(c, H, coef, v):
    T = cheb(c, H, v, len(coef))
    return comb(*[(a, x) for a, x in zip(coef, T)])


def current(c, H, d, f):
    return [[c.I * f * H[i][j] * d[i][j] for j in range(2)] for i in range(2)]


@case(quick=[dict(nt=1, ns=1, fd=True), dict(nt=2, ns=1, fd=False)], thorough=[dict(nt=2, ns=2, fd=False)])
def ac(c, nt, ns, fd):
    """<psi2(t)| J_a (1 - f) J_b |psi1(t)>"""
    smp, H, f, dr, pos = sample(c, False, fd)
    cfg, bes = setup(c, 3, nt, ns, nr_Fermi_fft_steps=8, Fermi_cheb_precision=0.0)
    beta, mu = (c.real("beta", 0.5, 2), c.real("mu", 0.25, 1)) if fd else (c.num(0), c.num(0))
    cfg.generic.update(beta=beta, mu=mu)
    wf = states(c, ns, lite=fd)
    got = quiet(c, smp, cfg).calc_corr_ac_cond()
    cF, cO = (fermi_coef(c, 8, beta * f, mu / f, om) for om in (False, True))
    J = [current(c, H, d, f) for d in dr]
    cols = []
    for w in wf:
        p1 = [apply(c, H, cO, mv(j, w)) for j in J]
        p2 = apply(c, H, cF, w)
        row = []
        for t in range(nt):
            row.append([dot(c, p2, mv(J[b], p1[a])) for a in range(2) for b in range(2)])
            if t < nt - 1:
                p1 = [evolve(c, H, bes, p) for p in p1]
                p2 = evolve(c, H, bes, p2)
        cols.append(row)
    c.eq("correlation function", got, [[mean(c, [r[t][k] for r in cols]) for t in range(nt)] for k in range(4)])


@case(quick=[dict(nt=1, ns=1, nq=1, fd=True), dict(nt=2, ns=1, nq=1, fd=False), dict(nt=2, ns=2, nq=1, fd=False), dict(nt=2, ns=1, nq=2, fd=False)], thorough=[dict(nt=3, ns=1, nq=2, fd=False)])
def dyn_pol(c, nt, ns, nq, fd):
    """Im <psi2(t)| rho(q) |psi1(t)>"""
    smp, H, f, dr, pos = sample(c, False, fd)
    cfg, bes = setup(c, 3, nt, ns, nr_Fermi_fft_steps=8, Fermi_cheb_precision=0.0)
    beta, mu = (c.real("beta", 0.5, 2), -c.real("mu", 0.25, 1)) if fd else (c.num(0), c.num(0))
    cfg.generic.update(beta=beta, mu=mu)
    qs = [[c.real(f"q{i}{k}", *((0, 1) if k != 1 else (-1, 0))) for k in range(3)] for i in range(nq)]
    cfg.dyn_pol["q_points"] = qs
    wf = states(c, ns, lite=fd)
    got = quiet(c, smp, cfg).calc_corr_dyn_pol()
    cF, cO = (fermi_coef(c, 8, beta * f, mu / f, om) for om in (False, True))
    exp = []
    for q in qs:
        ph = [c.cis(sum((q[k] * p[k] for k in range(3)), c.num(0))) for p in pos]
        cols = []
        for w in wf:
            p1 = apply(c, H, cO, [c.conj(a) * b for a, b in zip(ph, w)])
            p2 = apply(c, H, cF, w)
            row = []
            for t in range(nt):
                row.append(c.im(dot(c, p2, [a * b for a, b in zip(ph, p1)])))
                if t < nt - 1:
                    p1, p2 = evolve(c, H, bes, p1), evolve(c, H, bes, p2)
            cols.append(row)
        exp.append([mean(c, [r[t] for r in cols]) for t in range(nt)])
    c.eq("correlation function", got, exp)


def quasi(c, H, bes, w, e, dt, nt):
    """Unnormalised quasi-eigenstate: Hanning-windowed sum over positive and negative times."""
    q = list(w)
    vp, vn = w, w
    for t in range(1, nt + 1):
        vp, vn = evolve(c, H, bes, vp), evolve(c, H, bes, vn, False)
        W = (1 + c.cos(c.pi * t / nt)) / 2
        P = c.cis(e * t * dt)
        q = comb((1, q), (P * W, vp), (c.conj(P) * W, vn))
    return q


@case(quick=[dict(nt=1, ns=1, ne=2), dict(nt=2, ns=1, ne=1), dict(nt=1, ns=2, ne=1)], thorough=[dict(nt=2, ns=2, ne=2)])
def eigenstates(c, nt, ns, ne):
    smp, H, f, dr, pos = sample(c, False, nt > 1)
    cfg, bes = setup(c, 3, nt, ns)
    es = [c.real(f"en{i}", -1, 1) for i in range(ne)]
    cfg.quasi_eigenstates["energies"] = es
    wf = states(c, ns, lite=nt > 1)
    got = quiet(c, smp, cfg).calc_quasi_eigenstates()
    dt = c.pi / f
    exp = []
    for e in es:
        rows = []
        for w in wf:
            q = quasi(c, H, bes, w, e, dt, nt)
            nn = c.abs2(q[0]) + c.abs2(q[1])
            rows.append([c.abs2(x) / nn for x in q])
        exp.append([mean(c, [r[i] for r in rows]) for i in range(2)])
    c.eq("quasi-eigenstates", got, exp)


@case(quick=[dict(nt=1, ns=1), dict(nt=2, ns=1)], thorough=[dict(nt=2, ns=2)])
def dc(c, nt, ns):
    smp, H, f, dr, pos = sample(c, False, nt > 1)
    cfg, bes = setup(c, 3, nt, ns)
    # energies -f + i f / nt (i < 2 nt); keep one or two of them, with f = 2 and both limits on the grid if nt = 2
    cfg.DC_conductivity["energy_limits"] = (-0.5, 0.5) if nt == 1 else (-1.0, 0.0)
    wf = states(c, ns, lite=nt > 1)
    d, got = quiet(c, smp, cfg).calc_corr_dc_cond()
    dt = c.pi / f
    ens = [0 * f] if nt == 1 else [-f / 2, 0 * f]
    J = [current(c, H, x, f) for x in dr]
    dcol, ccol = [], []
    for w in wf:
        v, row = w, []
        for t in range(nt):
            v = evolve(c, H, bes, v)
            row.append(dot(c, w, v))
        dcol.append(row)
        qe = []
        for e in ens:
            q = quasi(c, H, bes, w, e, dt, nt)
            o = dot(c, w, q)
            nq = c.sqrt(c.re(o) * c.re(o) + c.im(o) * c.im(o))
            qe.append([x / nq for x in q])
        jw = [mv(j, w) for j in J]
        rows = [[[None] * nt for _ in ens] for _ in range(2)]
        for t in range(nt):
            for a in range(2):
                for i, q in enumerate(qe):
                    rows[a][i][t] = dot(c, jw[a], mv(J[a], q))
            if t < nt - 1:
                jw = [evolve(c, H, bes, x) for x in jw]
        ccol.append(rows)
    c.eq("density of states", d, [mean(c, [r[t] for r in dcol]) for t in range(nt)])
    n = len(ens)
    c.eq("current correlation", [[[got[a][i][t] for t in range(nt)] for i in range(n)] for a in range(2)],
         [[[mean(c, [r[a][i][t] for r in ccol]) for t in range(nt)] for i in range(n)] for a in range(2)])


@case(quick=[dict(nk=2, ns=1, d=1), dict(nk=3, ns=1, d=2), dict(nk=4, ns=1, d=1), dict(nk=2, ns=2, d=2)], thorough=[dict(nk=5, ns=1, d=2), dict(nk=3, ns=2, d=1)])
def kubo_bastin(c, nk, ns, d):
    """Moments <J T_m | J' T_n> with Jackson kernels."""
    smp, H, f, dr, pos = sample(c, nk < 4)
    cfg, bes = setup(c, 3, 1, ns)
    cfg.dckb.update(n_kernel=nk, direction=d)
    wf = states(c, ns)
    got = quiet(c, smp, cfg).calc_hall_mu()
    q = c.pi / nk
    cot = c.cos(q) / c.sin(q)
    g = [c.num(1) / 2 if k == 0 else ((nk - k) * c.cos(q * k) + cot * c.sin(q * k)) / nk for k in range(nk)]
    Jx, Jd = current(c, H, dr[0], f), current(c, H, dr[d - 1], f)
    mats = []
    for w in wf:
        R = [mv(Jd, v) for v in cheb(c, H, w, nk)]
        L = cheb(c, H, mv(Jx, w), nk)
        mats.append([[g[i] * g[j] * dot(c, L[i], R[j]) for j in range(nk)] for i in range(nk)])
    c.eq("moments", got, [[mean(c, [m[i][j] for m in mats]) for j in range(nk)] for i in range(nk)])


CALCS = ["calc_corr_dos", "calc_corr_ldos", "calc_corr_ac_cond", "calc_corr_dyn_pol", "calc_corr_dc_cond", "calc_quasi_eigenstates", "calc_hall_mu"]


@case(quick=[dict(calc=x) for x in CALCS])
def streams(c, calc):
    """Every random sample of every process starts from its own random state, and runs are reproducible."""
    pc = c.tb.PrimitiveCell(c.farr([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), unit=1.0)
    pc.add_orbital((0, 0, 0), 0.25)
    pc.add_orbital((0.5, 0, 0), 0.5)
    pc.add_hopping((0, 0, 0), 0, 1, -1.0)
    smp = c.tb.Sample(c.tb.SuperCell(pc, dim=(1, 1, 1), pbc=(False, False, False)))
    smp.rescale_ham(4.0)
    seed = c.choose("seed", [1337, 1, 7])

    def run(mpi):
        cfg = c.tb.Config()
        cfg.generic.update(nr_time_steps=1, nr_random_samples=4, Bessel_precision=0.05, seed=seed, nr_Fermi_fft_steps=8, beta=1.0, Fermi_cheb_precision=0.0)
        cfg.dckb.update(n_kernel=2)
        cfg.quasi_eigenstates["energies"] = [0.0]
        return getattr(quiet(c, smp, cfg, enable_mpi=mpi), calc)()
    c.bessel([0.5, 0.25, 0.125])
    c.random(4, 2)
    ranks(c, 2, lambda r: run(True))
    log = c.random_log()
    c.check("four different streams for two processes of two samples", sorted(set(log)) == [0, 1, 2, 3] and len(log) == 4)
    run(False)
    log = c.random_log()
    c.check("the same streams with one process", log[4:] == [0, 1, 2, 3])
