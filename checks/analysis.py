"""C20: TBPM analysis turns correlation functions into spectra by the documented sums."""
from engine.run import case
from engine.mpi import ranks
from checks.propagation import quiet

BOUNDS = ("symbolic correlation functions, rescale factor, inverse temperature, window functions and cell area; one to four time steps (DOS), up to three for the other spectra; up to four Chebyshev moments and "
          "four integration points for the Hall conductivity; one or two q-points; two- and three-dimensional normalisation; with and without spin correction; extended cells")
OUTSIDE = "longer time series, rounding; the choice of normalisation by PrimitiveCell.extended is the one of the code (not documented)"


def sample(c, n=2, ext=1, f=None):
    """A sample of n orbitals in a cell of symbolic size."""
    a, b, h = c.real("a", 0.5, 2), c.real("b", 0.5, 2), c.real("h", 0.5, 2)
    pc = c.tb.PrimitiveCell(c.farr([[a, 0, 0], [0, b, 0], [0, 0, h]]), unit=1.0)
    for i in range(n):
        pc.add_orbital((c.num(i) / 4, 0, 0), c.num(i + 1))
    if n > 1:
        pc.add_hopping((0, 0, 0), 0, 1, -1.0)
    if ext > 1:
        pc = c.tb.extend_prim_cell(pc, dim=(ext, 1, 1))
    smp = c.tb.Sample(c.tb.SuperCell(pc, dim=(2, 1, 1), pbc=(True, False, False)))
    f = c.real("f", 2, 3) if f is None else f
    smp.rescale_ham(f)
    return smp, f, ext * a * b, ext * a * b * h, ext * n


def config(c, nt, spin, **kw):
    cfg = c.tb.Config()
    cfg.generic.update(nr_time_steps=nt, correct_spin=spin)
    cfg.generic.update(kw)
    return cfg


def window(c, nt, tag="w"):
    """An arbitrary window function: one symbol per argument; calls outside its range are recorded."""
    w = [c.real(f"{tag}{i}", 0.25, 1) for i in range(nt + 1)]
    bad = []

    def fn(i, tnr):
        if tnr != nt or not 0 <= i <= nt:
            bad.append((i, tnr))
            return c.num(0)
        return w[int(i)]
    return w, fn, bad


def ref_dos(c, corr, w, f, nt, spin):
    """|sum over t of window * C(t) * exp(i E t dt)|, C(-t) = conj C(t), normalised to 1 (2 with spin); dt = pi / f.
    The window is indexed from the first non-zero time; the negative times stop one step earlier."""
    raw = []
    for k in range(-nt, nt):
        z = corr[0] + 0 * c.I
        for t in range(1, nt + 1):
            ph = c.cis(c.pi * c.num(k * t) / nt)
            z = z + w[t - 1] * corr[t] * ph
            if t < nt:
                z = z + w[t - 1] * c.conj(corr[t] * ph)
        raw.append(c.sqrt(c.abs2(z)))
    de = f / nt
    s = sum(raw[1:], raw[0]) * de
    g = 2 if spin else 1
    return [c.num(k) * f / nt for k in range(-nt, nt)], [g * x / s for x in raw]


def corr(c, tag, n):
    return [c.cplx(f"{tag}{i}", 1) for i in range(n)]


@case(quick=[dict(nt=1, spin=False, mpi=False), dict(nt=2, spin=True, mpi=False), dict(nt=3, spin=False, mpi=False), dict(nt=2, spin=False, mpi=True)], thorough=[dict(nt=4, spin=False, mpi=False), dict(nt=6, spin=True, mpi=False)])
def dos(c, nt, spin, mpi):
    smp, f, area, vol, n = sample(c)
    C = corr(c, "c", nt + 1)
    c.assume(c.re(C[0]) > 0.5)
    for z in C[1:]:
        c.assume(c.abs2(z) < 0.005)
    w, fn, bad = window(c, nt)
    en, ds = ref_dos(c, C, w, f, nt, spin)

    def run(rank=0):
        A = c.tb.Analyzer(smp, config(c, nt, spin), dimension=2, enable_mpi=mpi)
        r = A.calc_dos(c.carr(C), fn)
        return r, A.calc_ldos(c.carr(C), fn)
    for r in (ranks(c, 2, run) if mpi else [run()]):
        for lab, (e, d) in zip(("dos", "ldos"), r):
            c.eq(lab + " energies", e, en)
            c.eq(lab, d, ds)
    c.check("window arguments", not bad)


@case(quick=[dict(nt=3)])
def windows(c, nt):
    """Default windows."""
    A = c.mod("tbplas.tbpm.analysis")
    for i in range(nt + 1):
        c.eq(f"hanning {i}", A.window_hanning(i, nt), (1 + c.cos(c.pi * i / nt)) / 2)
        c.eq(f"exp {i}", A.window_exp(i, nt), c.exp(-2 * c.num(i * i) / (nt * nt)))
        c.eq(f"exp10 {i}", A.window_exp_ten(i, nt), 10.0 ** (-2.0 * (i / nt) ** 2), tol=1e-9)
    smp, f, area, vol, n = sample(c, f=c.num(2))
    cfg = config(c, 2, False, beta=1.0)
    an = c.tb.Analyzer(smp, cfg, dimension=2)
    C = [c.real("c0", 0.5, 1) + 0 * c.I] + [c.cplx(f"c{i}", 0.05) for i in (1, 2)]
    c.eq("default window of dos", an.calc_dos(c.carr(C))[1], an.calc_dos(c.carr(C), A.window_hanning)[1])
    c.eq("default window of ldos", an.calc_ldos(c.carr(C))[1], an.calc_dos(c.carr(C), A.window_hanning)[1])
    X = [[c.cplx(f"x{i}{k}", 1) for k in range(2)] for i in range(4)]
    c.eq("default window of ac_cond", an.calc_ac_cond(c.carr(X))[1], an.calc_ac_cond(c.carr(X), A.window_exp)[1])
    c.eq("default window of dyn_pol", an.calc_dyn_pol(c.carr(X[:1]))[2], an.calc_dyn_pol(c.carr(X[:1]), A.window_exp_ten)[2])


@case(quick=[dict(nt=2, dim=2, spin=False, ext=1, mpi=False), dict(nt=3, dim=3, spin=True, ext=2, mpi=False), dict(nt=2, dim=3, spin=False, ext=1, mpi=True)], thorough=[dict(nt=4, dim=2, spin=True, ext=2, mpi=False)])
def ac_cond(c, nt, dim, spin, ext, mpi):
    smp, f, area, vol, n = sample(c, ext=ext)
    X = [[c.cplx(f"x{i}{k}", 1) for k in range(nt)] for i in range(4)]
    w, fn, bad = window(c, nt)
    beta = c.real("beta", 0.5, 1)
    pre = n / ((area if dim == 2 else vol) * ext)
    dt = c.pi / (2 * f)
    om = [c.num(i) * 2 * f / nt for i in range(nt)]
    g = 2 if spin else 1
    exp = []
    for j in range(4):
        re = [c.num(0)]
        for i in range(1, nt):
            s = 0 * c.num(1)
            for k in range(nt):
                s = s + 2 * w[k + 1] * c.sin(c.pi * c.num(i * k) / nt) * c.im(X[j][k])
            re.append(pre * dt * s * (c.exp(-beta * om[i]) - 1) / om[i])
        # Hilbert transform of the even extension, zero at the lower end
        N = 2 * nt
        sig = [c.num(0)] * N
        for i in range(nt):
            sig[nt + i] = sig[nt - i] = re[i]
        im = []
        for m in range(nt, N):
            s = c.num(0)
            for l in range(N):
                if (m - l) % 2:
                    q = c.pi * c.num(m - l) / N
                    s = s + sig[l] * c.cos(q) / c.sin(q) * 2 / N
            im.append(s)
        exp.append([g * (a + c.I * b) for a, b in zip(re, im)])

    def run(rank=0):
        return c.tb.Analyzer(smp, config(c, nt, spin, beta=beta), dimension=dim, enable_mpi=mpi).calc_ac_cond(c.carr(X), fn)
    for o, a in (ranks(c, 2, run) if mpi else [run()]):
        c.eq("frequencies", o, om)
        c.eq("optical conductivity", a, exp)
    c.check("window arguments", not bad)


@case(quick=[dict(nt=2, dim=2, nq=2, spin=False, ext=1, mpi=False), dict(nt=3, dim=3, nq=1, spin=True, ext=2, mpi=False), dict(nt=2, dim=2, nq=1, spin=True, ext=1, mpi=True)])
def dyn_pol(c, nt, dim, nq, spin, ext, mpi):
    smp, f, area, vol, n = sample(c, ext=ext)
    X = [[c.cplx(f"x{i}{k}", 1) for k in range(nt)] for i in range(nq)]
    w, fn, bad = window(c, nt)
    pre = 2 * n / ((area if dim == 2 else vol) * ext)
    dt = c.pi / (2 * f)
    om = [c.num(i) * 2 * f / nt for i in range(nt)]
    g = 2 if spin else 1
    qs = [[(-1) ** k * c.real(f"q{i}{k}", 0.1, 1) for k in range(3)] for i in range(nq - 1)] + [[0.0, 0.0, 0.0] if dim == 2 else [c.real(f"qq{k}", 0.1, 1) for k in range(3)]]
    cc, be = c.real("cc", 0.5, 2), c.real("be", 1, 2)
    exp = []
    for q in range(nq):
        row = []
        for i in range(nt):
            s = 0 * c.I
            for k in range(nt):
                s = s + w[k + 1] * X[q][k] * c.cis(c.pi * c.num(i * k) / nt)
            row.append(g * pre * dt * s)
        exp.append(row)

    def run(rank=0):
        cfg = config(c, nt, spin)
        cfg.dyn_pol.update(q_points=qs, coulomb_constant=cc, background_dielectric_constant=be)
        A = c.tb.Analyzer(smp, cfg, dimension=dim, enable_mpi=mpi)
        r = A.calc_dyn_pol(c.carr(X), fn)
        return r, A.calc_epsilon(r[2])
    e0 = c.mod("tbplas.base.constants").EPSILON0
    for (qp, o, d), ep in (ranks(c, 2, run) if mpi else [run()]):
        c.eq("q-points", qp, qs)
        c.eq("frequencies", o, om)
        c.eq("dynamic polarization", d, exp)
        for q in range(nq):
            n2 = sum((x * x for x in qs[q]), c.num(0))
            if dim == 2 and q == nq - 1:
                vq = c.num(0)
            elif dim == 2:
                vq = cc / (e0 * be) * 2 * c.pi / c.sqrt(n2)
            else:
                vq = cc / (e0 * be) * 4 * c.pi / n2
            c.eq(f"dielectric function {q}", ep[q], [1 - vq * x for x in exp[q]])
    c.check("window arguments", not bad)


@case(quick=[dict(n=2)])
def epsilon_q0(c, n):
    smp, f, area, vol, no = sample(c)
    cfg = config(c, 2, False)
    be = c.real("be", 1, 2)
    cfg.dyn_pol.update(background_dielectric_constant=be)
    om = [c.real(f"om{i}", 0.1, 1) for i in range(n)]
    s = [c.cplx(f"s{i}", 1) for i in range(n)]
    e0 = c.mod("tbplas.base.constants").EPSILON0
    got = c.tb.Analyzer(smp, cfg, dimension=3).calc_epsilon_q0(c.farr(om), c.carr(s))
    c.eq("dielectric function", got, [1 + c.I * 4 * c.pi / (be * e0) * x / o for x, o in zip(s, om)])
    c.raises("two dimensions", ValueError, lambda: c.tb.Analyzer(smp, cfg, dimension=2).calc_epsilon_q0(c.farr(om), c.carr(s)))
    c.raises("dimension", ValueError, lambda: c.tb.Analyzer(smp, cfg, dimension=1))
    for sec in ("generic", "LDOS", "dyn_pol", "dckb"):
        bad = config(c, 2, False)
        getattr(bad, sec)["no_such_parameter"] = 1
        c.raises(f"illegal parameter {sec}", ValueError, lambda: c.tb.Analyzer(smp, bad, dimension=2))


@case(quick=[dict(nt=1, dim=2, spin=False, mpi=False), dict(nt=2, dim=3, spin=True, mpi=False), dict(nt=2, dim=2, spin=False, mpi=True), dict(nt=2, dim=2, spin=False, mpi=False, lim=[-1, 0])], thorough=[dict(nt=3, dim=2, spin=True, mpi=False)])
def dc_cond(c, nt, dim, spin, mpi, lim=None):
    """DOS times the windowed cosine transform of the current correlation."""
    smp, f, area, vol, n = sample(c, f=c.num(2) if nt > 1 else None)
    C = corr(c, "c", nt)
    for z in C:
        c.assume(c.abs2(z) < 0.005)
    # limits select the energies -f/2 and 0 (nt = 2), 0 (nt = 1), -2f/3, -f/3, 0 (nt = 3)
    # and both limits on energies of the grid with `lim`
    lo, hi = lim if lim else ([-0.5, -1.75, -1.5][nt - 1], 0.5)
    ks = [k for k in range(-nt, nt) if lo <= k * 2 / nt <= hi]
    X = [[[c.cplx(f"x{a}{i}{k}", 1) for k in range(nt)] for i in range(len(ks))] for a in range(2)]
    w, fn, bad = window(c, nt, "v")
    w2, fn2, bad2 = window(c, nt, "w")
    en, ds = ref_dos(c, [c.num(1) + 0 * c.I] + C, w, f, nt, spin)
    dt = c.pi / f
    pre = n / (area if dim == 2 else vol)
    g = 2 if spin else 1
    exp = []
    for a in range(2):
        row = []
        for i, k in enumerate(ks):
            s = c.num(0)
            for t in range(nt):
                s = s + w2[t + 1] * c.re(c.cis(-c.pi * c.num(k * t) / nt) * X[a][i][t])
            row.append(g * pre * dt * ds[k + nt] * s)
        exp.append(row)

    def run(rank=0):
        cfg = config(c, nt, spin)
        cfg.DC_conductivity["energy_limits"] = (lo, hi)
        A = c.tb.Analyzer(smp, cfg, dimension=dim, enable_mpi=mpi)
        return A.calc_dc_cond(c.carr(C), c.carr(X), fn, fn2), A.calc_diff_coeff(c.carr(X), fn2)
    diff = []
    for a in range(2):
        rows = []
        for i, k in enumerate(ks):
            v = [w2[t + 1] * c.re(c.cis(-c.pi * c.num(k * t) / nt) * X[a][i][t]) for t in range(nt)]
            s, r = c.num(0), []
            for t in range(nt):
                if t:
                    s = s + dt * (v[t] + v[t - 1]) / 2
                r.append(s)
            rows.append(r)
        diff.append(rows)
    for (e, d), (tm, df) in (ranks(c, 2, run) if mpi else [run()]):
        c.eq("energies", e, [en[k + nt] for k in ks])
        c.eq("conductivity", d, exp)
        c.eq("times", tm, [dt * t for t in range(nt)])
        c.eq("diffusion coefficient", df, diff)
    c.check("window arguments", not bad and not bad2)


@case(quick=[dict(nk=2, ne=2, dim=2, unit="h_bar", spin=False, mpi=False), dict(nk=3, ne=3, dim=3, unit="h", spin=True, mpi=False), dict(nk=2, ne=4, dim=2, unit="h", spin=False, mpi=True)],
      thorough=[dict(nk=4, ne=6, dim=2, unit="h_bar", spin=True, mpi=False)])
def hall_cond(c, nk, ne, dim, unit, spin, mpi):
    """Kubo-Bastin sum over moments and energies."""
    smp, f, area, vol, n = sample(c)
    M = [[c.cplx(f"m{i}{j}", 1) for j in range(nk)] for i in range(nk)]
    beta = c.real("beta", 0.25, 1)
    mus = [c.real("mu0", 3.5, 4), c.real("mu1", -4, -3.5)]
    pre = 16 * n / (c.pi * (2 * f) * (2 * f)) / (area if dim == 2 else vol) * (2 * c.pi if unit == "h" else 1) * (2 if spin else 1)
    exp = []
    for mu in mus:
        s = c.num(0)
        for k in range(1, ne):
            a = c.pi * c.num(k) / ne
            E, q = c.cos(a), c.sin(a)
            gam = c.num(0)
            for i in range(nk):
                for j in range(nk):
                    G = (E - c.I * j * q) * c.cis(a * j) * c.cos(a * i) + (E + c.I * i * q) * c.cis(-a * i) * c.cos(a * j)
                    gam = gam + c.re(G * M[i][j])
            s = s + gam / (q * q * q) / (1 + c.exp(beta * (E * f - mu))) * c.pi / ne
        exp.append(pre * s)

    def run(rank=0):
        cfg = config(c, 2, spin, beta=beta)
        cfg.dckb.update(energies=mus, ne_integral=ne, n_kernel=nk)
        return c.tb.Analyzer(smp, cfg, dimension=dim, enable_mpi=mpi).calc_hall_cond(c.carr(M), unit)
    for e, s in (ranks(c, 2, run) if mpi else [run()]):
        c.eq("energies", e, mus)
        c.eq("conductivity", s, exp)
    c.raises("unit", ValueError, lambda: c.tb.Analyzer(smp, config(c, 2, spin), dimension=2).calc_hall_cond(c.carr(M), "eV"))


@case(quick=[dict(n=1)])
def config_file(c, n):
    """Configuration survives a save and read cycle; temperature sets beta."""
    cfg = c.tb.Config()
    T = c.real("T", 1, 500)
    cfg.set_temperature(T)
    kb = c.mod("tbplas.base.constants").KB
    c.eq("beta", [cfg.generic["beta"]], [1 / (kb * T)], tol=1e-4)
    vals = dict(generic=("mu", c.real("mu", -1, 1)), LDOS=("delta", c.real("delta", 0, 1)), dyn_pol=("coulomb_constant", c.real("cc", 0, 1)),
                dckb=("n_kernel", c.int("nk", 1, 9)), quasi_eigenstates=("energies", [c.real("en", 0, 1)]), DC_conductivity=("energy_limits", (c.real("lo", -1, 0), 1)))
    for sec, (k, v) in vals.items():
        getattr(cfg, sec)[k] = v
    smp, f, area, vol, no = sample(c)
    sol = quiet(c, smp, cfg)
    sol.save_config("conf.pkl")
    got = c.tb.read_config("sim/p.conf.pkl")
    for sec, (k, v) in vals.items():
        g = getattr(got, sec)[k]
        c.eq(sec, list(g) if isinstance(v, (list, tuple)) else [g], list(v) if isinstance(v, (list, tuple)) else [v])
    c.eq("beta kept", [got.generic["beta"]], [cfg.generic["beta"]])
    got.check_params()
