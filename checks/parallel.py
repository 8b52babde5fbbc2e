"""C16: results do not depend on the number of MPI processes."""
from engine.run import case
from engine.mpi import ranks
from checks.response import make, mesh, solver, pol, cart, measure, fermi

BOUNDS = ("1 to 4 processes; lists and ranges of up to 9 items (more and fewer than processes); one- and two-band models with up to four k-points and two q-points, all "
          "eigenvalues, eigenvectors and arrays symbolic; all collective operations with symbolic C- and Fortran-ordered buffers")
OUTSIDE = "the MPI library itself (collectives are modelled by their definition); independent process failures"


@case(quick=[dict(g=g) for g in (1, 2, 3, 4)])
def partition(c, g):
    """Every item goes to exactly one process, in order, in shares that differ by at most one."""
    u = c.mod("tbplas.utils")
    n = c.conc(c.int("n", 0, 9))
    parts = [list(r) for r in u.split_range(n, num_group=g)]
    c.check("one range per group", len(parts) == g)
    c.check("ranges are a partition in order", [i for p in parts for i in p] == list(range(n)))
    c.check("balanced", max(map(len, parts)) - min(map(len, parts)) <= 1)
    vals = c.reals("v", n)

    def body(r):
        e = c.mod("tbplas.parallel").MPIEnv(enable_mpi=True, echo_details=False)
        out = [e.rank, e.size, list(e.dist_range(n)), list(e.dist_range(n)) if n == 0 else e.dist_bound(n), e.is_master]
        if n >= g:
            out += [e.dist_list(vals), e.dist_list(vals, algorithm="remainder")]
        return out
    res = ranks(c, g, body)
    c.check("rank and size", [r[:2] for r in res] == [[r, g] for r in range(g)])
    c.check("ranges of the processes", [i for r in res for i in r[2]] == list(range(n)))
    c.check("one master", [r[4] for r in res] == [r == 0 for r in range(g)])
    if n > 0:
        c.check("bounds", [i for r in res for i in range(r[3][0], r[3][1] + 1)] == list(range(n)))
    if n >= g:
        c.eq("list in order", [x for r in res for x in r[5]], vals)
        c.eq("list round robin", [x for i in range(n) for x in [res[i % g][6][i // g]]], vals)
        c.check("shares", sum(len(r[5]) for r in res) == n and sum(len(r[6]) for r in res) == n)
        for alg in ("range", "remainder"):
            sp = u.split_list(vals, g, algorithm=alg)
            c.check("groups", len(sp) == g and max(map(len, sp)) - min(map(len, sp)) <= 1)


@case(quick=[dict(g=g, dt=dt, order=o) for g, dt, o in ((1, "c16", "C"), (2, "f8", "F"), (3, "c16", "F"), (3, "f8", "C"))])
def collectives(c, g, dt, order):
    import numpy as np
    vals = [[[c.cplx(f"a{r}{i}{j}") if dt == "c16" else c.real(f"a{r}{i}{j}") for j in range(3)] for i in range(2)] for r in range(g)]

    def arr(v):
        a = c.np.array(v, dtype=np.dtype(dt))
        return a if order == "C" else c.np.asfortranarray(a)

    def body(r):
        e = c.mod("tbplas.parallel").MPIEnv(enable_mpi=True, echo_details=False)
        out = [f(arr(vals[r])) for f in (e.reduce, e.all_reduce, e.average, e.all_average)]
        b = arr(vals[r])
        e.bcast(b)
        e.barrier()
        return out + [b]
    res = ranks(c, g, body)
    s = [[sum((vals[r][i][j] for r in range(1, g)), vals[0][i][j]) for j in range(3)] for i in range(2)]
    m = [[x / c.num(g) for x in row] for row in s]
    c.eq("sum at the master", res[0][0], s)
    c.eq("mean at the master", res[0][2], m)
    for r in range(g):
        c.eq("sum", res[r][1], s)
        c.eq("mean", res[r][3], m)
        c.eq("broadcast", res[r][4], vals[0])
    e = c.mod("tbplas.parallel").MPIEnv(enable_mpi=False, echo_details=False)
    for f in (e.reduce, e.all_reduce, e.average, e.all_average):
        c.eq("single process", f(arr(vals[0])), vals[0])


@case(quick=[dict(g=1, nk=2, n=2), dict(g=2, nk=3, n=2), dict(g=3, nk=2, n=2), dict(g=3, nk=4, n=1)],
      thorough=[dict(g=4, nk=6, n=2), dict(g=5, nk=3, n=2)])
def bands(c, g, nk, n):
    """Band structure, projections and states."""
    m = make(c, n, 1, 1.0)
    ks = [[c.num(i) / 8, c.num(i * i) / 16, 0] for i in range(nk)]
    ent = [m.add(f"k{i}", k) for i, k in enumerate(ks)]
    c.eigen(ent)
    ka = c.farr(ks)
    w = list(range(n))[-1:]

    def body(r):
        s = c.tb.DiagSolver(m.pc, enable_mpi=True, echo_details=False)
        b = s.calc_bands(ka, orbital_indices=w)
        st = s.calc_states(ka)
        return [b.k_len, b.bands, b.proj, st]
    res = ranks(c, g, body)
    s0 = c.tb.DiagSolver(m.pc, enable_mpi=False, echo_details=False)
    ref = s0.calc_bands(ka, orbital_indices=w)
    for r in range(g):
        c.eq("distances", res[r][0], ref.k_len)
        c.eq("bands", res[r][1], [list(reversed(e[1])) for e in ent])
        c.eq("projection", res[r][2], [[c.abs2(e[2][n - 1][b]) for b in reversed(range(n))] for e in ent])
        bd, st = res[r][3]
        c.eq("energies", bd, [e[1] for e in ent])
        for i, e in enumerate(ent):
            for b in range(n):
                P = [[e[2][x][b] * c.conj(e[2][y][b]) for y in range(n)] for x in range(n)]
                c.eq("projector of the state", [[st[i][b][x] * c.conj(st[i][b][y]) for y in range(n)] for x in range(n)], P, tol=1e-6)


@case(quick=[dict(g=2, nk=3, basis="Gaussian"), dict(g=3, nk=2, basis="Lorentzian")], thorough=[dict(g=4, nk=5, basis="Gaussian")])
def dos(c, g, nk, basis):
    m = make(c, 1, 1, 1.0)
    ks = [[c.num(i) / 8, 0, 0] for i in range(nk)]
    ent = [m.add(f"k{i}", k) for i, k in enumerate(ks)]
    c.eigen(ent)
    ka = c.farr(ks)
    p = dict(e_min=-1.0, e_max=1.0, e_step=0.75, sigma=c.real("sg", 0.3, 1), basis=basis, g_s=2)
    res = ranks(c, g, lambda r: c.tb.DiagSolver(m.pc, enable_mpi=True, echo_details=False).calc_dos(ka, **p))
    ref = c.tb.DiagSolver(m.pc, enable_mpi=False, echo_details=False).calc_dos(ka, **p)
    for r in range(g):
        c.eq("energies", res[r][0], ref[0])
        c.eq("density of states", res[r][1], ref[1])


@case(quick=[dict(g=2, model=1, size=[2, 2, 1], q=[[1, 1, 0], [0, 1, 0]], ftn=f) for f in (True, False)] +
      [dict(g=3, model=2, size=[2, 1, 1], q=[[1, 0, 0], [0, 0, 0]], ftn=f) for f in (True, False)],
      thorough=[dict(g=3, model=1, size=[2, 2, 1], q=[[1, 1, 0], [0, 1, 0], [1, 0, 0]], ftn=f) for f in (True, False)])
def polarisation(c, g, model, size, q, ftn):
    m = make(c, model, 2, c.num(1))
    ks = mesh(c, size)
    ent = {key: m.add(f"k{key[0]}{key[1]}{key[2]}", k) for key, k in ks}
    c.eigen([ent[key] for key, _ in ks])
    qa = c.iarr(q)
    _, p = solver(c, m, size, 2, 1)

    def body(r):
        s = c.tb.Lindhard(m.pc, tuple(size), echo_details=False, enable_mpi=True, **{k: v for k, v in p.items() if k != "omegas"})
        return s.calc_dyn_pol_regular(qa, use_fortran=ftn)
    res = ranks(c, g, body)
    exp = []
    for qq in q:
        qc = cart(c, [c.num(qq[x]) / size[x] for x in range(3)], m.lat)
        exp.append([sum((pol(c, m, p, ent[key], ent[tuple((key[x] + qq[x]) % size[x] for x in range(3))], qc, w) for key, k in ks), 0 * c.I) * p["g_s"] / measure(m, size, 2)
                    for w in p["omegas"]])
    for r in range(g):
        c.eq("dynamic polarisation", res[r][1], exp)


@case(quick=[dict(g=2, model=1, size=[2, 1, 1], nq=2, ftn=f) for f in (True, False)] + [dict(g=3, model=1, size=[2, 1, 1], nq=1, ftn=f) for f in (True, False)])
def polarisation_arb(c, g, model, size, nq, ftn):
    m = make(c, model, 2, c.num(1))
    ks = mesh(c, size)
    qf = [[c.num(i + 1) / 8, 0, 0] for i in range(nq)]
    ent = {key: m.add(f"k{key[0]}{key[1]}{key[2]}", k) for key, k in ks}
    entq = {(i, key): m.add(f"q{i}{key[0]}{key[1]}{key[2]}", [k[x] + qf[i][x] for x in range(3)]) for i in range(nq) for key, k in ks}
    c.eigen(list(ent.values()) + list(entq.values()))
    _, p = solver(c, m, size, 2, 1)
    qc = [cart(c, qf[i], m.lat) for i in range(nq)]
    qa = c.farr(qc)

    def body(r):
        s = c.tb.Lindhard(m.pc, tuple(size), echo_details=False, enable_mpi=True, **{k: v for k, v in p.items() if k != "omegas"})
        return s.calc_dyn_pol_arbitrary(qa, use_fortran=ftn)
    res = ranks(c, g, body)
    exp = [[sum((pol(c, m, p, ent[key], entq[i, key], qc[i], w) for key, k in ks), 0 * c.I) * p["g_s"] / measure(m, size, 2) for w in p["omegas"]] for i in range(nq)]
    for r in range(g):
        c.eq("dynamic polarisation", res[r][1], exp)


@case(quick=[dict(g=g, ftn=f) for g in (2, 3) for f in (True, False)])
def conductivity(c, g, ftn):
    size = [2, 1, 1]
    m = make(c, 2, 2, c.num(1), False)
    ks = mesh(c, size)
    ent = {key: m.add(f"k{key[0]}{key[1]}{key[2]}", k) for key, k in ks}
    c.eigen([ent[key] for key, _ in ks])
    s0, p = solver(c, m, size, 2, 1)

    def body(r):
        s = c.tb.Lindhard(m.pc, tuple(size), echo_details=False, enable_mpi=True, **{k: v for k, v in p.items() if k != "omegas"})
        return s.calc_ac_cond(component="xy", use_fortran=ftn)
    res = ranks(c, g, body)
    ref = s0.calc_ac_cond(component="xy", use_fortran=ftn)
    for r in range(g):
        c.eq("optical conductivity", res[r][1], ref[1])


@case(quick=[dict(g=2, nk=3, comp=x) for x in "xyz"] + [dict(g=3, nk=2, comp="y")])
def spin_texture(c, g, nk, comp):
    m = make(c, 2, 1, 1.0)
    ks = [[c.num(i) / 8, 0, 0] for i in range(nk)]
    ent = [m.add(f"k{i}", k) for i, k in enumerate(ks)]
    c.eigen(ent)
    ka = c.farr(ks)
    res = ranks(c, g, lambda r: c.tb.SpinTexture(m.pc, ka, enable_mpi=True, echo_details=False).eval(comp))
    exp = []
    for H, e, V in ent:
        row = []
        for b in range(2):
            u, d = V[0][b], V[1][b]
            x = c.conj(u) * d
            row.append({"x": 2 * c.re(x), "y": 2 * c.im(x), "z": c.abs2(u) - c.abs2(d)}[comp])
        exp.append(row)
    for r in range(g):
        c.eq("spin texture", res[r], exp)


CALC = ["calc_corr_dos", "calc_corr_ldos", "calc_corr_ac_cond", "calc_corr_dyn_pol", "calc_corr_dc_cond", "calc_hall_mu", "calc_quasi_eigenstates"]


@case(quick=[dict(g=2, calc=x) for x in CALC] + [dict(g=3, calc="calc_corr_dos")])
def tbpm_average(c, g, calc):
    """Every process runs the same number of random samples, together at least the requested number, and the mean is returned by all."""
    sol = c.mod("tbplas.tbpm.solver")
    if not hasattr(sol, "f2py"):
        return
    ns = c.conc(c.int("ns", 1, 5))
    c.hook("scipy.special.jv", lambda n, x: c.np.float64(0.25) if n < 3 else c.np.float64(0))
    asked = {}
    old = sol.f2py
    shape = dict(calc_corr_dc_cond=None).get(calc, (2, 2))

    class Stub:
        def __getattr__(self, name):
            def fn(*a, **kw):
                asked.setdefault(name, []).append(a)
                r = len(asked[name]) - 1
                if name == "tbpm_dccond":
                    return c.carr([c.cplx(f"z{r}")]), c.carr([[c.cplx(f"y{r}")]])
                return c.carr([[c.cplx(f"z{r}{i}{j}") for j in range(2)] for i in range(2)])
            return fn
    pc = c.tb.PrimitiveCell(c.farr([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), unit=1.0)
    pc.add_orbital((0, 0, 0), 0.25)
    pc.add_hopping((1, 0, 0), 0, 0, -1.0)
    smp = c.tb.Sample(c.tb.SuperCell(pc, dim=(3, 1, 1), pbc=(True, False, False)))
    smp.rescale_ham(4.0)
    order = []
    saved = []

    def body(r):
        cfg = c.tb.Config()
        cfg.generic["nr_random_samples"] = ns
        cfg.generic["nr_time_steps"] = 2
        s = c.tb.Solver(smp, cfg, enable_mpi=True, echo_details=False, directory="sim", prefix="p")
        s._save_data = lambda data, *a, **k: saved.append((s.rank, data))
        order.append(r)
        out = getattr(s, calc)()
        return out, cfg.generic["nr_random_samples"]
    sol.f2py = Stub()
    import contextlib
    import io
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            res = ranks(c, g, body)
    finally:
        sol.f2py = old
    c.check("one kernel call per process", len(asked) == 1 and all(len(v) == g for v in asked.values()))
    name = list(asked)[0]
    tot = res[0][1]
    c.check("number of samples", all(x[1] == tot for x in res) and tot >= ns and tot % g == 0 and tot - ns < g)
    pos = {"tbpm_dos": (6, 8), "tbpm_ldos": (7, 9), "tbpm_accond": (11, 15), "tbpm_dyn_pol": (14, 19), "tbpm_dccond": (11, 17), "tbpm_kbdc": (7, 10), "tbpm_eigenstates": (6, 9)}
    if name in pos and all(len(a) > pos[name][1] for a in asked[name]):
        c.check("share of the samples", all(int(a[pos[name][0]]) * g == tot for a in asked[name]))
        c.check("rank of the process", [int(a[pos[name][1]]) for a in asked[name]] == order)
    for r in range(g):
        out = res[r][0]
        if calc == "calc_corr_dc_cond":
            c.eq("mean dos", out[0], [sum((c.cplx(f"z{q}") for q in range(g)), 0 * c.I) / c.num(g)])
            c.eq("mean dc", out[1], [[sum((c.cplx(f"y{q}") for q in range(g)), 0 * c.I) / c.num(g)]])
        else:
            c.eq("mean", out, [[sum((c.cplx(f"z{q}{i}{j}") for q in range(g)), 0 * c.I) / c.num(g) for j in range(2)] for i in range(2)])


@case(quick=[dict(g=2, fn=f) for f in ("calc_dos", "calc_ac_cond", "calc_dyn_pol", "calc_epsilon", "calc_dc_cond", "calc_diff_coeff", "calc_hall_cond")])
def analysis(c, g, fn):
    """The analysis of correlation functions gives every process the result of a single process."""
    pc = c.tb.PrimitiveCell(c.farr([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), unit=1.0)
    pc.add_orbital((0, 0, 0), 0.25)
    pc.add_hopping((1, 0, 0), 0, 0, -1.0)
    smp = c.tb.Sample(c.tb.SuperCell(pc, dim=(3, 1, 1), pbc=(True, False, False)))
    smp.rescale_ham(4.0)
    cfg = c.tb.Config()
    cfg.generic["nr_time_steps"] = 2
    cfg.generic["beta"] = 2.0
    cfg.generic["nr_Fermi_fft_steps"] = 2
    cfg.dckb.update(energies=[0.25, 0.5], n_kernel=2, ne_integral=4)
    cfg.DC_conductivity["energy_limits"] = (-3.0, 1.0)
    cplx = lambda *s: [c.cplx(f"x{i}") for i in range(s[0])] if len(s) == 1 else [[c.cplx(f"x{i}_{j}") for j in range(s[1])] for i in range(s[0])]
    if fn == "calc_dos":
        args = [c.carr([1, 0.5 + 0.25j, 0.125])]
    elif fn == "calc_ac_cond":
        args = [c.carr(cplx(4, 2))]
    elif fn in ("calc_dyn_pol", "calc_epsilon"):
        args = [c.carr(cplx(1, 2))]
    elif fn == "calc_dc_cond":
        args = [c.carr([0.5 + 0.25j, 0.125]), c.carr([[[c.cplx(f"x{i}{j}{k}") for k in range(2)] for j in range(4)] for i in range(2)])]
    elif fn == "calc_diff_coeff":
        args = [c.carr([[[c.cplx(f"x{i}{j}{k}") for k in range(2)] for j in range(4)] for i in range(2)])]
    else:
        args = [c.carr([[0.5, 0.25 + 0.5j], [0.25 - 0.5j, 0.125]])]

    def one(mpi):
        out = getattr(c.tb.Analyzer(smp, cfg, dimension=3, enable_mpi=mpi), fn)(*args)
        return list(out) if isinstance(out, tuple) else [out]
    ref = one(False)
    res = ranks(c, g, lambda r: one(True))
    for r in range(g):
        for i, x in enumerate(ref):
            c.eq(f"result {i}", res[r][i], x)


@case(quick=[dict(g=2, nb=3), dict(g=3, nb=2)], thorough=[dict(g=4, nb=5)])
def z2_phases(c, g, nb):
    """Wilson-loop phases of every k-point reach every process."""
    from checks import topology as t
    pc = t.cell(c, 2)
    ka, kb = [c.num(i) / 4 for i in range(3)], [c.num(i) / 8 for i in range(nb)]
    ph, cs = [c.num(1) + 0 * c.I, c.I, -1 + 0 * c.I], [(4, 3, 5), (12, 5, 13), (15, 8, 17)]
    sy = {}
    for j, b in enumerate(kb):
        for i, a in enumerate(ka):
            x, y, n = cs[(i + j) % 3]
            x, y, f = c.num(x) / n, c.num(y) / n, ph[i]
            V = [[x, y], [-y * f, x * f]]
            es = t.energies(c, f"k{i}{j}", 2)
            sy[i, j] = (t.ham(c, es, V), es, V)
            pc.table.append(([a, b, c.num(0)], sy[i, j]))
    c.eigen([e for _, e in pc.table])
    ref = []
    for j in range(nb):
        w = c.num(1) + 0 * c.I
        for i in range(3):
            u, v = sy[i, j][2], sy[(i + 1) % 3, j][2]
            w = w * sum((c.conj(u[r][0]) * v[r][0] for r in range(2)), 0 * c.I)
        ref.append([c.math.atan2(c.im(w), c.re(w))])

    def run(rank):
        z2 = c.tb.Z2(pc, 1, enable_mpi=True, echo_details=False)
        return z2.calc_phases(c.farr(ka), c.farr(kb), 0.0)
    for k, p in ranks(c, g, run):
        c.eq("k-points", k, kb)
        c.eq("phases", p, ref)
