"""C17: band energies, projections and densities of states follow from the eigen-systems of H(k)."""
from engine.run import case
from checks.response import make, LAT

BOUNDS = ("one- to three-band models at up to four k-points; eigenvalues, eigenvectors, overlap, broadening, energy window and grid step symbolic; Gaussian and Lorentzian "
          "broadening; dense and sparse solver")
OUTSIDE = "larger models; energy windows that are a whole number of grid steps within rounding; the eigen-solver is taken to solve the matrix it is given"


def kpts(c, nk):
    return [[c.num(i) / 8, c.num(i * i) / 16, c.num(i % 2) / 4] for i in range(nk)]


def setup(c, n, nk):
    m = make(c, n, 1, 1.0)
    ks = kpts(c, nk)
    ent = [m.add(f"k{i}", k) for i, k in enumerate(ks)]
    c.eigen(ent)
    return m, ent, c.farr(ks)


def shape(c, basis, x, mu, s):
    if basis == "Gaussian":
        return c.exp(-(x - mu) * (x - mu) / (2 * s * s)) / (s * c.sqrt(2 * c.pi))
    return s / ((x - mu) * (x - mu) + s * s) / c.pi


def weight(c, ent, b, orb):
    return 1 if orb is None else sum((c.abs2(ent[2][o][b]) for o in orb), 0 * c.real("z0", 0, 1))


@case(quick=[dict(n=n, nk=3, orb=o, conv=v) for n, o, v in ((2, None, 1), (2, [0], 2), (2, [1], 1), (2, [0, 1], 2), (1, [0], 1))] + [dict(n=2, nk=4, orb=[1, 0], conv=1)],
      thorough=[dict(n=2, nk=8, orb=[1], conv=1)])
def bands(c, n, nk, orb, conv):
    m, ent, ka = setup(c, n, nk)
    s = c.tb.DiagSolver(m.pc, echo_details=False)
    r = s.calc_bands(ka, convention=conv, orbital_indices=orb)
    c.eq("bands, highest first", r.bands, [list(reversed(e[1])) for e in ent])
    c.eq("projection on the orbitals", r.proj, [[weight(c, e, b, orb) for b in reversed(range(n))] for e in ent])
    bd, st = s.calc_states(ka, convention=conv)
    c.eq("energies", bd, [e[1] for e in ent])
    for i, e in enumerate(ent):
        for b in range(n):
            c.eq("state", [[st[i][b][x] * c.conj(st[i][b][y]) for y in range(n)] for x in range(n)], [[e[2][x][b] * c.conj(e[2][y][b]) for y in range(n)] for x in range(n)], tol=1e-6)
    kl = [c.num(0)]
    ks = kpts(c, nk)
    (a, _, _), (b_, d, _), (_, _, f) = LAT
    for p, q in zip(ks, ks[1:]):
        t = [q[x] - p[x] for x in range(3)]
        g = [t[0] / a, (t[1] - t[0] * b_ / a) / d, t[2] / f]
        kl.append(kl[-1] + 2 * c.pi * c.sqrt(sum(x * x for x in g)))
    c.eq("distances in reciprocal space", r.k_len, kl)


@case(quick=[dict(n=1, nk=2, basis="Gaussian", orb=None), dict(n=1, nk=3, basis="Lorentzian", orb=[0]), dict(n=2, nk=2, basis="Gaussian", orb=[0]),
             dict(n=2, nk=2, basis="Lorentzian", orb=[1]), dict(n=2, nk=1, basis="Gaussian", orb=None)],
      thorough=[dict(n=2, nk=4, basis="Gaussian", orb=[1]), dict(n=2, nk=3, basis="Lorentzian", orb=None)])
def dos(c, n, nk, basis, orb):
    m, ent, ka = setup(c, n, nk)
    s = c.tb.DiagSolver(m.pc, echo_details=False)
    step, sg = c.real("st", 0.2, 0.5), c.real("sg", 0.3, 1)
    num = c.conc(c.int("num", 1, 3))
    e0 = c.real("e0", -1, 1)
    e1 = e0 + step * (num + c.real("fr", 0.05, 0.95))
    gs = c.choose("gs", [1, 2])
    en, d = s.calc_dos(ka, e_min=e0, e_max=e1, e_step=step, sigma=sg, basis=basis, g_s=gs, orbital_indices=orb)
    grid = [e0 + (e1 - e0) * c.num(i) / num for i in range(num + 1)]
    c.eq("energies", en, grid)
    c.eq("density of states", d, [sum((shape(c, basis, x, e[1][b], sg) * weight(c, e, b, orb) for e in ent for b in range(n)), 0 * x) * gs / c.num(n * nk) for x in grid])


@case(quick=[dict(lo=False, hi=False), dict(lo=True, hi=False), dict(lo=False, hi=True)])
def window(c, lo, hi):
    """Without limits the grid reaches from the lowest to the highest band energy."""
    m, ent, ka = setup(c, 2, 2)
    es = [x for e in ent for x in e[1]]
    s = c.tb.DiagSolver(m.pc, echo_details=False)
    mn = c.ite(ent[0][1][0] < ent[1][1][0], ent[0][1][0], ent[1][1][0])
    mx = c.ite(ent[0][1][1] > ent[1][1][1], ent[0][1][1], ent[1][1][1])
    kw = {}
    if lo:
        kw["e_min"] = mn = c.real("lo", -4, -3)
    if hi:
        kw["e_max"] = mx = c.real("hi", 3, 4)
    en, d = s.calc_dos(ka, e_step=20.0, sigma=0.5, **kw)
    c.eq("ends", [en[0]], [mn])
    c.check("number", len(en) == 1 and len(d) == 1)
    if lo:
        c.eq("density of states", d, [sum((shape(c, "Gaussian", mn, x, 0.5) for x in es), 0 * mn) / 4])
    en, d = s.calc_dos(ka, e_step=(mx - mn) / 2.5, sigma=0.5, **kw)
    c.eq("grid", en, [mn, (mn + mx) / 2, mx])


@case()
def overlap(c):
    """Non-orthogonal basis: the generalised eigen-problem H v = E S v."""
    n = 2
    m = make(c, n, 1, 1.0)
    tab = []
    ks = kpts(c, 2)
    for i, k in enumerate(ks):
        # S = D^-1 W diag(s) W^+ D^-1 is not needed: take S = diag(s0, s1) and H = S^(1/2) V diag(e) V^+ S^(1/2)
        H0, e, V = m.add(f"k{i}", k)
        s = [c.real(f"s{i}{x}", 0.5, 2) for x in range(2)]
        S = [[s[0] * s[0], 0], [0, s[1] * s[1]]]
        H = [[H0[x][y] * s[x] * s[y] for y in range(2)] for x in range(2)]
        W = [[V[x][b] / s[x] for b in range(2)] for x in range(2)]
        m.tab[i] = (k, (H, e, W))
        tab.append((H, e, W, S))
    c.eigen(tab)

    class Ov:
        def __init__(self):
            self.synced = 0

        def sync_array(self):
            self.synced += 1

        def set_overlap_dense(self, k, s, convention=1):
            i = [j for j in range(2) if abs(c.const(k[0] - ks[j][0])) < 1e-9][0]
            for x in range(2):
                s[x, x] = tab[i][3][x][x]
    s = c.tb.DiagSolver(m.pc, overlap=Ov(), echo_details=False)
    r = s.calc_bands(c.farr(ks), orbital_indices=[1])
    c.eq("bands", r.bands, [list(reversed(t[1])) for t in tab])
    c.eq("projection", r.proj, [[c.abs2(t[2][1][b]) for b in (1, 0)] for t in tab])


@case(quick=[dict(k=1), dict(k=2)])
def sparse(c, k):
    """Sparse solver: the k states asked for."""
    n = 4
    es = [c.real("a", -1, 0), c.real("b", 0.1, 1), c.real("d", 1.1, 2), c.real("e", 2.1, 3)]
    ks = [[0, 0, 0], [c.num(1) / 4, 0, 0]]
    pc = c.tb.PrimitiveCell(c.farr(LAT), unit=1.0)
    for i in range(n):
        pc.add_orbital((c.num(i) / 4, 0, 0), es[i])
    pc.add_hopping((0, 0, 0), 0, 1, 0.0)
    V = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    H = [[es[i] if i == j else 0 for j in range(n)] for i in range(n)]
    c.eigen([(H, es, V)])
    s = c.tb.DiagSolver(pc, echo_details=False)
    r = s.calc_bands(c.farr(ks), solver="arpack", orbital_indices=[3], k=k, which="LA")
    c.eq("bands", r.bands, [list(reversed(es))[:k]] * 2)
    c.eq("projection", r.proj, [[1 if b == 0 else 0 for b in range(k)]] * 2)
    bd, st = s.calc_states(c.farr(ks), solver="arpack", k=k, which="LA")
    c.check("shape", tuple(st.shape) == (2, k, n))


@case(quick=[dict(solver="lapack"), dict(solver="arpack")], thorough=[])
def edited(c, solver):
    """A solver follows edits of its model between calls: energies, hopping terms and orbitals."""
    kw = dict(solver="arpack", k=2, which="LA") if solver == "arpack" else {}
    pc = c.tb.PrimitiveCell(c.farr(LAT), unit=1.0)
    e0, e1, t0, t1, t2 = c.real("e0", -1, 0), c.real("e1", -1, 0), c.real("t0", 0.1, 0.3), c.real("t1", 0.4, 0.6), c.real("t2", 0.7, 0.9)
    hi = [c.real("h0", 1, 1.5), c.real("h1", 2, 2.5)]
    for x in range(2):
        pc.add_orbital((0, 0, 0), e0)
    pc.add_hopping((0, 0, 0), 0, 1, t0)
    if solver == "arpack":
        for x in range(2):
            pc.add_orbital((0, 0, 0), hi[x])
    r2 = 1 / c.sqrt(c.num(2))
    z = 0 * c.I

    def system(e, t, up):
        n = 2 + len(up)
        H = [[z for _ in range(n)] for _ in range(n)]
        H[0][0] = H[1][1] = e
        H[0][1] = H[1][0] = t
        V = [[z for _ in range(n)] for _ in range(n)]
        V[0][0], V[1][0], V[0][1], V[1][1] = r2, -r2, r2, r2
        for i, x in enumerate(up):
            H[2 + i][2 + i] = x
            V[2 + i][2 + i] = c.num(1)
        return H, [e - t, e + t] + list(up), V
    u = hi if solver == "arpack" else []
    tab = [system(e0, t0, u), system(e1, t0, u), system(e1, t1, u), system(e1, t2, u), system(e1, t2, u + [c.num(3)])]
    c.eigen(tab)
    s = c.tb.DiagSolver(pc, echo_details=False)
    ka = c.farr([[0, 0, 0]])

    def top(n):
        es = list(tab[n][1])
        return es[-2:] if solver == "arpack" else es

    def found():
        e = s.calc_states(ka, **kw)[0]
        return sum(e[0][i] for i in range(2)) if solver == "arpack" else e

    def want(n):
        return sum(top(n)) if solver == "arpack" else [top(n)]
    c.eq("bands", s.calc_bands(ka, **kw).bands, [top(0)[::-1]])
    for x in range(2):
        pc.set_orbital(x, energy=e1)
    c.eq("states after a change of energies", found(), want(1))
    pc.add_hopping((0, 0, 0), 0, 1, t1)
    if solver == "lapack":
        sg = c.real("sg", 0.3, 1)
        d = s.calc_dos(ka, e_min=0.0, e_max=1.0, e_step=2.0, sigma=sg)[1]
        c.eq("density of states after a change of hoppings", d, [sum(shape(c, "Gaussian", c.num(0), x, sg) for x in tab[2][1]) / 2])
    else:
        c.eq("bands after a change of hoppings", s.calc_bands(ka, **kw).bands, [top(2)[::-1]])
    pc.add_hopping((0, 0, 0), 1, 0, t2)
    c.eq("states after a change of hoppings", found(), want(3))
    pc.add_orbital((0, 0, 0), 3.0)
    c.eq("bands after adding an orbital", s.calc_bands(ka, **kw).bands, [top(4)[::-1]])


@case()
def overlaps(c):
    """Overlap matrices held by the library's own container, at several k-points, and changed in between."""
    pc = c.tb.PrimitiveCell(c.farr(LAT), unit=1.0)
    a, t = c.real("a", -0.1, 0.1), c.real("t", 0.4, 1)
    s0, s1 = c.num(7) / 25, c.num(119) / 169
    pc.add_orbital((0, 0, 0), a)
    pc.add_orbital((1, 0, 0), a)
    pc.add_hopping((1, 0, 0), 0, 1, t)
    ov = c.tb.Overlap(pc)
    ov.add_offsite((1, 0, 0), 0, 1, s0)
    ks = [[c.num(0), 0, 0], [c.num(1) / 4, 0, 0]]
    conv = c.choose("conv", [1, 2])
    tab = []
    for s in (s0, s1):
        for k in ks:
            f = c.cis(2 * c.pi * k[0] * (2 if conv == 1 else 1))
            H = [[a, t * f], [t * c.conj(f), a]]
            S = [[1, s * f], [s * c.conj(f), 1]]
            n0, n1 = (c.num(5) / 6, c.num(5) / 8) if s is s0 else (c.num(13) / 10, c.num(13) / 24)
            V = [[n0 + 0 * c.I, n1 + 0 * c.I], [-n0 * c.conj(f), n1 * c.conj(f)]]
            tab.append((H, [(a - t) / (1 - s), (a + t) / (1 + s)], V, S))
    c.eigen(tab)
    so = c.tb.DiagSolver(pc, overlap=ov, echo_details=False)
    r = so.calc_bands(c.farr(ks), convention=conv, orbital_indices=[1])
    c.eq("bands", r.bands, [[e[1][1], e[1][0]] for e in tab[:2]])
    c.eq("projection", r.proj, [[1 / (2 * (1 + s0)), 1 / (2 * (1 - s0))]] * 2)
    ov.add_offsite((-1, 0, 0), 1, 0, s1)
    bd, st = so.calc_states(c.farr(ks), convention=conv)
    c.eq("energies after a change of the overlaps", bd, [e[1] for e in tab[2:]])


@case()
def rejected(c):
    m, ent, ka = setup(c, 1, 1)
    s = c.tb.DiagSolver(m.pc, echo_details=False)
    c.raises("basis", ValueError, lambda: s.calc_dos(ka, e_min=0.0, e_max=1.0, basis="Box"))
    c.raises("solver", ValueError, lambda: s.calc_bands(ka, solver="other"))
    c.raises("solver for states", ValueError, lambda: s.calc_states(ka, solver="other"))


@case(quick=[dict(what=w) for w in ("primitive", "sample")], thorough=[])
def models(c, what):
    """Energies of a primitive cell and of a sample made from it."""
    e0, e1 = c.real("e0", -1, 0), c.real("e1", 0.5, 1)
    pc = c.tb.PrimitiveCell(c.farr(LAT), unit=1.0)
    pc.add_orbital((0, 0, 0), e0)
    pc.add_orbital((0.5, 0, 0), e1)
    t = c.real("t", 0.1, 1)
    pc.add_hopping((0, 0, 0), 0, 1, t)
    k = [c.num(1) / 8, 0, c.num(1) / 4]
    mean, hd = (e0 + e1) / 2, (e1 - e0) / 2
    rt = c.sqrt(hd * hd + t * t)
    es = [mean - rt, mean + rt]
    V = [[t, t], [es[0] - e0, es[1] - e0]]
    nr = [c.sqrt(t * t + V[1][b] * V[1][b]) for b in range(2)]
    V = [[V[x][b] / nr[b] for b in range(2)] for x in range(2)]
    ph = c.cis(2 * c.pi * k[0] / 2)
    H = [[e0, t * ph], [t * c.conj(ph), e1]]
    W = [[V[0][b] + 0 * c.I for b in range(2)], [V[1][b] * c.conj(ph) for b in range(2)]]
    if what == "primitive":
        c.eigen([(H, es, W)])
        model = pc
    else:
        c.eigen([(H, es, W)])
        model = c.tb.Sample(c.tb.SuperCell(pc, dim=(1, 1, 1), pbc=(False, False, False)))
    s = c.tb.DiagSolver(model, echo_details=False)
    r = s.calc_bands(c.farr([k]), orbital_indices=[0])
    c.eq("bands", r.bands, [[es[1], es[0]]])
    c.eq("projection", r.proj, [[c.abs2(W[0][1]), c.abs2(W[0][0])]])
