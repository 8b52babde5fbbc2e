"""C21: spin textures are the expectation values of the Pauli matrices; Z2 phases are the Wilson-loop phases, followed and counted correctly."""
import itertools
from engine.run import case
from engine.mpi import ranks

BOUNDS = ("two or four spin orbitals with symbolic eigenvectors and energies, up to three k-points, both spin orders, changing k-grids; Wilson loops of two to four points with one or two occupied bands; "
          "phases of up to three k-points and two bands for reordering and up to four k-points for crossing counts")
OUTSIDE = "more bands; the eigen-solvers are taken to solve the matrices they are given; phases exactly at the reference or threshold"


def cell(c, n):
    """A cell of n orbitals whose Hamiltonians are given by (symbolic) eigen-systems per k-point."""
    class Cell(c.tb.PrimitiveCell):
        def set_ham_dense(self, k_point, ham_dense, convention=1):
            for kk, (h, e, v) in self.table:
                d = [c.const(k_point[x] - kk[x]) for x in range(3)]
                if all(t is not None and abs(t) < 1e-9 for t in d):
                    for i in range(n):
                        for j in range(n):
                            ham_dense[i, j] = h[i][j]
                    return
            c.check("the Hamiltonian is asked for at the given k-points only", False)
    pc = Cell(c.farr([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), unit=1.0)
    for i in range(n):
        pc.add_orbital((c.num(i) / 8, 0, 0), 0.0)
    pc.sync_array()
    pc.table = []
    return pc


def unitary(c, tag, fix=None):
    ph = c.cis(c.real(f"{tag}ph", 0, 3))
    if fix is None:
        th = c.real(f"{tag}th", 0.1, 1.4)
        co, si = c.cos(th), c.sin(th)
    else:
        co, si = [(c.num(4) / 5, c.num(3) / 5), (c.num(12) / 13, c.num(5) / 13), (c.num(15) / 17, c.num(8) / 17)][fix % 3]
    return [[co, si], [-si * ph, co * ph]]


def ham(c, es, V):
    n = len(es)
    return [[sum((V[i][b] * es[b] * c.conj(V[j][b]) for b in range(n)), 0 * c.I) for j in range(n)] for i in range(n)]


def energies(c, tag, n):
    es = [c.real(f"{tag}e", -1, 1)]
    for i in range(1, n):
        es.append(es[-1] + c.real(f"{tag}g{i}", 0.2, 1))
    return es


def add(c, pc, tag, k, n, fix=None):
    """Eigen-system at k: a product of two rotations followed by a permutation that entangles spin and space."""
    if n == 2:
        V = unitary(c, tag, fix)
    else:
        A, B = unitary(c, tag + "a"), unitary(c, tag + "b")
        V = [[A[i // 2][b // 2] * B[i % 2][b % 2] for b in range(4)] for i in range(4)]
        V = [V[0], V[1], V[3], V[2]]
    es = energies(c, tag, n)
    ent = (ham(c, es, V), es, V)
    pc.table.append((k, ent))
    return ent


def pauli(c, V, b, major):
    n = len(V)
    h = n // 2
    u = [V[i][b] for i in (range(h) if major else range(0, n, 2))]
    d = [V[i][b] for i in (range(h, n) if major else range(1, n, 2))]
    ud = sum((c.conj(x) * y for x, y in zip(u, d)), 0 * c.I)
    return dict(x=2 * c.re(ud), y=2 * c.im(ud), z=sum((c.abs2(x) - c.abs2(y) for x, y in zip(u, d)), c.num(0)))


@case(quick=[dict(n=2, nk=2, major=True, mpi=1), dict(n=2, nk=3, major=False, mpi=2), dict(n=4, nk=1, major=True, mpi=1), dict(n=4, nk=1, major=False, mpi=1)],
      thorough=[dict(n=4, nk=3, major=m, mpi=2) for m in (True, False)])
def spin(c, n, nk, major, mpi):
    pc = cell(c, n)
    ks = [[c.num(i + 1) / 8, c.num(1) / 4, -c.num(i) / 2] for i in range(nk)]
    sy = [add(c, pc, f"k{i}", k, n) for i, k in enumerate(ks)]
    c.eigen(sy)
    comps = list("xyz")

    def run(rank=0):
        st = c.tb.SpinTexture(pc, c.farr(ks), spin_major=major, enable_mpi=mpi > 1, echo_details=False)
        return [st.eval(x) for x in comps], st.k_cart
    for got, kc in (ranks(c, mpi, run) if mpi > 1 else [run()]):
        for x, g in zip(comps, got):
            c.eq(f"sigma_{x}", g, [[pauli(c, s[2], b, major)[x] for b in range(n)] for s in sy])
        c.eq("k-points in Cartesian coordinates", kc, [[2 * c.pi * y for y in k] for k in ks])


@case(quick=[dict(order=[0, 1]), dict(order=[0, 1, 0]), dict(order=[2, 0]), dict(order=[0, 3]), dict(order=[4, 5]), dict(order=[5, 4])])
def regrid(c, order):
    """Changing the k-grid gives the states of the new grid."""
    pc = cell(c, 2)
    grids = [[[-1, 0, 0], [c.num(1) / 2, 0, 0]], [[-2, 0, 0], [c.num(1) / 2, 0, 0]], [[c.num(1) / 4, 0, 0]], [[-1, 0, 0], [c.num(1) / 4, 0, 0]]]
    grids += [[[-1, 0, 0], [0, 0, 0], [0, c.num(1) / 4, y]] for y in (0, c.num(1) / 4)]
    ent = {}
    for g in sorted(set(order)):
        for i, k in enumerate(grids[g]):
            if not any(kk is k or kk == k for kk, _ in pc.table):
                ent[g, i] = add(c, pc, f"g{g}{i}", k, 2)
            else:
                ent[g, i] = [e for kk, e in pc.table if kk == k][0]
    c.eigen([e for _, e in pc.table])
    st = c.tb.SpinTexture(pc, c.farr(grids[order[0]]), echo_details=False)
    for n, g in enumerate(order):
        if n:
            st.k_grid = c.farr(grids[g])
        for x in "zx":
            c.eq(f"sigma_{x} of grid {n}", st.eval(x), [[pauli(c, ent[g, i][2], b, True)[x] for b in range(2)] for i in range(len(grids[g]))])


@case(quick=[dict(n=2, na=2, nb=1, mpi=1), dict(n=2, na=3, nb=1, mpi=1), dict(n=2, na=3, nb=2, mpi=2), dict(n=4, na=2, nb=1, mpi=1)], thorough=[dict(n=2, na=4, nb=1, mpi=1), dict(n=4, na=3, nb=1, mpi=1)], feas_timeout=500, query_timeout=2000)
def wilson(c, n, na, nb, mpi):
    """Phases of the Wilson loop along a; with four orbitals two decoupled systems with one occupied band each."""
    pc = cell(c, n)
    ka, kb, kc = [c.num(i) / na - c.num(1) / 2 for i in range(na)], [c.num(i) / 8 for i in range(nb)], c.num(1) / 4
    sy = {}
    for i, a in enumerate(ka):
        for j, b in enumerate(kb):
            if n == 2:
                sy[i, j] = add(c, pc, f"k{i}{j}", [a, b, kc], 2, i if na * nb > 2 else None)
            else:
                A, B = unitary(c, f"a{i}{j}", i), unitary(c, f"b{i}{j}", i + j + 1)
                es = energies(c, f"k{i}{j}", 4)
                z = 0 * c.I
                # columns: occupied of A, occupied of B, empty of A, empty of B
                V = [[A[r][0], z, A[r][1], z] for r in range(2)] + [[z, B[r][0], z, B[r][1]] for r in range(2)]
                ent = (ham(c, es, V), es, V)
                pc.table.append(([a, b, kc], ent))
                sy[i, j] = ent
    c.eigen([e for _, e in pc.table])
    occ = n // 2
    W = []
    for j in range(nb):
        row = []
        for o in range(occ):
            w = c.num(1) + 0 * c.I
            for i in range(na):
                u, v = sy[i, j][2], sy[(i + 1) % na, j][2]
                s = 0 * c.I
                for r in range(n):
                    s = s + c.conj(u[r][o]) * v[r][o]
                w = w * s
            row.append(w)
            c.assume(c.sqrt(c.abs2(w)) > 0.01)
            if na > 2:
                c.assume(c.re(w) > 0.001)
        W.append(row)

    def run(rank=0):
        z2 = c.tb.Z2(pc, occ, enable_mpi=mpi > 1, echo_details=False)
        c.check("occupied bands", z2.num_occ == occ)
        return z2.calc_phases(c.farr(ka), c.farr(kb), kc)
    for k, p in (ranks(c, mpi, run) if mpi > 1 else [run()]):
        c.eq("k-points", k, kb)
        for j in range(nb):
            ref = [c.math.atan2(c.im(w), c.re(w)) for w in W[j]]
            if occ == 1:
                c.eq(f"phase {j}", p[j], ref)
            else:
                c.eq(f"sum of phases {j}", [p[j][0] + p[j][1]], [ref[0] + ref[1]])
                c.eq(f"product of phases {j}", [p[j][0] * p[j][1]], [ref[0] * ref[1]])
                c.check(f"ascending {j}", p[j][0] <= p[j][1])
    for bad in (0, n + 1):
        c.raises(f"{bad} occupied bands", ValueError, lambda: c.tb.Z2(pc, bad, echo_details=False))


@case()
def edited(c):
    """Phases follow edits of the cell: a bond within the cell has none, a bond to the next cell winds."""
    pc = c.tb.PrimitiveCell(unit=1.0)
    e, s = c.real("e", -1, 1), c.real("s", 0.01, 0.05)
    pc.add_orbital((0, 0, 0), e + 7 * s)
    pc.add_orbital((0, 0, 0), e - 7 * s)
    pc.add_hopping((0, 0, 0), 0, 1, 24 * s)
    fs = [c.num(1) + 0 * c.I, c.I, -1 + 0 * c.I, -c.I]
    x, y = c.num(3) / 5, c.num(4) / 5
    vs = [[[x, y], [-y * c.conj(f), x * c.conj(f)]] for f in fs]
    c.eigen([([[e + 7 * s, 24 * s * f], [24 * s * c.conj(f), e - 7 * s]], [e - 25 * s, e + 25 * s], v) for f, v in zip(fs, vs)])
    z = c.tb.Z2(pc, 1, echo_details=False)
    ka = c.farr([c.num(n) / 4 for n in range(4)])
    c.eq("no winding", z.calc_phases(ka, c.farr([0.0]))[1], [[c.math.atan2(c.num(0), c.num(1))]])
    pc.remove_hopping((0, 0, 0), 0, 1)
    pc.add_hopping((1, 0, 0), 0, 1, 24 * s)
    w = c.num(1) + 0 * c.I
    for n in range(4):
        u, v = vs[n], vs[(n + 1) % 4]
        w = w * sum((c.conj(u[r][0]) * v[r][0] for r in range(2)), 0 * c.I)
    c.eq("winding", z.calc_phases(ka, c.farr([0.0]))[1], [[c.math.atan2(c.im(w), c.re(w))]])


def z2(c, occ):
    pc = cell(c, occ + 1)
    return c.tb.Z2(pc, occ, echo_details=False)


def far(c, p, x, thr):
    """The wrapped and unwrapped distances keep clear of the threshold."""
    for n in (-2, 0, 2):
        d = c.abs(p - x - n * c.pi)
        c.assume(c.Or(d < thr - 0.001, d > thr + 0.001))


@case(quick=[dict(nk=2, thr=0.5), dict(nk=3, thr=0.5)], thorough=[dict(nk=4, thr=0.25)], max_paths=4000, deadline=300)
def unwrap(c, nk, thr):
    """One band: every step follows the branch within the threshold, if there is one."""
    x = [c.real(f"p{i}", -3.2, 3.2) for i in range(nk)]
    got = z2(c, 1).reorder_phases(c.farr([[v] for v in x]), threshold=thr, smooth=False)
    c.eq("first phase", [got[0][0]], [x[0]])
    for i in range(nk - 1):
        p, q = got[i][0], got[i + 1][0]
        k = [q - x[i + 1] - n * c.pi for n in (-2, 0, 2)]
        c.check(f"phase {i + 1} modulo 2 pi", c.Or(*[c.And(v < 1e-9, v > -1e-9) for v in k]))
        near = [c.abs(p - x[i + 1] - n * c.pi) < thr - 1e-9 for n in (-2, 0, 2)]
        c.check(f"step {i + 1} follows the branch", c.Or(c.abs(p - q) < thr + 1e-9, c.Not(c.Or(*near))))
        c.check(f"step {i + 1} stays without a branch", c.Or(c.Or(*[c.abs(p - x[i + 1] - n * c.pi) < thr + 1e-9 for n in (-2, 0, 2)]), c.abs(q - x[i + 1]) < 1e-9))


def follow(rows, thr, pi, smooth):
    """Reference: nearest branch modulo 2 pi not yet taken by an earlier band; then smallest second difference."""
    rows = [list(r) for r in rows]
    for i in range(len(rows) - 1):
        free = list(rows[i + 1])
        for j, p in enumerate(rows[i]):
            if abs(p - rows[i + 1][j]) > thr:
                best = None
                for m, x in enumerate(free):
                    for n in (-2, 0, 2):
                        d = abs(p - (x + n * pi))
                        if d < thr and (best is None or d < best[0]):
                            best = (d, m, x + n * pi)
                if best:
                    rows[i + 1][j] = best[2]
                    free.pop(best[1])
    if smooth:
        for i in range(len(rows) - 2):
            free = list(rows[i + 2])
            for j in range(len(rows[i])):
                a, b = rows[i][j], rows[i + 1][j]
                best = None
                for m, x in enumerate(free):
                    if abs(b - x) < thr:
                        d = abs(x - 2 * b + a)
                        if best is None or d < best[0]:
                            best = (d, m, x)
                if best:
                    rows[i + 2][j] = best[2]
                    free.pop(best[1])
    return rows


@case(quick=[dict(kind="swap", smooth=False), dict(kind="wrap", smooth=False), dict(kind="cross", smooth=True), dict(kind="keep", smooth=False)], thorough=[dict(kind="any", smooth=False)], max_paths=3000, deadline=400)
def follow2(c, kind, smooth):
    """Two bands: exchange, wrapping at pi, crossing."""
    thr = 0.5
    d = [c.real(f"d{i}", -0.1, 0.1) for i in range(6)]
    base = dict(swap=[[-1, 1], [1, -1]], wrap=[[-3, 3], [-3, -3.1]], cross=[[-0.4, 0.4], [-0.1, 0.1], [-0.2, 0.2]], keep=[[-1, 1], [0.25, 2]], any=[[0, 0], [0, 0]])[kind]
    if kind == "any":
        rows = [[c.real(f"p{i}{j}", -3.2, 3.2) for j in range(2)] for i in range(2)]
    else:
        rows = [[c.num(v) + (d[2 * i + j] if kind != "cross" or i == 2 or i == j == 1 else 0) for j, v in enumerate(r)] for i, r in enumerate(base)]
    if kind == "cross":
        for j in range(2):
            c.assume(c.abs(rows[2][0] - rows[2][1]) > 0.01)
            s = [c.abs(rows[2][m] - 2 * rows[1][j] + rows[0][j]) for m in range(2)]
            c.assume(c.abs(s[0] - s[1]) > 0.001)
            for m in range(2):
                c.assume(c.abs(c.abs(rows[1][j] - rows[2][m]) - thr) > 0.001)
    if kind == "wrap":
        c.assume(c.abs(rows[1][0] - rows[1][1]) > 0.01)
    if kind == "any":
        ds = []
        for j in range(2):
            for m in range(2):
                far(c, rows[0][j], rows[1][m], thr)
    arr = c.farr(rows)
    got = z2(c, 2).reorder_phases(arr, threshold=thr, smooth=smooth)
    if kind == "keep":
        exp = rows
    elif kind == "swap":
        exp = [rows[0], rows[1][::-1]]
    else:
        exp = follow(rows, thr, c.pi, smooth)
    c.eq("phases", got, exp)
    c.eq("input unchanged", arr, rows)


@case(quick=[dict(nk=2, nb=2), dict(nk=4, nb=1), dict(nk=3, nb=2), dict(nk=1, nb=1)], max_paths=4000)
def crossing(c, nk, nb):
    x = [[c.real(f"p{i}{j}", -3.2, 3.2) for j in range(nb)] for i in range(nk)]
    ref = c.real("ref", -1, 1)
    for r in x:
        for v in r:
            c.assume(c.Or(v > ref + 0.001, v < ref - 0.001))
    got = c.tb.Z2.count_crossing(c.farr(x), ref)
    exp = 0
    for j in range(nb):
        for i in range(nk - 1):
            a, b = x[i][j] > ref, x[i + 1][j] > ref
            exp = exp + (1 if bool(a) != bool(b) else 0)
    c.check("number of crossings", int(got) == exp)
