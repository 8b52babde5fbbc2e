"""C05: the Bloch Hamiltonian is the Hermitian sum over all hopping terms."""
from engine.run import case
from checks.common import ref_ham
from checks.lattice import lattice

BOUNDS = ("cells of up to three orbitals (thorough: four) with fixed patterns of up to seven terms, and every single term with cell index in "
          "{-1,0,1}^3; on-site energies, complex hopping values, positions and k symbolic")
OUTSIDE = "larger cells; eigen-solvers (LAPACK, ARPACK) are taken to solve the matrix they are given"

PAT = {1: [((1, 0, 0), 0, 0), ((0, 1, 0), 0, 0), ((1, -1, 2), 0, 0)],
       2: [((0, 0, 0), 0, 1), ((1, 0, 0), 1, 0), ((0, 1, 0), 0, 0), ((-1, 1, 0), 0, 1), ((0, 0, 1), 1, 1)],
       3: [((0, 0, 0), 0, 1), ((0, 0, 0), 2, 1), ((1, 0, 0), 1, 0), ((0, -1, 0), 0, 2), ((0, 1, 1), 2, 2), ((1, 1, -2), 1, 2), ((0, 0, 1), 2, 0)],
       4: [((0, 0, 0), 0, 1), ((0, 0, 0), 2, 1), ((1, 0, 0), 3, 0), ((0, -1, 0), 0, 2), ((0, 1, 1), 2, 2), ((1, 1, -2), 1, 3), ((0, 0, 1), 3, 3), ((-1, 0, 0), 3, 2)]}


def build_cell(c, n, terms, lat=None, unit=1.0, cls=None):
    pc = c.tb.PrimitiveCell(c.np.eye(3) if lat is None else lat, unit=unit)
    e, tau = [], []
    for i in range(n):
        ei = c.real(f"e{i}")
        p = tuple(c.real(f"p{i}{x}") for x in "xyz")
        pc.add_orbital(p, ei)
        e.append(ei)
        tau.append(p)
    ts = []
    for k, (rn, i, j) in enumerate(terms):
        t = c.cplx(f"t{k}")
        pc.add_hopping(tuple(rn), i, j, t)
        ts.append((tuple(rn), i, j, t))
    pc.sync_array()
    return pc, e, tau, ts


def dense(c, pc, k, conv, n):
    h = c.zeros((n, n), "c16")
    pc.set_ham_dense(k, h, conv)
    return h


@case(quick=[dict(n=n, conv=v) for n in (1, 2, 3) for v in (1, 2)], thorough=[dict(n=4, conv=1), dict(n=4, conv=2)])
def ham(c, n, conv):
    pc, e, tau, ts = build_cell(c, n, PAT[n], lattice(c, "tri"), c.real("unit", 0.1, 2))
    k = c.vec3("k")
    h = dense(c, pc, k, conv, n)
    ref = ref_ham(c, n, e, tau, ts, k, conv)
    c.eq("dense", h, ref)
    c.eq("csr", pc.set_ham_csr(k, conv).toarray(), ref)
    c.eq("Hermitian", h, [[c.conj(h[j][i]) for j in range(n)] for i in range(n)])
    c.eq("k untouched", k, [c.real(f"k{x}") for x in range(3)])


@case(quick=[dict(n=2, m=1)], thorough=[dict(n=3, m=1)])
def one_term(c, n, m):
    """Every single term, in both conventions."""
    rn = tuple(c.conc(c.int(f"r{x}", -m, m)) for x in range(3))
    i, j = c.conc(c.int("i", 0, n - 1)), c.conc(c.int("j", 0, n - 1))
    c.assume(not (rn == (0, 0, 0) and i == j))
    pc, e, tau, ts = build_cell(c, n, [(rn, i, j)])
    k = c.vec3("k")
    for conv in (1, 2):
        ref = ref_ham(c, n, e, tau, ts, k, conv)
        c.eq(f"dense {conv}", dense(c, pc, k, conv, n), ref)
        c.eq(f"csr {conv}", pc.set_ham_csr(k, conv).toarray(), ref)


@case(quick=[dict(n=2), dict(n=3)])
def symmetry(c, n):
    """Periodicity in k (lattice convention) and the relation between the conventions."""
    pc, e, tau, ts = build_cell(c, n, PAT[n])
    k = c.vec3("k")
    g = [c.int(f"g{x}", -2, 2) for x in range(3)]
    h2 = dense(c, pc, k, 2, n)
    c.eq("periodic", dense(c, pc, c.farr([k[x] + g[x] for x in range(3)]), 2, n), h2)
    h1 = dense(c, pc, k, 1, n)
    ph = [c.cis(2 * c.pi * sum(k[x] * tau[i][x] for x in range(3))) for i in range(n)]
    c.eq("conventions", h1, [[c.conj(ph[i]) * h2[i][j] * ph[j] for j in range(n)] for i in range(n)])
    hm = dense(c, pc, c.farr([-k[x] for x in range(3)]), 1, n)
    pr = c.tb.PrimitiveCell(c.np.eye(3), unit=1.0)
    for i in range(n):
        pr.add_orbital(tau[i], e[i])
    for rn, i, j, t in ts:
        pr.add_hopping(rn, i, j, c.conj(t))
    pr.sync_array()
    c.eq("conjugate hoppings give the conjugate matrix at -k", dense(c, pr, k, 1, n), [[c.conj(hm[i][j]) for j in range(n)] for i in range(n)])


@case()
def repeated(c):
    """Matrices at several k-points from the same cell, after edits."""
    n = 2
    pc, e, tau, ts = build_cell(c, n, PAT[2])
    k, q = c.vec3("k"), c.vec3("q")
    c.eq("first k", dense(c, pc, k, 1, n), ref_ham(c, n, e, tau, ts, k, 1))
    c.eq("second k", dense(c, pc, q, 1, n), ref_ham(c, n, e, tau, ts, q, 1))
    u = c.cplx("u")
    pc.add_hopping((0, 0, 0), 1, 0, u)
    pc.set_orbital(1, energy=c.real("enew"))
    pc.sync_array()
    ts = [((0, 0, 0), 1, 0, u)] + ts[1:]
    ref = ref_ham(c, n, [e[0], c.real("enew")], tau, ts, k, 1)
    c.eq("after edits", dense(c, pc, k, 1, n), ref)
    c.eq("after edits (csr)", pc.set_ham_csr(k, 1).toarray(), ref)
    c.eq("default convention", dense(c, pc, k, 1, n), ref)
    h = c.zeros((n, n), "c16")
    pc.set_ham_dense(k, h)
    c.eq("default convention (dense)", h, ref)
    c.eq("default convention (csr)", pc.set_ham_csr(k).toarray(), ref)


@case()
def refused(c):
    exc = c.mod("tbplas.builder.exceptions")
    pc, e, tau, ts = build_cell(c, 2, PAT[2])
    k = c.vec3("k")
    v = c.conc(c.int("v", -1, 4))
    c.assume(v not in (1, 2))
    c.raises("unknown convention (dense)", ValueError, lambda: dense(c, pc, k, v, 2))
    c.raises("unknown convention (csr)", ValueError, lambda: pc.set_ham_csr(k, v))
    empty = c.tb.PrimitiveCell()
    c.raises("no orbitals", exc.PCOrbEmptyError, lambda: dense(c, empty, k, 1, 0))
    empty.add_orbital((0.0, 0.0, 0.0), 1.0)
    c.raises("no hopping terms", exc.PCHopEmptyError, lambda: dense(c, empty, k, 1, 1))
    c.raises("no hopping terms (csr)", exc.PCHopEmptyError, lambda: empty.set_ham_csr(k, 1))


@case(quick=[dict(conv=1), dict(conv=2)])
def overlap(c, conv):
    """Overlap matrices: unit (or given) diagonal plus off-site terms, with the same phases."""
    pc, e, tau, ts = build_cell(c, 2, PAT[2], lattice(c, "tri"), 0.7)
    ov = c.tb.Overlap(pc)
    c.eq("lattice", ov.lat_vec, pc.lat_vec)
    s1 = c.real("s1")
    ov.set_onsite(1, s1)
    terms = []
    for n_, (rn, i, j) in enumerate([((0, 0, 0), 1, 0), ((1, 0, -1), 0, 1)]):
        t = c.cplx(f"s{n_}")
        ov.add_offsite(rn, i, j, t)
        terms.append((rn, i, j, t))
    ov.sync_array()
    k = c.vec3("k")
    ref = ref_ham(c, 2, [1, s1], tau, terms, k, conv)
    s = c.zeros((2, 2), "c16")
    ov.set_overlap_dense(k, s, conv)
    c.eq("dense", s, ref)
    c.eq("csr", ov.set_overlap_csr(k, conv).toarray(), ref)
    c.eq("model untouched", dense(c, pc, k, conv, 2), ref_ham(c, 2, e, tau, ts, k, conv))


@case(quick=[dict(conv=1), dict(conv=2)])
def solver_matrix(c, conv):
    """Bands and states of a two-orbital chain: E = e +- |f(k)|, at every k, from dense diagonalisation of H(k)."""
    t0, t1 = c.cplx("t0"), c.cplx("t1")
    e = c.real("e")
    x1 = c.real("x1")
    pc = c.tb.PrimitiveCell(c.np.eye(3), unit=1.0)
    pc.add_orbital((0, 0, 0), e)
    pc.add_orbital((x1, 0, 0), e)
    pc.add_hopping((0, 0, 0), 0, 1, t0)
    pc.add_hopping((1, 0, 0), 1, 0, t1)
    ks = c.mat("k", 2, 3)
    sys_, lev = [], []
    tau = [(0, 0, 0), (x1, 0, 0)]
    for i in range(2):
        h = ref_ham(c, 2, [e, e], tau, [((0, 0, 0), 0, 1, t0), ((1, 0, 0), 1, 0, t1)], ks[i], conv)
        f = h[0][1]
        a = c.sqrt(c.abs2(f))
        c.assume(a > 0.1)
        r = c.sqrt(c.num(1) / 2)
        lev.append((e - a, e + a))
        sys_.append((h, (e - a, e + a), [[r, r], [-r * c.conj(f) / a, r * c.conj(f) / a]]))
    c.eigen(sys_)
    bands = c.tb.DiagSolver(pc, echo_details=False).calc_bands(ks, conv)
    c.eq("bands in descending order", bands.bands, [[lev[i][1], lev[i][0]] for i in range(2)])
    b, s = c.tb.DiagSolver(pc, echo_details=False).calc_states(ks, conv)
    c.eq("energies of the states", b, lev)
    for i in range(2):
        h = sys_[i][0]
        f = h[0][1]
        a = c.sqrt(c.abs2(f))
        for n, sg in ((0, -1), (1, 1)):
            v = s[i][n]
            c.eq("projector on the state", [c.abs2(v[0]), c.abs2(v[1]), v[0] * c.conj(v[1])], [c.num(1) / 2, c.num(1) / 2, sg * f / (2 * a)])


class Matrix(dict):
    pass


@case(quick=[dict(conv=1), dict(conv=2)])
def printed(c, conv):
    """The Hamiltonian printed as formulas of ka, kb, kc, evaluated."""
    import re
    pc = c.tb.PrimitiveCell(unit=1.0)
    e = [c.real(f"e{i}") for i in range(3)]
    tau = [(0, 0, 0), (c.real("x", 0.1, 0.4), c.real("y", -0.4, -0.1), 0), (c.real("u", 0.45, 0.9), 1, 0)]
    for i in range(3):
        pc.add_orbital(tau[i], e[i])
    ts = []
    for m, (rn, i, j) in enumerate([((0, 0, 0), 0, 1), ((1, 0, 0), 0, 1), ((0, 1, 0), 0, 0), ((1, -1, 0), 1, 1), ((0, -1, 1), 2, 1), ((0, 0, 2), 2, 2)]):
        ts.append((rn, i, j, c.cplx(f"t{m}")))
        pc.add_hopping(*ts[-1])
    text = c.printed(lambda: pc.print_hk(conv))
    k = c.vec3("k")
    ham, names = Matrix(), {}

    def token(m):
        names["n_" + m.group(1)] = c.number(m.group(0))
        return "n_" + m.group(1)
    code = re.sub("~([0-9]+)~", token, text[:text.index("with ")])
    exec(code, dict(names, ham=ham, ka=k[0], kb=k[1], kc=k[2], exp_i=lambda x: c.cis(2 * c.pi * x)))
    ref = ref_ham(c, 3, e, tau, ts, k, conv)
    c.check("entries", set(ham) <= {(i, j) for i in range(3) for j in range(3)})
    c.eq("matrix", [[ham.get((i, j), 0) for j in range(3)] for i in range(3)], ref)
