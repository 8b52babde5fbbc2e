"""C15: dynamic polarisation, dielectric function and optical conductivity are the Lindhard and Kubo sums."""
import math
from engine.run import case
from checks.common import combv

BOUNDS = ("one- and two-band models, k-meshes of up to four points, up to two q-points and three frequencies; on-site energy, complex hopping values, orbital positions, "
          "frequencies, chemical potential, temperature, broadening, q (off the mesh) symbolic; Cython and Fortran kernels; 2d and 3d")
OUTSIDE = "more bands; the eigen-solver is taken to solve the matrix it is given; energy differences between 0 and 0.1"

LAT = [[1, 0, 0], [0.25, 1.5, 0], [0, 0, 2]]
TERMS = [((0, 0, 0), 0, 1), ((-1, 0, 0), 0, 1), ((0, -1, 0), 0, 0), ((0, 0, 1), 1, 0)]
ONE = [((1, 0, 0), 0, 0), ((0, 1, 0), 0, 0), ((1, -1, 1), 0, 0)]


def make(c, n, nt, ext, spread=True):
    """A cell whose Hamiltonian at each k-point is given by its (symbolic) eigenvalues and eigenvectors."""
    class Cell(c.tb.PrimitiveCell):
        def lookup(self, k):
            for kk, ent in self.table:
                d = [c.const(k[x] - kk[x]) for x in range(3)]
                if all(v is not None and abs(v - round(v)) < 1e-9 for v in d):
                    return ent
            c.check("the Hamiltonian is asked for at the k-points of the mesh only", False)
            return self.table[0][1]

        def set_ham_dense(self, k_point, ham_dense, convention=1):
            h = self.lookup(k_point)[0]
            for i in range(n):
                for j in range(n):
                    ham_dense[i, j] = h[i][j]

        def set_ham_csr(self, k_point, convention=1):
            raise NotImplementedError

    m = Model()
    m.c, m.n, m.lat, m.tab = c, n, LAT, []
    m.pc = Cell(c.farr(LAT), unit=1.0)
    m.pc.table = m.tab
    m.tau = [[c.real(f"p{i}x", 0, 1), c.num(i) / 4, (c.real(f"p{i}z", 0, 1) if spread else c.num(i) / 8)] for i in range(n)]
    for p in m.tau:
        m.pc.add_orbital(tuple(p), 0.0)
    m.ts = []
    for k, (rn, i, j) in enumerate((TERMS if n == 2 else ONE)[:nt]):
        t = c.cplx(f"t{k}", 1)
        m.pc.add_hopping(rn, i, j, t)
        m.ts.append((rn, i, j, t))
    m.pc.extended = ext
    m.pc.sync_array()
    return m


class Model:
    def add(self, tag, k):
        """Eigen-system at k: energies and one angle and phase of the eigenvectors."""
        c = self.c
        e = c.real(f"{tag}e0", -1, 1)
        if self.n == 1:
            ent = ([[e]], [e], [[1]])
        else:
            gap = c.real(f"{tag}g", 0.1, 1)
            th, ph = c.real(f"{tag}th", 0, 3), c.cis(c.real(f"{tag}ph", 0, 3))
            co, si = c.cos(th), c.sin(th)
            es = [e, e + gap]
            V = [[co, si], [-si * ph, co * ph]]
            H = [[sum((V[i][b] * es[b] * c.conj(V[j][b]) for b in range(2)), 0 * c.I) for j in range(2)] for i in range(2)]
            ent = (H, es, V)
        self.tab.append((k, ent))
        return ent

    def phase(self, k, rn, i, j):
        d = [rn[x] + self.tau[j][x] - self.tau[i][x] for x in range(3)]
        return self.c.cis(2 * self.c.pi * sum(k[x] * d[x] for x in range(3)))

    def velocity(self, k, x):
        """dH/dk_x (Cartesian) in the convention with positions."""
        c = self.c
        v = [[0 * c.I] * self.n for _ in range(self.n)]
        for rn, i, j, t in self.ts:
            d = combv([rn[y] + self.tau[j][y] - self.tau[i][y] for y in range(3)], self.lat)
            g = c.I * d[x] * t * self.phase(k, rn, i, j)
            v[i][j] = v[i][j] + g
            v[j][i] = v[j][i] + c.conj(g)
        return v


def mesh(c, size):
    return [((i, j, k), [c.num(i) / size[0], c.num(j) / size[1], c.num(k) / size[2]]) for i in range(size[0]) for j in range(size[1]) for k in range(size[2])]


def solver(c, m, size, dim, ns, fixT=False):
    p = dict(energy_min=c.real("w0", -1, 3), energy_max=c.real("w1", -1, 3), energy_step=ns, mu=c.real("mu", -1, 1), temperature=c.real("T", 2000, 30000), g_s=c.choose("gs", [1, 2]),
             dimension=dim, delta=c.real("delta", 0.1, 1))
    s = c.tb.Lindhard(m.pc, tuple(size), echo_details=False, **p)
    p["omegas"] = [p["energy_min"] + (p["energy_max"] - p["energy_min"]) * c.num(i) / ns for i in range(ns + 1)]
    return s, p


def fermi(c, p, e):
    kb = c.mod("tbplas.base.constants").KB
    return 1 / (1 + c.exp(1 / (kb * p["temperature"]) * (e - p["mu"])))


def measure(m, size, dim):
    a = m.lat[0][0] * m.lat[1][1] - m.lat[0][1] * m.lat[1][0]
    n = size[0] * size[1] * size[2]
    return n * a * (m.lat[2][2] if dim == 3 else 1)


def pol(c, m, p, k0, kq, q, w):
    """Contribution of one k-point: k0, kq are (H, e, V), q the Cartesian wave vector."""
    s = 0 * c.I
    pos = [combv(t, m.lat) for t in m.tau]
    ph = [c.cis(sum(q[x] * r[x] for x in range(3))) for r in pos]
    for j in range(m.n):
        for l in range(m.n):
            o = 0 * c.I
            for b in range(m.n):
                o = o + c.conj(kq[2][b][l]) * k0[2][b][j] * ph[b]
            s = s + o * c.conj(o) * (fermi(c, p, k0[1][j]) - fermi(c, p, kq[1][l])) / (k0[1][j] - kq[1][l] + w + c.I * p["delta"])
    return s


def cart(c, q, lat):
    """Cartesian components of the reciprocal-space point with fractional coordinates q (lattice of LAT form)."""
    (a, _, _), (b, d, _), (_, _, e) = lat
    z = 2 * c.pi
    return [z * q[0] / a, z * (q[1] - q[0] * b / a) / d, z * q[2] / e]


@case(quick=[dict(model=2, size=[2, 1, 1], q=[[1, 0, 0]], dim=2, nt=2, ftn=f) for f in (True, False)] +
      [dict(model=2, size=[1, 2, 1], q=[[0, -1, 0], [0, 0, 0]], dim=3, nt=3, ftn=f) for f in (True, False)] +
      [dict(model=1, size=[2, 2, 1], q=[[1, 1, 0], [3, -1, 0]], dim=2, nt=2, ftn=f) for f in (True, False)] +
      [dict(model=1, size=[1, 2, 2], q=[[0, 1, 3]], dim=3, nt=3, ftn=f) for f in (True, False)],
      thorough=[dict(model=2, size=[2, 2, 1], q=[[1, 0, 0], [1, 3, 0]], dim=2, nt=3, ftn=f) for f in (True, False)] +
      [dict(model=2, size=[1, 2, 2], q=[[0, 1, 1]], dim=3, nt=4, ftn=f) for f in (True, False)] +
      [dict(model=1, size=[4, 1, 1], q=[[1, 0, 0], [-2, 0, 0]], dim=3, nt=2, ftn=f) for f in (True, False)])
def regular(c, model, size, q, dim, nt, ftn):
    ext = c.num(2)
    m = make(c, model, nt, ext)
    ks = mesh(c, size)
    ent = {key: m.add(f"k{key[0]}{key[1]}{key[2]}", k) for key, k in ks}
    c.eigen([ent[key] for key, _ in ks])
    s, p = solver(c, m, size, dim, 1 if model == 2 else 2)
    om, dp = s.calc_dyn_pol_regular(c.iarr(q), use_fortran=ftn)
    c.eq("frequencies", om, p["omegas"])
    exp = []
    for qq in q:
        qc = cart(c, [c.num(qq[x]) / size[x] for x in range(3)], m.lat)
        row = []
        for w in p["omegas"]:
            t = 0 * c.I
            for key, k in ks:
                t = t + pol(c, m, p, ent[key], ent[tuple((key[x] + qq[x]) % size[x] for x in range(3))], qc, w)
            row.append(t * p["g_s"] / (measure(m, size, dim) * ext))
        exp.append(row)
    c.eq("dynamic polarisation", dp, exp)


@case(quick=[dict(model=2, size=[2, 1, 1], nq=1, dim=2, nt=2, ftn=f) for f in (True, False)] + [dict(model=1, size=[2, 1, 1], nq=2, dim=3, nt=2, ftn=f) for f in (True, False)] +
      [dict(model=1, size=[1, 2, 1], nq=1, dim=2, nt=3, ftn=f) for f in (True, False)],
      thorough=[dict(model=2, size=[2, 1, 1], nq=2, dim=3, nt=3, ftn=f) for f in (True, False)])
def arbitrary(c, model, size, nq, dim, nt, ftn):
    ext = c.num(3)
    m = make(c, model, nt, ext)
    ks = mesh(c, size)
    qf = [[c.real(f"q{i}{x}", -1, 1) for x in range(3)] for i in range(nq)]
    ent = {key: m.add(f"k{key[0]}{key[1]}{key[2]}", k) for key, k in ks}
    entq = {(i, key): m.add(f"q{i}{key[0]}{key[1]}{key[2]}", [k[x] + qf[i][x] for x in range(3)]) for i in range(nq) for key, k in ks}
    c.eigen(list(ent.values()) + list(entq.values()))
    s, p = solver(c, m, size, dim, 1)
    qc = [cart(c, qf[i], m.lat) for i in range(nq)]
    om, dp = s.calc_dyn_pol_arbitrary(c.farr(qc), use_fortran=ftn)
    c.eq("frequencies", om, p["omegas"])
    exp = []
    for i in range(nq):
        row = []
        for w in p["omegas"]:
            t = 0 * c.I
            for key, k in ks:
                t = t + pol(c, m, p, ent[key], entq[i, key], qc[i], w)
            row.append(t * p["g_s"] / (measure(m, size, dim) * ext))
        exp.append(row)
    c.eq("dynamic polarisation", dp, exp)


@case(quick=[dict(size=[2, 1, 1], comp=k, dim=d, nt=2, ftn=f) for k, d in (("xx", 2), ("xy", 3), ("yx", 2)) for f in (True, False)] +
      [dict(size=[1, 1, 2], comp="zy", dim=3, nt=4, ftn=f) for f in (True, False)],
      thorough=[dict(size=[2, 2, 1], comp=a + b, dim=3, nt=3, ftn=f) for a in "xyz" for b in "xyz" for f in (True, False)])
def conductivity(c, size, comp, dim, nt, ftn):
    ext = c.num(2)
    m = make(c, 2, nt, ext, False)
    ks = mesh(c, size)
    ent = {key: m.add(f"k{key[0]}{key[1]}{key[2]}", k) for key, k in ks}
    c.eigen([ent[key] for key, _ in ks])
    s, p = solver(c, m, size, dim, 1)
    om, ac = s.calc_ac_cond(component=comp, use_fortran=ftn)
    c.eq("frequencies", om, p["omegas"])
    exp = []
    for w in p["omegas"]:
        t = 0 * c.I
        for key, k in ks:
            _, e, V = ent[key]
            va, vb = (m.velocity(k, "xyz".index(x)) for x in comp)
            for a in range(2):
                b = 1 - a
                x = sum((c.conj(V[i][b]) * va[i][j] * V[j][a] for i in range(2) for j in range(2)), 0 * c.I)
                y = sum((c.conj(V[i][a]) * vb[i][j] * V[j][b] for i in range(2) for j in range(2)), 0 * c.I)
                t = t + x * y * (fermi(c, p, e[a]) - fermi(c, p, e[b])) / (e[a] - e[b]) / (e[a] - e[b] - w - c.I * p["delta"])
        exp.append(t * p["g_s"] * c.I / (measure(m, size, dim) * ext))
    c.eq("optical conductivity", ac, exp)


@case(quick=[dict(dim=2), dict(dim=3)])
def dielectric(c, dim):
    """Dielectric function from the polarisation and from the conductivity."""
    m = make(c, 1, 1, 1.0)
    be = c.real("be", 0.5, 3)
    s = c.tb.Lindhard(m.pc, (1, 1, 1), energy_max=1.0, energy_step=1, dimension=dim, back_epsilon=be, echo_details=False)
    eps0 = c.mod("tbplas.base.constants").EPSILON0
    q = c.mat("q", 2, 3)
    dp = c.cmat("dp", 2, 2)
    nrm = []
    for i in range(2):
        a = c.sqrt(q[i][0] * q[i][0] + q[i][1] * q[i][1] + q[i][2] * q[i][2])
        c.assume(a > 0.1)
        nrm.append(a)
    for tag, qq in (("array", q), ("list", [[q[i][x] for x in range(3)] for i in range(2)])):
        eps = s.calc_epsilon(qq, dp)
        exp = [[1 - (2 if dim == 2 else 4) * c.pi / (eps0 * be * (nrm[i] if dim == 2 else nrm[i] * nrm[i])) * dp[i][w] for w in range(2)] for i in range(2)]
        c.eq(f"dielectric function ({tag})", eps, exp)
    ac = c.carr(c.cplxs("ac", 2))
    om = c.farr([c.real("o0", 0.1, 2), c.real("o1", 0.1, 2)])
    if dim == 3:
        c.eq("q = 0", s.calc_epsilon_q0(om, ac), [1 + c.I * 4 * c.pi / (be * eps0) * ac[w] / om[w] for w in range(2)])
    else:
        c.raises("q = 0 in two dimensions", ValueError, lambda: s.calc_epsilon_q0(om, ac))


@case()
def coordinates(c):
    m = make(c, 1, 1, 1.0)
    size = (3, 2, 4)
    s = c.tb.Lindhard(m.pc, size, echo_details=False)
    f = c.mat("f", 2, 3)
    unit = c.choose("unit", [1.0, 0.1])
    ref = [[x * unit for x in cart(c, f[i], m.lat)] for i in range(2)]
    c.eq("frac2cart", s.frac2cart(f, unit=unit), ref)
    c.eq("cart2frac", s.cart2frac(c.farr(ref), unit=unit), f)
    g = [[c.int(f"g{i}{x}", -9, 9) for x in range(3)] for i in range(2)]
    c.eq("grid2frac", s.grid2frac(c.iarr(g)), [[g[i][x] / c.num(size[x]) for x in range(3)] for i in range(2)])
    c.eq("grid2cart", s.grid2cart(c.iarr(g), unit=unit), [[y * unit for y in cart(c, [g[i][x] / c.num(size[x]) for x in range(3)], m.lat)] for i in range(2)])


@case()
def wrapping(c):
    """Wrapping into the first cell changes coordinates by whole periods only."""
    m = make(c, 1, 1, 1.0)
    size = (3, 2, 4)
    s = c.tb.Lindhard(m.pc, size, echo_details=False)
    h = [[c.int("h0", -7, 9), c.int("h1", -3, 3), 0], [1, 2, c.int("h2", -6, 6)]]
    r = s.wrap_grid(c.iarr(h))
    for i in range(2):
        for x in range(3):
            d = h[i][x] - r[i][x]
            c.check("whole periods", d % size[x] == 0)
            c.check("inside", c.And(r[i][x] >= 0, r[i][x] < size[x]))
    f = c.farr([[c.real("u", -2.4, 2.4), 0.25, c.num(-1) / 2]])
    r = s.wrap_frac(f)
    for x in range(3):
        d = f[0][x] - r[0][x]
        c.check("whole cells", d == c.floor(d + 0.5))
        c.check("inside the cell", c.And(r[0][x] >= 0, r[0][x] < 1))
    c.eq("input untouched", f, [[c.real("u", -2.4, 2.4), 0.25, c.num(-1) / 2]])
