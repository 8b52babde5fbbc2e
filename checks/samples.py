"""C09: a sample is the union of its super cells and the terms between them."""
from engine.run import case
from checks.lattice import lattice
from checks.supercell import Ref, same_terms

BOUNDS = ("one to three super cells of up to five cells each (with vacancies, added terms, modified positions, either boundary condition) and up to two sets "
          "of terms between them, in any argument order; lattice, positions, energies, hopping values, k-point symbolic")
OUTSIDE = "larger samples; several terms on one pair of orbitals; on-site energies below the documented cutoff of build_ham_dxy"


def parts(c, shape, kind="diag", pbc=None):
    """Reference parts of a sample; shape: number of super cells."""
    pb = (c.boolean("pbc") if pbc is None else pbc, False, False)
    rs = [Ref(c, "ladder", (3, 1, 1), pb, [(1, 0, 0, 1)] if shape != 1 else [], kind=kind)]
    if shape >= 2:
        rs.append(Ref(c, "chain", (4, 1, 1), (False, False, False), [(3, 0, 0, 0)], kind=kind, tag="k", modify=lambda i: [c.real(f"m{i}{x}") for x in range(3)]))
    if shape >= 3:
        rs.append(Ref(c, "molecule", (1, 1, 1), (False, False, False), [], kind=kind, tag="l"))
    return rs


INTER = {2: [(0, 1, [((0, 0, 0), 0, 1), ((1, 0, 0), 2, 0)])],
         3: [(1, 0, [((0, 0, 0), 2, 4), ((-1, 0), 0, 0)]), (0, 2, [((0, 0, 0), 3, 1)])]}


class Model:
    """Reference sample."""

    def __init__(self, c, rs, inter):
        self.c, self.rs = c, rs
        self.start, n = [], 0
        for r in rs:
            self.start.append(n)
            n += len(r.ids)
        self.n = n
        self.eng = [e for r in rs for e in r.eng]
        self.pos = [p for r in rs for p in r.pos]
        self.hop = {}
        for r, s in zip(rs, self.start):
            for (i, j), v in r.hop.items():
                self.hop[(i + s, j + s)] = v
        self.inter = inter
        for q, (a, b, terms) in enumerate(inter):
            for k, (rn, i, j) in enumerate(terms):
                rn = tuple(rn) + (0,) * (3 - len(rn))
                ra, rb = rs[a], rs[b]
                dr = [rb.pos[j][x] + sum(rn[y] * rb.slat[y][x] for y in range(3)) - ra.pos[i][x] for x in range(3)]
                self.hop[(i + self.start[a], j + self.start[b])] = (c.cplx(f"h{q}{k}"), dr)

    def build(self, scs=None, swap=False):
        c = self.c
        scs = scs or [r.super() for r in self.rs]
        hops = []
        for q, (a, b, terms) in enumerate(self.inter):
            h = c.tb.SCInterHopping(scs[a], scs[b])
            for k, (rn, i, j) in enumerate(terms):
                h.add_hopping(rn, i, j, c.cplx(f"h{q}{k}"))
            hops.append(h)
        args = hops[:1] + scs + hops[1:] if swap else scs + hops
        return c.tb.Sample(*args), scs, hops

    def ham(self, k=None):
        """Dense reference; k: Cartesian wave vector."""
        c = self.c
        h = [[0 * c.I for _ in range(self.n)] for _ in range(self.n)]
        for i in range(self.n):
            h[i][i] = h[i][i] + self.eng[i]
        for (i, j), (t, dr) in self.hop.items():
            f = t if k is None else t * c.cis(sum(k[x] * dr[x] for x in range(3)))
            h[i][j] = h[i][j] + f
            h[j][i] = h[j][i] + c.conj(f)
        return h

    def dxy(self, x):
        h = [[0 * self.c.num(1) for _ in range(self.n)] for _ in range(self.n)]
        for (i, j), (t, dr) in self.hop.items():
            h[i][j] = h[i][j] + dr[x]
            h[j][i] = h[j][i] - dr[x]
        return h


def arrays(c, tag, s, m):
    s.init_orb_eng()
    s.init_orb_pos()
    s.init_hop()
    c.check(f"{tag}: num_orb", s.num_orb == m.n)
    c.check(f"{tag}: num_hop", s.num_hop == len(m.hop))
    c.eq(f"{tag}: energies of orbitals", s.orb_eng, m.eng)
    c.eq(f"{tag}: positions of orbitals", s.orb_pos, m.pos)
    same_terms(c, tag, (s.hop_i, s.hop_j, s.hop_v, s.dr), m.hop)


def to_dense(c, n, indptr, indices, data, cplx=True):
    """Dense matrix of CSR arrays; entries listed twice are reported."""
    h = [[0 * c.I if cplx else 0 * c.num(1) for _ in range(n)] for _ in range(n)]
    ok = len(indptr) == n + 1 and int(indptr[0]) == 0 and int(indptr[n]) == len(indices) == len(data)
    seen = set()
    for i in range(n):
        for p in range(int(indptr[i]), int(indptr[i + 1])):
            j = int(indices[p])
            ok = ok and (i, j) not in seen and 0 <= j < n
            seen.add((i, j))
            h[i][j] = h[i][j] + data[p]
    return h, ok


def signs(c, rs):
    """On-site energies away from the cutoff of build_ham_dxy."""
    for q, r in enumerate(rs):
        r.e = [(1 if (i + q) % 2 else -1) * c.real(f"on{q}{i}", 0.5, 2) for i in range(r.n)]
        r.build()


@case(quick=[dict(shape=1), dict(shape=2), dict(shape=3)])
def union(c, shape):
    rs = parts(c, shape, "tri")
    m = Model(c, rs, INTER.get(shape, []))
    s, scs, hops = m.build(swap=shape > 1 and c.boolean("swap"))
    arrays(c, "sample", s, m)
    for r, sc in zip(rs, scs):
        same_terms(c, "super cell untouched", sc.get_hop(), r.hop)
    s.init_hop()
    s.reset_array()
    arrays(c, "after reset", s, m)
    r0 = rs[0]
    c.eq("area of the primitive cell", s.area_unit_cell, r0.lat[0][0] * r0.lat[1][1])
    c.eq("volume of the primitive cell", s.volume_unit_cell, r0.lat[0][0] * r0.lat[1][1] * r0.lat[2][2])
    c.check("orbitals of the primitive cell", s.nr_orbitals == r0.n)


@case(quick=[dict(shape=1), dict(shape=2), dict(shape=3)])
def operators(c, shape):
    """All constructions of the Hamiltonian and of the displacement operators agree."""
    rs = parts(c, shape, "diag")
    signs(c, rs)
    m = Model(c, rs, INTER.get(shape, []))
    s, _, _ = m.build()
    h = m.ham()
    c.eq("csr", s.build_ham_csr().toarray(), h)
    dx, dy = s.build_dxy_csr()
    c.eq("dx", dx.toarray(), m.dxy(0))
    c.eq("dy", dy.toarray(), m.dxy(1))
    for algo in ("fast", "safe"):
        for sort in (False, True):
            ptr, ind, hop, ax, ay = s.build_ham_dxy(algo=algo, sort_col=sort)
            tag = f"{algo}{' sorted' if sort else ''}"
            for nm, d, ref, cp in (("hamiltonian", hop, h, True), ("dx", ax, m.dxy(0), False), ("dy", ay, m.dxy(1), False)):
                got, ok = to_dense(c, m.n, ptr, ind, d, cp)
                c.check(f"{tag}: structure of {nm}", ok)
                c.eq(f"{tag}: {nm}", got, ref)
            if sort:
                c.check(f"{tag}: columns ascending", all(int(ind[p]) < int(ind[p + 1]) for i in range(m.n) for p in range(int(ptr[i]), int(ptr[i + 1]) - 1)))
    arrays(c, "untouched", s, m)


@case(quick=[dict(shape=1), dict(shape=2)], thorough=[dict(shape=3)])
def bloch(c, shape):
    """H(k) of the periodic sample: every term with the phase of its displacement."""
    rs = parts(c, shape, "diag", True)
    m = Model(c, rs, INTER.get(shape, []))
    s, _, _ = m.build()
    s.init_orb_eng()
    s.init_orb_pos()
    s.init_hop()
    kf = c.vec3("kf")
    k = [2 * c.pi * kf[x] / rs[0].slat[x][x] for x in range(3)]
    h = m.ham(k)
    d = c.zeros((m.n, m.n), "c16")
    s.set_ham_dense(kf, d)
    c.eq("dense", d, h)
    s.set_ham_dense(kf, d)
    c.eq("dense into a used buffer", d, h)
    c.eq("csr", s.set_ham_csr(kf).toarray(), h)
    c.raises("convention 2", ValueError, lambda: s.set_ham_dense(kf, d, 2))
    c.raises("convention 2 (csr)", ValueError, lambda: s.set_ham_csr(kf, 2))
    f = c.real("f", 0.5, 4)
    s.rescale_ham(f)
    s.set_ham_dense(kf, d)
    c.eq("dense of the rescaled sample", d, h)
    c.eq("csr of the rescaled sample", s.set_ham_csr(kf).toarray(), h)
    s.rescale_ham(1.0)
    s.set_k_point(kf)
    c.eq("k-point set for propagation", s.build_ham_csr().toarray(), h)


@case(quick=[dict(what=w) for w in ("pc", "vacancy", "hopping", "inter", "positions", "nothing read")])
def follows_edits(c, what):
    """Arrays of a sample follow edits of its parts once they are announced."""
    exc = c.mod("tbplas.builder.exceptions")
    rs = parts(c, 2, "diag", True)
    m = Model(c, rs, INTER[2])
    s, scs, hops = m.build()
    if what != "nothing read":
        arrays(c, "before", s, m)
    if what in ("pc", "nothing read"):
        pc = scs[0].prim_cell
        c.raises("locked cell", exc.LockError, lambda: pc.set_orbital(1, energy=1.0))
        pc.unlock()
        e, t = c.real("enew"), c.cplx("tnew")
        pc.set_orbital(1, energy=e)
        pc.add_hopping((1, 0, 0), 1, 0, t)
        pc.update()
        rs[0].e[1] = e
        rs[0].t[1] = t
        rs[0].build()
    elif what == "vacancy":
        c.raises("locked super cell", exc.LockError, lambda: scs[0].add_vacancy((2, 0, 0, 1)))
        scs[0].unlock()
        scs[0].add_vacancy((2, 0, 0, 1))
        scs[0].update()
        rs[0].vac.add((2, 0, 0, 1))
        rs[0].build()
        c.raises("locked again", exc.LockError, lambda: scs[0].add_vacancy((0, 0, 0, 1)))
    elif what == "hopping":
        scs[1].unlock()
        t = c.cplx("tnew")
        scs[1].add_hopping((0, 0, 0), 0, 2, t)
        scs[1].update()
        rs[1].add([0, 0, 0], 0, 2, t)
    elif what == "positions":
        scs[1].unlock()
        scs[1].set_orb_pos_modifier(None)
        scs[1].update()
        rs[1].modify = None
        rs[1].build()
    elif what == "inter":
        c.raises("locked terms", exc.LockError, lambda: hops[0].add_hopping((0, 0, 0), 1, 1, 1.0))
        hops[0].unlock()
        hops[0].add_hopping((0, 0, 0), 1, 1, c.cplx("h02"))
        hops[0].update()
        m.inter = [(0, 1, INTER[2][0][2] + [((0, 0, 0), 1, 1)])]
        c.raises("locked again", exc.LockError, lambda: hops[0].add_hopping((0, 0, 0), 1, 1, 1.0))
    arrays(c, "after", s, Model(c, rs, m.inter))


@case()
def refused(c):
    exc = c.mod("tbplas.builder.exceptions")
    rs = parts(c, 3, "diag", True)
    scs = [r.super() for r in rs]
    c.raises("empty sample", exc.SampleVoidError, lambda: c.tb.Sample())
    c.raises("wrong component", exc.SampleCompError, lambda: c.tb.Sample(scs[0], 1))
    h = c.tb.SCInterHopping(scs[0], scs[1])
    h.add_hopping((0, 0, 0), 0, 0, 1.0)
    c.raises("ket missing", exc.SampleClosureError, lambda: c.tb.Sample(scs[0], h))
    c.raises("bra missing", exc.SampleClosureError, lambda: c.tb.Sample(scs[1], h))
    s = c.tb.Sample(scs[0], scs[2], c.tb.SCInterHopping(scs[2], scs[0]))
    c.raises("no terms between", exc.InterHopVoidError, s.init_hop)
