"""C08: orbitals and hopping terms of a super cell."""
from engine.run import case
from checks.common import combv
from checks.lattice import lattice
from checks.superindex import order

BOUNDS = ("super cells of up to 5x3x1 / 3x3x2 cells of up to three orbitals with fixed hopping patterns, every choice of periodic directions and every set "
          "of up to one vacancy (thorough: two) or one modification; lattice, origin, positions, energies and hopping values symbolic")
OUTSIDE = "larger cells; modifications that name an existing pair with a different cell index"

PAT = {"chain": (1, [((1, 0, 0), 0, 0)]),
       "chain2": (1, [((2, 0, 0), 0, 0), ((-1, 0, 0), 0, 0)]),
       "ladder": (2, [((0, 0, 0), 0, 1), ((1, 0, 0), 1, 0), ((1, 0, 0), 1, 1)]),
       "square": (2, [((0, 0, 0), 1, 0), ((1, 0, 0), 0, 0), ((1, -1, 0), 0, 1), ((0, 1, 0), 1, 1)]),
       "cubic": (1, [((1, 0, 0), 0, 0), ((0, 1, 0), 0, 0), ((1, 0, -1), 0, 0)]),
       "three": (3, [((0, 0, 0), 0, 2), ((0, 0, 0), 1, 2), ((1, 0, 0), 2, 0), ((0, 1, 0), 1, 0)]),
       "molecule": (2, [((0, 0, 0), 0, 1)])}


class Ref:
    """Reference super cell: orbitals in order, {(i, j): (value, dr)} with each pair once."""

    def __init__(self, c, pat, dim, pbc, vac, modify=None, kind="tri", tag=""):
        self.c, self.dim, self.vac = c, dim, set(vac)
        n, terms = PAT[pat]
        self.n = n
        self.lat = lattice(c, kind, tag + "a")
        self.org = c.vec3(tag + "o")
        self.e = [c.real(f"{tag}e{i}") for i in range(n)]
        self.tau = [[c.real(f"{tag}p{i}{x}") for x in range(3)] for i in range(n)]
        self.t = [c.cplx(f"{tag}t{k}") for k in range(len(terms))]
        self.terms = terms
        self.pbc = pbc
        self.modify = modify
        self.build()

    def build(self):
        dim = self.dim
        self.ids = order(dim, self.n, self.vac)
        self.num = {p: i for i, p in enumerate(self.ids)}
        self.pos = [combv([p[x] + self.tau[p[3]][x] for x in range(3)], self.lat, self.org) for p in self.ids]
        if self.modify is not None:
            for i in range(len(self.pos)):
                self.pos[i] = [self.pos[i][x] + self.modify(i)[x] for x in range(3)]
        self.eng = [self.e[p[3]] for p in self.ids]
        self.slat = [[self.lat[i][x] * dim[i] for x in range(3)] for i in range(3)]
        self.hop = {}
        for a in range(dim[0]):
            for b in range(dim[1]):
                for d in range(dim[2]):
                    for k, (rn, i, j) in enumerate(self.terms):
                        tgt = [a + rn[0], b + rn[1], d + rn[2]]
                        im = [tgt[x] // dim[x] for x in range(3)]
                        if any(im[x] and not self.pbc[x] for x in range(3)):
                            continue
                        p = (a, b, d, i)
                        q = tuple(tgt[x] % dim[x] for x in range(3)) + (j,)
                        if p in self.num and q in self.num:
                            self.add(im, self.num[p], self.num[q], self.t[k])

    def add(self, im, i, j, t):
        dr = [self.pos[j][x] - self.pos[i][x] + im[0] * self.slat[0][x] + im[1] * self.slat[1][x] + im[2] * self.slat[2][x] for x in range(3)]
        assert (j, i) not in self.hop or i == j
        self.hop[(i, j)] = (t, dr)

    def prim(self):
        c = self.c
        pc = c.tb.PrimitiveCell(self.lat, self.org, unit=1.0)
        for i in range(self.n):
            pc.add_orbital(tuple(self.tau[i]), self.e[i])
        for k, (rn, i, j) in enumerate(self.terms):
            pc.add_hopping(rn, i, j, self.t[k])
        return pc

    def super(self, **kw):
        c = self.c
        f = None
        if self.modify is not None:
            def f(pos):
                for i in range(len(pos)):
                    for x in range(3):
                        pos[i, x] = pos[i, x] + self.modify(i)[x]
        return c.tb.SuperCell(self.prim(), self.dim, pbc=self.pbc, vacancies=sorted(self.vac) or None, orb_pos_modifier=f)


def same_terms(c, tag, got, exp):
    """got = (hop_i, hop_j, hop_v, dr); exp = {(i, j): (t, dr)}, pairs up to reversal."""
    hi, hj, hv, dr = got
    c.check(f"{tag}: lengths", len(hi) == len(hj) == len(hv) == len(dr))
    c.check(f"{tag}: integer indices", hi.dtype.kind == "i" and hj.dtype.kind == "i")
    d, once = {}, True
    for n in range(len(hi)):
        i, j = int(hi[n]), int(hj[n])
        v, r = hv[n], [dr[n][x] for x in range(3)]
        if (i, j) not in exp and (j, i) in exp:
            i, j, v, r = j, i, c.conj(v), [-x for x in r]
        once = once and (i, j) not in d
        d[(i, j)] = (v, r)
    c.check(f"{tag}: each term once", once)
    ok = sorted(d) == sorted(exp)
    c.check(f"{tag}: exactly the terms", ok)
    if ok:
        c.eq(f"{tag}: energies", [d[k][0] for k in sorted(exp)], [exp[k][0] for k in sorted(exp)])
        c.eq(f"{tag}: displacements", [d[k][1] for k in sorted(exp)], [exp[k][1] for k in sorted(exp)])


def verify(c, tag, s, r):
    c.check(f"{tag}: number of orbitals", s.num_orb_sc == len(r.ids))
    c.eq(f"{tag}: energies", s.get_orb_eng(), r.eng)
    if r.ids:
        c.eq(f"{tag}: positions", s.get_orb_pos(), r.pos)
    same_terms(c, tag, s.get_hop(), r.hop)


def pbcs(c, dim):
    return tuple(c.boolean(f"pbc{x}") if dim[x] > 1 else False for x in range(3))


@case(quick=[dict(pat="chain", dim=(3, 1, 1)), dict(pat="chain2", dim=(5, 1, 1)), dict(pat="ladder", dim=(3, 1, 1)), dict(pat="square", dim=(3, 3, 1)),
             dict(pat="three", dim=(3, 3, 1)), dict(pat="cubic", dim=(3, 3, 3))],
      thorough=[dict(pat="square", dim=(4, 5, 1)), dict(pat="cubic", dim=(4, 3, 3)), dict(pat="ladder", dim=(4, 2, 3))])
def tiled(c, pat, dim):
    """Without vacancies, every combination of periodic directions."""
    dim = tuple(dim)
    r = Ref(c, pat, dim, pbcs(c, dim), [])
    verify(c, "tiled", r.super(), r)


@case(quick=[dict(pat="chain2", dim=(5, 1, 1), k=2), dict(pat="ladder", dim=(3, 1, 1), k=2), dict(pat="square", dim=(3, 3, 1), k=1), dict(pat="cubic", dim=(3, 3, 3), k=1)],
      thorough=[dict(pat="square", dim=(3, 3, 1), k=2), dict(pat="three", dim=(3, 3, 1), k=1)], max_paths=40000, cost=3)
def vacant(c, pat, dim, k):
    """Every set of k vacancies, every combination of periodic directions."""
    dim = tuple(dim)
    al = order(dim, PAT[pat][0])
    vac, lo = [], 0
    for i in range(k):
        v = c.conc(c.int(f"v{i}", lo, len(al) - k + i))
        vac.append(al[v])
        lo = v + 1
    r = Ref(c, pat, dim, pbcs(c, dim), vac)
    verify(c, "vacant", r.super(), r)


@case(quick=[dict(vac=0), dict(vac=1)])
def position_modifier(c, vac):
    """Displacements follow modified positions."""
    r = Ref(c, "ladder", (3, 1, 1), pbcs(c, (3, 1, 1)), [(1, 0, 0, 0)] if vac else [], modify=lambda i: [c.real(f"m{i}{x}") for x in range(3)])
    s = r.super()
    verify(c, "modified positions", s, r)
    s.set_orb_pos_modifier(None)
    r.modify = None
    r.build()
    verify(c, "modifier removed", s, r)


@case(quick=[dict(vac=0), dict(vac=1)], max_paths=20000)
def modified(c, vac):
    """One added term: overwrites the existing pair in either direction or is appended."""
    r = Ref(c, "ladder", (3, 1, 1), (False, False, False), [(2, 0, 0, 0)] if vac else [])
    s = r.super()
    n = len(r.ids)
    i, j = c.conc(c.int("i", 0, n - 1)), c.conc(c.int("j", 0, n - 1))
    ex = (i, j) in r.hop or (j, i) in r.hop
    x = 0 if ex else c.conc(c.int("x", -1, 1))
    t = c.cplx("tm")
    exc = c.mod("tbplas.builder.exceptions")
    c.raises("no such ket", exc.SCOrbIndexError, lambda: s.add_hopping((0, 0, 0), i, n, t))
    c.raises("no such bra", exc.SCOrbIndexError, lambda: s.add_hopping((0, 0, 0), n, j, t))
    if i == j and x == 0:
        c.raises("on-site term", exc.SCHopDiagonalError, lambda: s.add_hopping((0, 0, 0), i, j, t))
    else:
        s.add_hopping((x, 0, 0), i, j, t)
        r.hop.pop((j, i), None)
        if i == j and x < 0:
            r.add([-x, 0, 0], i, j, c.conj(t))
        else:
            r.add([x, 0, 0], i, j, t)
    verify(c, "modified", s, r)


@case()
def modified_twice(c):
    """Several added terms: new ones, overwritten ones, and a term written again."""
    r = Ref(c, "ladder", (3, 1, 1), (c.boolean("pbc"), False, False), [])
    s = r.super()
    t = [c.cplx(f"m{k}") for k in range(4)]
    s.add_hopping((0, 0), 0, 1, t[0])
    s.add_hopping((0, 0, 0), 4, 0, t[1])
    s.add_hopping((0, 0, 0), 1, 0, t[2])
    s.add_hopping((0, 1, 0), 2, 2, t[3])
    for k in ((0, 4), (4, 0), (0, 1), (1, 0)):
        r.hop.pop(k, None)
    r.add([0, 0, 0], 1, 0, t[2])
    r.add([0, 0, 0], 4, 0, t[1])
    r.add([0, 1, 0], 2, 2, t[3])
    verify(c, "modified twice", s, r)
    exc = c.mod("tbplas.builder.exceptions")
    n = len(r.ids)
    c.raises("bra out of range", exc.SCOrbIndexError, lambda: s.add_hopping((0, 0, 0), n, 0, t[0]))
    c.raises("ket out of range", exc.SCOrbIndexError, lambda: s.add_hopping((0, 0, 0), 0, n, t[0]))
    c.raises("negative ket", exc.SCOrbIndexError, lambda: s.add_hopping((0, 0, 0), 0, -1, t[0]))
    c.raises("cell index", exc.CellIndexLenError, lambda: s.add_hopping((0,), 0, 1, t[0]))
    s.add_subscriber("x", s)
    s.lock("x")
    c.raises("locked", exc.LockError, lambda: s.add_hopping((0, 0, 0), 0, 1, t[0]))
    c.raises("locked vacancies", exc.LockError, lambda: s.add_vacancy((0, 0, 0, 0)))
    c.raises("locked reset of vacancies", exc.LockError, lambda: s.set_vacancies([(0, 0, 0, 0)]))
    c.raises("locked positions", exc.LockError, lambda: s.set_orb_pos_modifier(None))
    c.raises("locked trim", exc.LockError, s.trim)
    verify(c, "after refused edits", s, r)


@case(quick=[dict(pat="ladder", dim=(3, 1, 1), k=1), dict(pat="square", dim=(3, 3, 1), k=1), dict(pat="molecule", dim=(2, 1, 1), k=0)], thorough=[dict(pat="ladder", dim=(4, 1, 1), k=2)],
      max_paths=20000)
def trimmed(c, pat, dim, k):
    """trim removes exactly the orbitals with at most one hopping term."""
    dim = tuple(dim)
    al = order(dim, PAT[pat][0])
    vac, lo = [], 0
    for i in range(k):
        v = c.conc(c.int(f"v{i}", lo, len(al) - k + i))
        vac.append(al[v])
        lo = v + 1
    r = Ref(c, pat, dim, pbcs(c, dim), vac)
    s = r.super()
    cnt = [0] * len(r.ids)
    for i, j in r.hop:
        cnt[i] += 1
        cnt[j] += 1
    gone = [r.ids[i] for i in range(len(r.ids)) if cnt[i] <= 1]
    s.trim()
    r.vac |= set(gone)
    r.build()
    verify(c, "trimmed", s, r)


@case()
def trimmed_modified(c):
    """Added terms follow the renumbering of trim, and keep orbitals alive."""
    r = Ref(c, "chain", (4, 1, 1), (False, False, False), [])
    s = r.super()
    t = c.cplx("tm")
    w = c.choose("where", [(0, 3), (1, 3), (3, 1), (0, 2), (2, 1)])
    s.add_hopping((0, 0, 0), w[0], w[1], t)
    cnt = [0] * 4
    pairs = set(frozenset(k) for k in r.hop) | {frozenset(w)}
    for p in pairs:
        for x in p:
            cnt[x] += 1
    gone = [i for i in range(4) if cnt[i] <= 1]
    s.trim()
    r.vac |= set((i, 0, 0, 0) for i in gone)
    r.build()
    keep = [i for i in range(4) if i not in gone]
    if w[0] in keep and w[1] in keep:
        i, j = keep.index(w[0]), keep.index(w[1])
        r.hop.pop((j, i), None)
        r.add([0, 0, 0], i, j, t)
    verify(c, "trimmed", s, r)


@case(quick=[dict(n=6), dict(n=5)], thorough=[])
def trimmed_several(c, n):
    """Added terms of several trimmed orbitals go with them and the others follow the renumbering."""
    vac = [(2, 0, 0, 0)]
    r = Ref(c, "chain", (n, 1, 1), (False, False, False), vac)
    s = r.super()
    ids = list(r.ids)
    m = n - 1
    # cells 0-1 and 3-4(-5) are connected; a ring through the added terms keeps some of them alive
    adds = [(1, m - 1, c.cplx("ta")), (0, 2, c.cplx("tb"))] if c.boolean("ring") else [(m - 1, 0, c.cplx("ta"))]
    for i, j, t in adds:
        s.add_hopping((0, 0, 0), i, j, t)
    cnt = [0] * m
    for p in set(frozenset(k) for k in r.hop) | {frozenset(a[:2]) for a in adds}:
        for x in p:
            cnt[x] += 1
    gone = [i for i in range(m) if cnt[i] <= 1]
    s.trim()
    r.vac |= set(ids[i] for i in gone)
    r.build()
    keep = [i for i in range(m) if i not in gone]
    for i, j, t in adds:
        if i in keep and j in keep:
            a, b = keep.index(i), keep.index(j)
            r.hop.pop((b, a), None)
            r.add([0, 0, 0], a, b, t)
    verify(c, "trimmed", s, r)


@case()
def geometry(c):
    dim = tuple(c.conc(c.int(f"d{x}", 1, 3)) for x in range(3))
    c.assume(dim[0] == 3)
    r = Ref(c, "chain", dim, (True, False, True), [], kind="tri")
    s = r.super()
    c.eq("sc_lat_vec", s.sc_lat_vec, r.slat)
    c.eq("pc_lat_vec", s.pc_lat_vec, r.lat)
    c.eq("volume", s.get_lattice_volume(), r.slat[0][0] * r.slat[1][1] * r.slat[2][2])
    c.eq("area", s.get_lattice_area(), r.slat[0][0] * r.slat[1][1])
    b = s.get_reciprocal_vectors()
    c.eq("reciprocal", [[sum(r.slat[i][x] * b[j][x] for x in range(3)) for j in range(3)] for i in range(3)], [[2 * c.pi if i == j else 0 for j in range(3)] for i in range(3)])
    c.eq("primitive vectors untouched", s.prim_cell.lat_vec, r.lat)


@case(quick=[dict(m=0), dict(m=1)])
def inter(c, m):
    """Terms between two super cells: listed as added, displaced to the ket image."""
    r1 = Ref(c, "ladder", (3, 1, 1), (True, False, False), [(0, 0, 0, 1)])
    r2 = Ref(c, "chain", (4, 1, 1), (False, False, False), [(2, 0, 0, 0)], tag="k", modify=(lambda i: [c.real(f"m{i}{x}") for x in range(3)]) if m else None)
    s1, s2 = r1.super(), r2.super()
    h = c.tb.SCInterHopping(s1, s2)
    exc = c.mod("tbplas.builder.exceptions")
    c.raises("no terms", exc.InterHopVoidError, h.get_hop)
    n1, n2 = len(r1.ids), len(r2.ids)
    add = [((0, 0, 0), 0, 1), ((0, 0, 0), 1, 0), ((-1, 0), 3, 2), ((0, 2, 1), n1 - 1, n2 - 1)]
    exp = []
    for k, (rn, i, j) in enumerate(add):
        t = c.cplx(f"h{k}")
        h.add_hopping(rn, i, j, t)
        rn = tuple(rn) + (0,) * (3 - len(rn))
        exp.append((rn, i, j, t, [r2.pos[j][x] + sum(rn[y] * r2.slat[y][x] for y in range(3)) - r1.pos[i][x] for x in range(3)]))
    hi, hj, hv, dr = h.get_hop()
    got = sorted((int(hi[n]), int(hj[n]), n) for n in range(len(hi)))
    ref = sorted((e[1], e[2], n) for n, e in enumerate(exp))
    c.check("pairs", [g[:2] for g in got] == [x[:2] for x in ref])
    c.eq("energies", [hv[g[2]] for g in got], [exp[x[2]][3] for x in ref])
    c.eq("displacements", [dr[g[2]] for g in got], [exp[x[2]][4] for x in ref])
    h.get_hop(check_dup=True)
    h.add_hopping((1, 0, 0), 0, 1, c.cplx("dup"))
    c.raises("duplicate pair", ValueError, lambda: h.get_hop(check_dup=True))
    c.check("number of terms", h.num_hop == 5)
