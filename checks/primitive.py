"""C04: editing a primitive cell keeps orbitals, hopping terms and exported arrays in step."""
from engine.run import case
from checks.common import Hops, canon, check_cell_hops, combv
from checks.lattice import lattice

BOUNDS = ("cells of up to four orbitals, histories of up to three edits (thorough: four) with a read of all arrays between any of them; "
          "energies, positions, lattice vectors, origins and hopping values symbolic; every orbital index and removal set")
OUTSIDE = "negative (from the end) orbital indices, longer histories"


class Model:
    def __init__(self, c, lat, org):
        self.c, self.lat, self.org = c, lat, org
        self.pos, self.eng, self.lab = [], [], []
        self.hops = Hops(c)

    def remove(self, ids):
        keep = [i for i in range(len(self.eng)) if i not in ids]
        new = {o: n for n, o in enumerate(keep)}
        self.pos = [self.pos[i] for i in keep]
        self.eng = [self.eng[i] for i in keep]
        self.lab = [self.lab[i] for i in keep]
        old = self.hops.items()
        self.hops = Hops(self.c)
        for rn, i, j, t in old:
            if i in new and j in new:
                self.hops.set(rn, new[i], new[j], t)


def read(c, tag, pc, m, geometry=False):
    n = len(m.eng)
    c.check(f"{tag}: num_orb", pc.num_orb == n)
    if n:
        c.eq(f"{tag}: orb_pos", pc.orb_pos, m.pos)
        c.eq(f"{tag}: orb_eng", pc.orb_eng, m.eng)
    check_cell_hops(c, tag, pc, m.hops)
    for i in range(n):
        o = pc.get_orbital(i)
        c.eq(f"{tag}: get_orbital", list(o.position) + [o.energy], list(m.pos[i]) + [m.eng[i]])
        c.check(f"{tag}: label", o.label == m.lab[i])
    if geometry and n:
        cart = [combv(p, m.lat, m.org) for p in m.pos]
        c.eq(f"{tag}: orb_pos_nm", pc.orb_pos_nm, cart)
        c.eq(f"{tag}: orb_pos_ang", pc.orb_pos_ang, [[10 * x for x in p] for p in cart])
        ind = pc.hop_ind
        if len(ind):
            dr = [[m.pos[int(r[4])][x] + int(r[x]) - m.pos[int(r[3])][x] for x in range(3)] for r in ind]
            c.eq(f"{tag}: dr", pc.dr, dr)
            c.eq(f"{tag}: dr_nm", pc.dr_nm, [combv(d, m.lat) for d in dr])
            c.eq(f"{tag}: dr_ang", pc.dr_ang, [[10 * x for x in combv(d, m.lat)] for d in dr])


TERMS = [((0, 0, 0), 0, 1), ((1, 0, 0), 1, 0), ((0, 1, 0), 1, 1), ((0, 0, 0), 2, 1), ((0, 1, -1), 2, 0), ((1, 0, 0), 2, 2), ((0, 0, 1), 3, 2), ((0, 0, 0), 0, 3)]


def start(c, n, sym=True):
    pc = c.tb.PrimitiveCell(c.np.eye(3), unit=1.0)
    m = Model(c, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [0, 0, 0])
    for i in range(n):
        p = (c.real(f"x{i}"), c.num(i) / 4, 0.0) if sym else (c.num(i) / 4, 0.0, 0.0)
        e = c.real(f"e{i}")
        pc.add_orbital(p, e, label=f"L{i}")
        m.pos.append(list(p))
        m.eng.append(e)
        m.lab.append(f"L{i}")
    for k, (rn, i, j) in enumerate(TERMS):
        if i < n and j < n:
            t = c.cplx(f"t{k}")
            pc.add_hopping(rn, i, j, t)
            m.hops.set(rn, i, j, t)
    return pc, m


@case(quick=[dict(n=3, L=2)], thorough=[dict(n=2, L=3)], max_paths=40000, cost=5)
def history(c, n, L):
    """Any sequence of edits, with or without reading the arrays in between."""
    pc, m = start(c, n)
    if c.boolean("r"):
        read(c, "start", pc, m)
    exc = c.mod("tbplas.builder.exceptions")
    for s in range(L):
        op = c.conc(c.int(f"op{s}", 0, 7))
        no = len(m.eng)
        if op == 0:
            p, e = [c.real(f"ax{s}"), 0.5, 0.25], c.real(f"ae{s}")
            pc.add_orbital(tuple(p), e, "new")
            m.pos.append(p), m.eng.append(e), m.lab.append("new")
        elif op == 1 and no:
            i = c.conc(c.int(f"oi{s}", 0, no - 1))
            e = c.real(f"se{s}")
            pc.set_orbital(i, energy=e)
            m.eng[i] = e
        elif op == 2 and no:
            i = c.conc(c.int(f"oi{s}", 0, no - 1))
            p = [c.real(f"sx{s}"), c.real(f"sy{s}"), 0.0]
            pc.set_orbital(i, position=tuple(p[:2]))
            m.pos[i] = p
        elif op == 3 and no:
            i = c.conc(c.int(f"oi{s}", 0, no - 1))
            pc.remove_orbital(i)
            m.remove([i])
        elif op == 4 and no > 1:
            i = c.conc(c.int(f"hi{s}", 0, no - 1))
            j = (i + 1) % no
            t = c.cplx(f"h{s}")
            pc.add_hopping((0, 0, 0), i, j, t)
            m.hops.set((0, 0, 0), i, j, t)
        elif op == 5 and m.hops.d:
            k = sorted(m.hops.d)[c.conc(c.int(f"hk{s}", 0, len(m.hops.d) - 1))]
            pc.remove_hopping(k[0], k[1], k[2])
            m.hops.pop(*k)
        elif op == 6 and no > 1:
            pc.remove_orbitals([no - 1, 0])
            m.remove([0, no - 1])
        elif op == 7:
            c.raises("bad orbital index", exc.PCOrbIndexError, lambda: pc.set_orbital(no, energy=1.0))
            c.raises("bad orbital index (get)", exc.PCOrbIndexError, lambda: pc.get_orbital(no))
            c.raises("bad orbital index (remove)", exc.PCOrbIndexError, lambda: pc.remove_orbital(no))
        if s < L - 1 and c.boolean(f"r{s}"):
            read(c, "between", pc, m)
    read(c, "end", pc, m)


@case(quick=[dict(n=4)])
def removal(c, n):
    """Every set of removed orbitals, given in any order, with repetitions, as list, tuple or array."""
    pc, m = start(c, n, sym=False)
    mask = c.conc(c.int("mask", 0, 2 ** n - 1))
    ids = [i for i in range(n) if mask >> i & 1]
    form = c.conc(c.int("form", 0, 3))
    if form == 0:
        pc.remove_orbitals(ids)
    elif form == 1:
        pc.remove_orbitals(tuple(reversed(ids)))
    elif form == 2:
        pc.remove_orbitals(ids + ids[:1])
    else:
        pc.remove_orbitals(c.iarr(ids))
    m.remove(ids)
    read(c, "after removal", pc, m)


@case(quick=[dict(n=3)])
def rejected_removal(c, n):
    """A removal with an index out of range changes nothing."""
    exc = c.mod("tbplas.builder.exceptions")
    pc, m = start(c, n, sym=False)
    i = c.conc(c.int("i", 0, n - 1))
    bad = c.conc(c.int("bad", n, n + 2))
    c.raises("rejected", exc.PCOrbIndexError, lambda: pc.remove_orbitals([i, bad]))
    read(c, "unchanged", pc, m)


@case(quick=[dict(kind="tri")], thorough=[dict(kind="full")])
def units(c, kind):
    """Lattice, origin and Cartesian positions keep their physical meaning whatever the unit they are given in."""
    tb = c.tb
    a = lattice(c, kind)
    o = c.vec3("o")
    u, w = c.real("unit", 0.05, 2), c.real("unit2", 0.05, 2)
    pc = tb.PrimitiveCell(a, o, unit=u)
    m = Model(c, [[a[i][j] * u for j in range(3)] for i in range(3)], [o[x] * u for x in range(3)])
    c.eq("lattice vectors in nm", pc.lat_vec, m.lat)
    c.eq("origin in nm", pc.origin, m.org)
    p = c.vec3("p")
    pc.add_orbital_cart(tuple(p[x] for x in range(3)), unit=w, energy=c.real("e"), label="A")
    c.eq("Cartesian position of a new orbital", pc.orb_pos_nm, [[p[x] * w for x in range(3)]])
    c.eq("its energy", pc.orb_eng, [c.real("e")])
    c.check("its label", pc.get_orbital(0).label == "A")
    q = c.vec3("q")
    pc.set_orbital_cart(0, (q[0], q[1], q[2]), unit=w)
    c.eq("Cartesian position of a moved orbital", pc.orb_pos_nm, [[q[x] * w for x in range(3)]])
    c.eq("energy kept", pc.orb_eng, [c.real("e")])
    pc.set_orbital_cart(0, energy=c.real("e2"))
    c.eq("position kept", pc.orb_pos_nm, [[q[x] * w for x in range(3)]])
    c.eq("energy set", pc.orb_eng, [c.real("e2")])
    f = c.vec3("f")
    pc.add_orbital((f[0], f[1], f[2]))
    c.eq("fractional position", pc.orb_pos_nm[1], combv(f, m.lat, m.org))
    c.eq("in angstrom", pc.orb_pos_ang[1], [10 * x for x in combv(f, m.lat, m.org)])


@case()
def default_units(c):
    """The default unit of lattice vectors, origins and Cartesian positions is the angstrom (0.1 nm)."""
    a = lattice(c, "tri")
    o = c.vec3("o")
    pc = c.tb.PrimitiveCell(a, o)
    c.eq("lattice vectors", pc.lat_vec, [[a[i][j] / 10 for j in range(3)] for i in range(3)])
    c.eq("origin", pc.origin, [o[x] / 10 for x in range(3)])
    p = c.vec3("p")
    pc.add_orbital_cart((p[0], p[1]))
    c.eq("Cartesian position", pc.orb_pos_ang, [[p[0], p[1], 0]])
    c.eq("Cartesian position in nm", pc.orb_pos_nm, [[p[0] / 10, p[1] / 10, 0]])
    pc2 = c.tb.PrimitiveCell(a, o)
    pc2.add_orbital((0.0, 0.0), energy=1.0)
    b = lattice(c, "2d", "b")
    pc2.reset_lattice(b, p)
    c.eq("reset lattice", pc2.lat_vec, [[b[i][j] / 10 for j in range(3)] for i in range(3)])
    c.eq("reset origin", pc2.origin, [p[x] / 10 for x in range(3)])
    c.eq("orbital fixed in space", pc2.orb_pos_ang, [[o[x] for x in range(3)]])


@case()
def geometry(c):
    pc = c.tb.PrimitiveCell(lattice(c, "tri"), c.vec3("o"), unit=c.real("u", 0.1, 2))
    m = Model(c, pc.lat_vec, pc.origin)
    for i in range(2):
        p, e = c.reals(f"p{i}", 3), c.real(f"e{i}")
        pc.add_orbital(tuple(p), e)
        m.pos.append(p), m.eng.append(e), m.lab.append("X")
    for k, (rn, i, j) in enumerate([((1, -1, 0), 0, 1), ((-1, 0, 1), 0, 0), ((0, 0, 0), 1, 0)]):
        t = c.cplx(f"t{k}")
        pc.add_hopping(rn, i, j, t)
        m.hops.set(rn, i, j, t)
    read(c, "geometry", pc, m, geometry=True)
    pc.set_orbital(1, (0.0, 0.5, 0.25))
    m.pos[1] = [0, c.num(1) / 2, c.num(1) / 4]
    read(c, "after moving", pc, m, geometry=True)
    c.eq("area", pc.get_lattice_area("b"), c.tb.get_lattice_area(pc.lat_vec, "b"))
    c.eq("volume", pc.get_lattice_volume(), c.tb.get_lattice_volume(pc.lat_vec))
    c.eq("reciprocal", pc.get_reciprocal_vectors(), c.tb.gen_reciprocal_vectors(pc.lat_vec))


@case(quick=[dict(fix=True, kind="diag"), dict(fix=True, kind="tri", n=1), dict(fix=False, kind="tri")])
def reset_lattice(c, fix, kind, n=2):
    """Resetting lattice and origin keeps the orbitals fixed in space (or their fractional coordinates)."""
    a = lattice(c, kind)
    o = c.vec3("o")
    pc = c.tb.PrimitiveCell(a, o, unit=1.0)
    ps = [c.reals(f"p{i}", 3) for i in range(n)]
    e = c.reals("e", n)
    for i, (p, x) in enumerate(zip(ps, e)):
        pc.add_orbital(tuple(p), x, label=7 + i)
    t = c.cplx("t")
    pc.add_hopping((1, 0, 0), 0, n - 1, t)
    old = [combv(p, a, o) for p in ps]
    which = c.conc(c.int("which", 0, 2))
    b, q, u = lattice(c, kind, "b"), c.vec3("q"), c.real("u", 0.1, 2)
    kw = {}
    if which != 1:
        kw["lat_vec"] = b
    if which != 0:
        kw["origin"] = q
    nl = [[b[i][j] * u for j in range(3)] for i in range(3)] if which != 1 else a
    no = [q[x] * u for x in range(3)] if which != 0 else o
    if kind == "tri":
        c.assume(c.abs(combv(ps[0], nl, no)[2] - old[0][2]) > 0.001)
    pc.reset_lattice(unit=u, fix_orb=fix, **kw)
    c.eq("lattice", pc.lat_vec, nl)
    c.eq("origin", pc.origin, no)
    if fix:
        c.eq("Cartesian positions kept", pc.orb_pos_nm, old)
    else:
        c.eq("fractional positions kept", pc.orb_pos, ps)
    c.eq("energies kept", pc.orb_eng, e)
    h = Hops(c)
    h.set((1, 0, 0), 0, n - 1, t)
    check_cell_hops(c, "hopping kept", pc, h)
    c.check("labels kept", [pc.get_orbital(i).label for i in range(n)] == [7 + i for i in range(n)])


@case()
def locked(c):
    """A cell used by a super cell refuses every edit and stays as it is, until unlocked."""
    exc = c.mod("tbplas.builder.exceptions")
    pc, m = start(c, 3, sym=False)
    c.tb.SuperCell(pc, (3, 3, 3), (True, True, True))
    op = c.conc(c.int("op", 0, 11))
    t = c.cplx("tt")
    f = [lambda: pc.add_orbital((0, 0, 0), 1.0), lambda: pc.add_orbital_cart((0, 0, 0)), lambda: pc.set_orbital(0, energy=2.0),
         lambda: pc.set_orbital_cart(0, (1, 0, 0)), lambda: pc.remove_orbital(0), lambda: pc.remove_orbitals([0, 1]),
         lambda: pc.add_hopping((0, 0, 0), 0, 1, t), lambda: pc.remove_hopping((0, 0, 0), 0, 1), lambda: pc.trim(),
         lambda: pc.apply_pbc((False, False, False)), lambda: pc.reset_lattice(origin=[1.0, 0.0, 0.0]),
         lambda: pc.add_hopping_dict(c.tb.HopDict(3))][op]
    c.raises("edit of a locked cell", exc.LockError, f)
    read(c, "locked cell", pc, m, geometry=True)
    c.eq("origin", pc.origin, [0, 0, 0])
    pc.unlock()
    pc.set_orbital(1, energy=c.real("enew"))
    m.eng[1] = c.real("enew")
    read(c, "unlocked", pc, m)


@case()
def bad_arguments(c):
    exc = c.mod("tbplas.builder.exceptions")
    pc, m = start(c, 2)
    c.raises("position of length 1", exc.OrbPositionLenError, lambda: pc.add_orbital((0.0,)))
    c.raises("position of length 4", exc.OrbPositionLenError, lambda: pc.set_orbital(0, (0.0, 0.0, 0.0, 0.0)))
    c.raises("Cartesian position of length 1", exc.OrbPositionLenError, lambda: pc.add_orbital_cart((0.0,)))
    c.raises("lattice shape", exc.LatVecError, lambda: pc.reset_lattice([[1.0, 0.0], [0.0, 1.0]]))
    c.raises("origin shape", ValueError, lambda: pc.reset_lattice(origin=[0.0, 1.0]))
    c.raises("lattice shape (new)", exc.LatVecError, lambda: c.tb.PrimitiveCell([[1.0, 0.0], [0.0, 1.0]]))
    c.raises("pbc length", ValueError, lambda: pc.apply_pbc((True, True)))
    read(c, "unchanged", pc, m, geometry=True)
