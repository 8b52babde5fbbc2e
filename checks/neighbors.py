"""C14: the neighbour search lists exactly the pairs within the cutoff, with correct vectors, sorted."""
from engine.run import case
from checks.common import combv

BOUNDS = ("cells of up to three orbitals, search ranges up to two cells in each direction (up to 25 cells), primitive cells and supercells, one or two cells; "
          "positions, origins, lattice constants or the cutoff symbolic (one to three symbolic coordinates per configuration)")
OUTSIDE = "separations closer than 1e-4 to the cutoff (rounding) or between zero and 1e-2"


def decide(c, label, res, pb, pk, lat, rng, cut, same):
    """pb, pk: Cartesian positions; every candidate is present exactly when it lies within the cutoff."""
    found = {}
    dup = False
    for t in res:
        key = (tuple(int(x) for x in t.rn), int(t.pair[0]), int(t.pair[1]))
        dup = dup or key in found
        found[key] = t
    c.check(label + ": every pair once", not dup)
    cand = []
    for a in range(-rng[0], rng[0] + 1):
        for b in range(-rng[1], rng[1] + 1):
            for d in range(-rng[2], rng[2] + 1):
                for i in range(len(pb)):
                    for j in range(len(pk)):
                        cand.append(((a, b, d), i, j))
    c.check(label + ": only pairs of the search range", all(k in cand for k in found))
    for rn, i, j in cand:
        if same and rn == (0, 0, 0) and i == j:
            c.check(label + ": an orbital is not its own neighbour", (rn, i, j) not in found)
            continue
        sh = combv(rn, lat)
        r = [pk[j][x] + sh[x] - pb[i][x] for x in range(3)]
        d2 = r[0] * r[0] + r[1] * r[1] + r[2] * r[2]
        t = found.get((rn, i, j))
        if t is None:
            c.check(label + ": missing pairs lie outside", d2 > cut * cut)
        else:
            c.check(label + ": listed pairs lie inside", d2 <= cut * cut)
            c.eq(label + ": rij", t.rij, r)
            c.eq(label + ": distance", t.distance * t.distance, d2)
            c.check(label + ": distance is positive", t.distance > 0)
    for k in range(len(res) - 1):
        c.check(label + ": sorted", res[k].distance <= res[k + 1].distance)


def away(c, pb, pk, lat, rng, cut, same):
    for a in range(-rng[0], rng[0] + 1):
        for b in range(-rng[1], rng[1] + 1):
            for d in range(-rng[2], rng[2] + 1):
                for i in range(len(pb)):
                    for j in range(len(pk)):
                        if same and (a, b, d) == (0, 0, 0) and i == j:
                            continue
                        sh = combv((a, b, d), lat)
                        r = [pk[j][x] + sh[x] - pb[i][x] for x in range(3)]
                        d2 = r[0] * r[0] + r[1] * r[1] + r[2] * r[2]
                        c.assume(c.Or(d2 < cut * cut - 1e-4, d2 > cut * cut + 1e-4))
                        c.assume(d2 > 1e-4)


def build(c, lat, fr, org=None):
    pc = c.tb.PrimitiveCell(lat, unit=1.0) if org is None else c.tb.PrimitiveCell(lat, org, unit=1.0)
    for p in fr:
        pc.add_orbital(tuple(p))
    if len(fr) > 1:
        pc.add_hopping((0, 0, 0), 0, 1, 1.0)
    else:
        pc.add_hopping((1, 0, 0), 0, 0, 1.0)
    return pc


H3 = [[1, 0, 0], [0.5, 0.875, 0], [0, 0, 2]]
CONF = dict(
    hex=dict(lat=H3, fr=[(0, 0, 0), (1 / 4, 1 / 4, 0)], rng=(1, 1, 0)),
    far=dict(lat=H3, fr=[(0.125, 0, 0)], rng=(2, 2, 0)),
    stack=dict(lat=[[1, 0.25, 0], [-0.5, 1.25, 0.125], [0.25, 0.5, 0.75]], fr=[(0, 0, 0), (0.5, 0.375, 0.25)], rng=(1, 0, 1)),
    cube=dict(lat=[[1, 0, 0], [0, 1.25, 0], [0, 0, 1.5]], fr=[(0, 0, 0)], rng=(1, 1, 1)))


@case(quick=[dict(g=k) for k in CONF], thorough=[dict(g=k, more=1) for k in CONF], max_paths=3000)
def cutoff(c, g, more=0):
    """Every cutoff radius."""
    cf = CONF[g]
    cut = c.real("R", 0.1, 2.5 + more)
    cart = [combv(p, cf["lat"]) for p in cf["fr"]]
    rng = tuple(r + (more if r else 0) for r in cf["rng"])
    away(c, cart, cart, cf["lat"], rng, cut, True)
    pc = build(c, c.farr(cf["lat"]), cf["fr"])
    res = c.tb.find_neighbors(pc, a_max=rng[0], b_max=rng[1], c_max=rng[2], max_distance=cut)
    decide(c, g, res, cart, cart, cf["lat"], rng, cut, True)


@case(quick=[dict(rng=[1, 0, 0], dim=1), dict(rng=[2, 0, 0], dim=1), dict(rng=[1, 0, 0], dim=2), dict(rng=[0, 0, 0], dim=3)],
      thorough=[dict(rng=[1, 1, 0], dim=1), dict(rng=[1, 1, 0], dim=2), dict(rng=[0, 1, 1], dim=2)], max_paths=20000)
def position(c, rng, dim):
    """Every position of the second orbital (dim symbolic coordinates)."""
    lat = [[1, 0, 0], [0.25, 1, 0], [0, 0.5, 1.25]]
    p = [c.real(x, -1, 1) if k < dim else c.num(1) / 8 for k, x in enumerate("xyz")]
    fr = [(0, 0, 0), tuple(p)]
    cart = [combv(q, lat) for q in fr]
    cut = c.num(9) / 8
    away(c, cart, cart, lat, rng, cut, True)
    pc = build(c, c.farr(lat), fr)
    res = c.tb.find_neighbors(pc, pc, rng[0], rng[1], rng[2], cut)
    decide(c, "position", res, cart, cart, lat, rng, cut, True)


@case(quick=[dict(rng=[1, 0, 0]), dict(rng=[0, 1, 0])], thorough=[dict(rng=[1, 1, 0])], max_paths=20000)
def layers(c, rng):
    """Two different cells: the second one shifted by a symbolic origin and with its own lattice."""
    la = [[1, 0, 0], [0, 1, 0], [0, 0, 3]]
    lb = [[1.25, 0.25, 0], [-0.25, 1, 0], [0, 0, 3]]
    fa = [(0, 0, 0), (0.5, 0.5, 0)]
    fb = [(0.25, 0, 0)]
    org = [c.real("ox", -1, 1), c.real("oy", -1, 1), c.num(1) / 4]
    A = [combv(p, la) for p in fa]
    B = [combv(p, lb, org) for p in fb]
    cut = c.num(5) / 4
    away(c, A, B, lb, rng, cut, False)
    a, b = build(c, c.farr(la), fa), build(c, c.farr(lb), fb, c.farr(org))
    res = c.tb.find_neighbors(a, b, a_max=rng[0], b_max=rng[1], c_max=rng[2], max_distance=cut)
    decide(c, "layers", res, A, B, lb, rng, cut, False)


@case(quick=[dict(dim=[2, 1, 1], rng=[0, 0, 0]), dict(dim=[1, 2, 1], rng=[1, 0, 0])], max_paths=5000)
def supercells(c, dim, rng):
    """Supercells (positions of all orbitals, lattice of the supercell), within one and between two."""
    lat = [[1, 0, 0], [0.25, 1, 0], [0, 0, 2]]
    fr = [(0, 0, 0), (0.5, 0.25, 0)]
    cut = c.real("R", 0.2, 2)
    pc = build(c, c.farr(lat), fr)
    sc = c.tb.SuperCell(pc, tuple(dim), pbc=(False, False, False))
    cells = [(i, j, k) for i in range(dim[0]) for j in range(dim[1]) for k in range(dim[2])]
    cart = [combv([f[x] + q[x] for x in range(3)], lat) for q in cells for f in fr]
    big = [[lat[i][x] * dim[i] for x in range(3)] for i in range(3)]
    away(c, cart, cart, big, rng, cut, True)
    res = c.tb.find_neighbors(sc, a_max=rng[0], b_max=rng[1], c_max=rng[2], max_distance=cut)
    decide(c, "supercell", res, cart, cart, big, rng, cut, True)


@case(quick=[dict(da=[2, 1, 1], db=[1, 1, 1], rng=[1, 0, 0]), dict(da=[1, 1, 1], db=[1, 2, 1], rng=[0, 1, 0])], thorough=[dict(da=[2, 1, 1], db=[1, 2, 1], rng=[1, 1, 0])], max_paths=5000)
def two_supercells(c, da, db, rng):
    """Two supercells of different sizes and models: images of the second one are shifted by its own lattice."""
    lat, lbt = [[1, 0, 0], [0.25, 1, 0], [0, 0, 2]], [[1.25, 0, 0], [0, 1.125, 0.25], [0.125, 0, 2.5]]
    cut = c.real("R", 0.2, 1.25)

    def grid(dim, l, fr):
        big = [[l[i][x] * dim[i] for x in range(3)] for i in range(3)]
        return big, [combv([f[x] + q[x] for x in range(3)], l) for q in [(i, j, k) for i in range(dim[0]) for j in range(dim[1]) for k in range(dim[2])] for f in fr]
    fa, fb = [(0, 0, 0), (0.5, 0.25, 0)], [(0.125, 0.25, 0.25), (0.5, 0.5, 0.5)]
    A, B = grid(da, lat, fa)[1], grid(db, lbt, fb)[1]
    big = grid(db, lbt, fb)[0]
    away(c, A, B, big, rng, cut, False)
    sa = c.tb.SuperCell(build(c, c.farr(lat), fa), tuple(da), pbc=(False, False, False))
    sb = c.tb.SuperCell(build(c, c.farr(lbt), fb), tuple(db), pbc=(False, False, False))
    res = c.tb.find_neighbors(sa, sb, a_max=rng[0], b_max=rng[1], c_max=rng[2], max_distance=cut)
    decide(c, "two supercells", res, A, B, big, rng, cut, False)
