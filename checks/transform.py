"""C06: extending, reshaping, merging, trimming, opening, re-latticing and rotating cells keep the model."""
import itertools
import math
from engine.run import case
from checks.common import Hops, check_cell_hops, combv
from checks.hamiltonian import PAT
from checks.lattice import lattice

BOUNDS = ("cells of up to three orbitals and seven terms; extension up to six cells, reshaping matrices up to |det| = 6 (thorough: 12) with integer "
          "entries in {-3..3}; merging of up to three cells; trimming of every bond graph over the candidate bonds; on-site energies, hopping values, positions, "
          "lattice vectors, origins, rotation angle, centre and shift symbolic")
OUTSIDE = "orbitals closer than 1e-4 to the tolerance boundary of reshape_prim_cell (fractional coordinate -delta), larger cells"

A3 = [[1, 0, 0], [0.25, 1.5, 0], [-0.5, 0.125, 2]]


def inv3(m):
    """Adjugate and determinant of an integer matrix."""
    cof = [[(m[(i + 1) % 3][(j + 1) % 3] * m[(i + 2) % 3][(j + 2) % 3] - m[(i + 1) % 3][(j + 2) % 3] * m[(i + 2) % 3][(j + 1) % 3]) for j in range(3)] for i in range(3)]
    det = sum(m[0][j] * cof[0][j] for j in range(3))
    return [[cof[j][i] for j in range(3)] for i in range(3)], det


def divide(r, m):
    """n with n.m == r if it is integer, else None."""
    adj, det = inv3(m)
    v = [sum(r[i] * adj[i][j] for i in range(3)) for j in range(3)]
    return None if any(x % det for x in v) else tuple(x // det for x in v)


def images(c, label, pc, m, tau, eng, ts, n_exp=None):
    """Decides that pc is the model (tau, eng, ts) on the superlattice with integer basis m."""
    n = len(tau)
    _, det = inv3(m)
    c.check(label + ": number of orbitals", pc.num_orb == abs(det) * n)
    where = []
    for s in range(pc.num_orb):
        o = pc.get_orbital(s)
        c.check(label + ": label", o.label in [f"L{i}" for i in range(n)])
        if o.label not in [f"L{i}" for i in range(n)]:
            return
        i = int(o.label[1:])
        x = [o.position[0] * m[0][k] + o.position[1] * m[1][k] + o.position[2] * m[2][k] - tau[i][k] for k in range(3)]
        r = tuple(int(c.conc(c.floor(v + 0.5))) for v in x)
        c.eq(label + ": position is an image", x, list(r))
        c.eq(label + ": energy", o.energy, eng[i])
        where.append((r, i))
    dist = all(not (where[a][1] == where[b][1] and divide([where[a][0][k] - where[b][0][k] for k in range(3)], m) is not None)
               for a in range(len(where)) for b in range(a))
    c.check(label + ": images are distinct", dist)
    if not dist or len(where) != abs(det) * n:
        return
    exp = Hops(c)
    for s, (r, i) in enumerate(where):
        for rn, a, b, t in ts:
            if a != i:
                continue
            tgt = [r[k] + rn[k] for k in range(3)]
            for s2, (r2, j) in enumerate(where):
                if j == b:
                    d = divide([tgt[k] - r2[k] for k in range(3)], m)
                    if d is not None:
                        exp.set(d, s, s2, t)
    check_cell_hops(c, label, pc, exp)
    c.eq(label + ": arrays", [list(pc.orb_pos[s]) + [pc.orb_eng[s]] for s in range(pc.num_orb)],
         [list(pc.get_orbital(s).position) + [pc.get_orbital(s).energy] for s in range(pc.num_orb)])


def cell(c, n, terms, lat, org=None, tau=None, tag="", unit=1.0):
    pc = c.tb.PrimitiveCell(lat, unit=unit) if org is None else c.tb.PrimitiveCell(lat, org, unit=unit)
    eng, ts = [], []
    tau = tau or [tuple(c.real(f"{tag}p{i}{x}") for x in "xyz") for i in range(n)]
    for i in range(n):
        e = c.real(f"{tag}e{i}")
        pc.add_orbital(tau[i], e, label=f"{tag}L{i}")
        eng.append(e)
    for k, (rn, i, j) in enumerate(terms):
        t = c.cplx(f"{tag}t{k}")
        pc.add_hopping(tuple(rn), i, j, t)
        ts.append((tuple(rn), i, j, t))
    return pc, tau, eng, ts


FAR = [((0, 0, 0), 0, 1), ((3, -2, 1), 0, 1), ((-2, 0, 0), 1, 1), ((2, 3, -1), 1, 0)]


@case(quick=[dict(dim=d, n=n) for d in ([1, 1, 1], [2, 1, 1], [1, 3, 1], [1, 1, 2], [2, 3, 1], [1, 2, 2]) for n in (2,)] + [dict(dim=[2, 1, 2], n=3)],
      thorough=[dict(dim=d, n=n) for d in ([3, 2, 2], [4, 1, 3], [2, 2, 3]) for n in (1, 2, 3)])
def extend(c, dim, n):
    for name, terms in (("short", PAT[n]), ("far", FAR)):
        if name == "far" and n != 2:
            continue
        lat, org = lattice(c, "tri"), c.vec3("o")
        pc, tau, eng, ts = cell(c, n, terms, lat, org)
        ext = c.real("ext", 0.5, 3)
        pc.extended = ext
        big = c.tb.extend_prim_cell(pc, tuple(dim))
        images(c, name, big, [[dim[0], 0, 0], [0, dim[1], 0], [0, 0, dim[2]]], tau, eng, ts)
        c.eq(name + ": lattice", big.lat_vec, [[lat[i][x] * dim[i] for x in range(3)] for i in range(3)])
        c.eq(name + ": origin", big.origin, org)
        c.eq(name + ": extended", big.extended, ext * dim[0] * dim[1] * dim[2])
        images(c, name + ", original untouched", pc, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], tau, eng, ts)
        c.eq(name + ": original lattice", pc.lat_vec, lat)


MATS = dict(
    unit=[[1, 0, 0], [0, 1, 0], [0, 0, 1]], perm=[[0, 1, 0], [0, 0, 1], [1, 0, 0]], rect=[[1, 0, 0], [-1, 2, 0], [0, 0, 1]], skew=[[1, 1, 0], [-1, 1, 0], [0, 0, 1]],
    sqrt3=[[2, 1, 0], [-1, 1, 0], [0, 0, 1]], neg=[[-1, 0, 0], [0, -2, 0], [0, 0, 1]], shear=[[1, 0, 0], [3, 1, 0], [0, 0, 1]], bcc=[[0, 1, 1], [1, 0, 1], [1, 1, 0]],
    corner=[[2, 0, 2], [-1, -2, -2], [2, 2, 2]], corner2=[[2, 1, 2], [-2, -2, -2], [0, 0, 2]], corner3=[[2, 2, 2], [2, -1, 2], [-1, 0, -2]], z=[[1, 0, 0], [0, 1, 0], [1, 0, 2]],
    big=[[3, 0, 0], [-1, 2, 0], [0, 1, 1]], flip=[[0, 0, 1], [0, 2, 0], [1, 0, 0]], mix=[[1, -1, 2], [1, 1, 0], [1, -2, -1]], t1=[[2, -1, 2], [-2, -2, -2], [0, 0, 2]],
    t2=[[3, 1, 0], [-1, 3, 0], [0, 0, 1]], t3=[[1, 1, 1], [-1, 1, 1], [1, -1, 1]])


def place(c, n, m, delta, box):
    """Positions in box, away from the tolerance boundary of the reshaped cell."""
    tau = []
    for i in range(n):
        p = tuple(c.real(f"p{i}{x}", *box) for x in "xyz")
        away(c, p, m, delta, box)
        tau.append(p)
    return tau


def away(c, p, m, delta, box):
    """p is away from the tolerance boundary of the reshaped cell."""
    adj, det = inv3(m)
    for j in range(3):
        y = sum(p[k] * adj[k][j] for k in range(3)) + delta * det      # det * fractional coordinate
        lo = sum(min(box[0] * adj[k][j], box[1] * adj[k][j]) for k in range(3))
        hi = sum(max(box[0] * adj[k][j], box[1] * adj[k][j]) for k in range(3))
        lo, hi = math.floor(lo) - 1, math.ceil(hi) + 1
        c.assume(c.Or(*[c.And(y > v + 0.002, y < v + 0.998) for v in range(lo, hi + 1)]))


@case(quick=[dict(m=k, n=1) for k in ("unit", "perm", "rect", "skew", "sqrt3", "neg", "shear", "bcc", "z", "flip")]
      + [dict(m=k, n=2, far=f) for k, f in (("unit", 0), ("rect", 1), ("z", 2))]
      + [dict(m=k, n=1, fix=True) for k in ("corner", "corner2", "corner3", "big", "mix")] + [dict(m="rect", n=2, fix=True), dict(m="skew", n=3, fix=True), dict(m="bcc", n=2, fix=True)],
      thorough=[dict(m=k, n=1) for k in ("corner", "corner2", "corner3", "big", "mix", "t2", "t3")] + [dict(m=k, n=2) for k in ("rect", "skew", "perm", "neg", "z")]
      + [dict(m="t1", n=1, fix=True), dict(m="t2", n=3, fix=True)], max_paths=20000, feas_timeout=3000)
def reshape(c, m, n, fix=False, far=None):
    m = MATS[m]
    delta = c.num(1) / 100
    if far is not None:
        # one coordinate of the first orbital anywhere within some cells around
        tau = [(c.num(31 + 17 * i) / 97, c.num(27 + 23 * i) / 101, c.num(33 + 11 * i) / 103) for i in range(n)]
        x = c.real("x", -3, 3)
        tau[0] = tuple(x if j == far else tau[0][j] for j in range(3))
        away(c, tau[0], m, delta, (-3, 3))
    elif fix:
        tau = [(c.num(31 + 17 * i) / 97, c.num(27 + 23 * i) / 101, c.num(33 + 11 * i) / 103) for i in range(n)]
    else:
        tau = place(c, n, m, delta, (0.0, 0.98))
    org = c.vec3("o")
    pc, tau, eng, ts = cell(c, n, PAT[n], c.farr(A3), org, tau)
    ext = c.real("ext", 0.5, 3)
    pc.extended = ext
    big = c.tb.reshape_prim_cell(pc, c.farr(m))
    images(c, "reshaped", big, m, tau, eng, ts)
    _, det = inv3(m)
    c.eq("lattice", big.lat_vec, [combv(m[i], A3) for i in range(3)])
    c.eq("origin", big.origin, org)
    c.eq("extended", big.extended, ext * abs(det))


@case(quick=[dict(m="skew"), dict(m="rect"), dict(m="sqrt3")])
def hetero(c, m):
    """A layer cut with Cartesian lattice vectors, with user-supplied delta."""
    m = MATS[m]
    tau = [(c.num(31) / 97, c.num(27) / 101, c.num(33) / 103), (c.num(70) / 97, c.num(5) / 101, c.num(88) / 103)]
    pc, tau, eng, ts = cell(c, 2, PAT[2], c.farr(A3), None, tau)
    for tag, kw in (("default", {}), ("delta", dict(delta=0.07)), ("tolerance", dict(pos_tol=1e-4))):
        big = c.tb.make_hetero_layer(pc, c.farr([combv(m[i], A3) for i in range(3)]), **kw)
        images(c, tag, big, m, tau, eng, ts)
        c.eq(tag + ": lattice", big.lat_vec, [combv(m[i], A3) for i in range(3)])


@case(quick=[dict(k=1), dict(k=2), dict(k=3)])
def merge(c, k):
    lat = lattice(c, "tri")
    sizes = [2, 1, 3][:k]
    cells, orgs = [], []
    for q, n in enumerate(sizes):
        o = c.vec3(f"o{q}") if q < 2 else None
        orgs.append(o if o is not None else [0, 0, 0])
        cells.append(cell(c, n, PAT[n], lat, o, tag=f"c{q}", unit=1.0))
    ext = [c.choose(f"x{q}", [1.0, 2.0, 1.0005]) for q in range(k)]
    for q in range(k):
        cells[q][0].extended = ext[q]
    pcs = [x[0] for x in cells]
    start = [sum(sizes[:q]) for q in range(k)]
    exp = Hops(c)
    for q in range(k):
        for rn, i, j, t in cells[q][3]:
            exp.set(rn, i + start[q], j + start[q], t)
    inter = []
    for b, kt, terms in ((0, 1, [((0, 0, 0), 0, 0), ((1, -1, 0), 1, 0)]), (1, 0, [((0, 0, 1), 0, 1)]), (2, 0, [((-1, 0, 0), 2, 1), ((0, 0, 0), 0, 0)]), (1, 2, [((0, 2, 0), 0, 2)])):
        if b < k and kt < k:
            h = c.tb.PCInterHopping(pcs[b], pcs[kt])
            for w, (rn, i, j) in enumerate(terms):
                t = c.cplx(f"i{b}{kt}{w}")
                h.add_hopping(rn, i, j, t)
                exp.set(rn, i + start[b], j + start[kt], t)
            inter.append(h)
    args = pcs + inter if c.boolean("order") else inter + pcs
    mg = c.tb.merge_prim_cell(*args)
    c.check("number of orbitals", mg.num_orb == sum(sizes))
    c.eq("energies", mg.orb_eng, [e for x in cells for e in x[2]])
    c.eq("Cartesian positions", mg.orb_pos_nm, [combv(p, lat, orgs[q]) for q in range(k) for p in cells[q][1]])
    c.check("labels", [mg.get_orbital(i).label for i in range(mg.num_orb)] == [f"c{q}L{i}" for q in range(k) for i in range(sizes[q])])
    check_cell_hops(c, "merged", mg, exp)
    c.eq("lattice", mg.lat_vec, lat)
    c.eq("origin", mg.origin, orgs[0])
    same = all(abs(x - ext[0]) < 1e-3 for x in ext)
    c.eq("extended", mg.extended, ext[0] if same else 1.0)
    for q in range(k):
        c.eq(f"component {q} stays in place", pcs[q].orb_pos_nm, [combv(p, lat, orgs[q]) for p in cells[q][1]])
        h = Hops(c)
        for rn, i, j, t in cells[q][3]:
            h.set(rn, i, j, t)
        check_cell_hops(c, f"component {q}", pcs[q], h)


@case()
def merge_reject(c):
    lat = lattice(c, "tri")
    a = cell(c, 1, PAT[1], lat, None, tag="a")[0]
    lat2 = lattice(c, "tri")
    i, j = c.conc(c.int("i", 0, 2)), c.conc(c.int("j", 0, 2))
    d = c.real("d", 0.01, 1)
    lat2[i, j] = lat2[i][j] + d
    b = cell(c, 1, PAT[1], lat2, None, tag="b")[0]
    c.raises("different lattices", ValueError, lambda: c.tb.merge_prim_cell(a, b))
    x = cell(c, 1, PAT[1], lat, None, tag="x")[0]
    c.raises("bra not included", ValueError, lambda: c.tb.merge_prim_cell(a, c.tb.PCInterHopping(x, a)))
    c.raises("ket not included", ValueError, lambda: c.tb.merge_prim_cell(a, c.tb.PCInterHopping(a, x)))
    c.raises("nothing to merge", ValueError, lambda: c.tb.merge_prim_cell())
    c.raises("other objects", ValueError, lambda: c.tb.merge_prim_cell(a, 1))
    for dim in ((0, 1, 1), (1, 1, -1), (1, 0)):
        c.raises("extend by less than one", ValueError, lambda: c.tb.extend_prim_cell(a, dim))


BONDS = {3: [((0, 0, 0), 0, 1), ((0, 0, 0), 1, 2), ((1, 0, 0), 2, 0), ((0, 1, 0), 1, 1), ((-1, 0, 0), 0, 1)],
         4: [((0, 0, 0), 0, 1), ((0, 0, 0), 1, 2), ((0, 0, 0), 3, 2), ((1, 0, 0), 3, 0), ((0, 1, 0), 2, 2), ((1, 1, 0), 1, 0), ((0, 0, 0), 0, 3)]}


@case(quick=[dict(n=3), dict(n=4)], max_paths=5000)
def trim(c, n):
    tau = [(c.num(i) / 4, 0.0, 0.0) for i in range(n)]
    on = [b for k, b in enumerate(BONDS[n]) if c.boolean(f"b{k}")]
    pc, tau, eng, ts = cell(c, n, on, c.np.eye(3), None, tau)
    if c.boolean("sync"):
        pc.sync_array()
    pc.trim()
    cnt = [sum((a == o) + (b == o) for _, a, b in on) for o in range(n)]
    keep = [o for o in range(n) if cnt[o] > 1]
    new = {o: k for k, o in enumerate(keep)}
    c.check("orbitals left", [pc.get_orbital(k).label for k in range(pc.num_orb)] == [f"L{o}" for o in keep])
    exp = Hops(c)
    for rn, i, j, t in ts:
        if i in new and j in new:
            exp.set(rn, new[i], new[j], t)
    check_cell_hops(c, "trimmed", pc, exp)
    if keep:
        c.eq("energies", pc.orb_eng, [eng[o] for o in keep])
        c.eq("positions", pc.orb_pos, [tau[o] for o in keep])


@case(quick=[dict(n=2), dict(n=3)])
def open_boundary(c, n):
    pbc = tuple(c.boolean(f"pbc{x}") for x in "abc")
    extra = {2: [((1, 0, 1), 0, 1), ((0, 1, -1), 1, 0), ((2, 0, 0), 0, 0)], 3: [((-1, 0, 2), 0, 1)]}[n]
    pc, tau, eng, ts = cell(c, n, PAT[n] + extra, c.np.eye(3))
    if c.boolean("sync"):
        pc.sync_array()
    pc.apply_pbc(pbc)
    exp = Hops(c)
    for rn, i, j, t in ts:
        if all(pbc[x] or rn[x] == 0 for x in range(3)):
            exp.set(rn, i, j, t)
    check_cell_hops(c, "open", pc, exp)
    c.eq("energies", pc.orb_eng, eng)
    c.eq("positions", pc.orb_pos, tau)
    c.raises("length of pbc", ValueError, lambda: pc.apply_pbc((True, True)))


@case(quick=[dict(fix=f, k=k) for f in (True, False, None) for k in ("diag", "tri")], query_timeout=90000)
def relattice(c, fix, k):
    lat, org = lattice(c, "tri"), c.vec3("o")
    pc, tau, eng, ts = cell(c, 2, PAT[2], lat, org, unit=1.0)
    lat2, o2 = lattice(c, k, "b") if k == "diag" else c.farr([[1, 0.5, 0], [0.25, 1.5, 0.125], [-0.5, 0.125, 2]]), c.vec3("q")
    unit = c.real("unit", 0.1, 2) if k == "diag" else 0.5
    which = c.choose("which", ["both", "lattice", "origin"])
    kw = {} if fix is None else dict(fix_orb=fix)
    a2 = [[lat2[i][x] * unit for x in range(3)] for i in range(3)]
    b2 = [o2[x] * unit for x in range(3)]
    if which == "both":
        pc.reset_lattice(lat2, o2, unit=unit, **kw)
    elif which == "lattice":
        pc.reset_lattice(lat2, unit=unit, **kw)
        b2 = org
    else:
        pc.reset_lattice(origin=o2, unit=unit, **kw)
        a2 = lat
    c.eq("lattice", pc.lat_vec, a2)
    c.eq("origin", pc.origin, b2)
    if fix is False:
        c.eq("fractional coordinates kept", pc.orb_pos, tau)
    else:
        f = pc.orb_pos
        c.eq("Cartesian positions kept", [combv(f[i], a2, b2) for i in range(2)], [combv(tau[i], lat, org) for i in range(2)])
    c.eq("energies", pc.orb_eng, eng)
    h = Hops(c)
    for rn, i, j, t in ts:
        h.set(rn, i, j, t)
    check_cell_hops(c, "terms", pc, h)


@case()
def spiral(c):
    lat, org = lattice(c, "diag"), c.vec3("o")
    pc, tau, eng, ts = cell(c, 2, PAT[2], lat, org)
    ang, ctr, sh = c.real("ang", -3, 3), c.vec3("c"), c.real("s")
    c.tb.spiral_prim_cell(pc, angle=ang, center=ctr, shift=sh)
    co, si = c.cos(ang), c.sin(ang)

    def rot(v):
        return [co * v[0] - si * v[1], si * v[0] + co * v[1], v[2]]

    def move(p):
        r = rot([p[x] - ctr[x] for x in range(3)])
        return [r[x] + ctr[x] for x in range(3)]
    a2 = [rot(lat[i]) for i in range(3)]
    b2 = move(org)
    c.eq("lattice", pc.lat_vec, a2)
    c.eq("origin", pc.origin, b2)
    f = pc.orb_pos
    exp = [move(combv(t, lat, org)) for t in tau]
    c.eq("positions", [combv(f[i], a2, b2) for i in range(2)], [[e[0], e[1], e[2] + sh] for e in exp])
    c.eq("energies", pc.orb_eng, eng)
    h = Hops(c)
    for rn, i, j, t in ts:
        h.set(rn, i, j, t)
    check_cell_hops(c, "terms", pc, h)
