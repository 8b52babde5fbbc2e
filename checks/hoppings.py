"""C03: hopping containers read back what was written, up to Hermitian conjugation."""
from engine.run import case
from checks.common import Hops, canon, check_cell_hops, from_arrays, same_hops

BOUNDS = ("cell indices in {-1,0,1}^3 and up to three orbitals for single terms; histories of three (thorough: four) additions, overwrites, "
          "removals over pairs related by conjugation; energies symbolic complex")
OUTSIDE = "longer histories, larger indices"


def cell(c, n):
    pc = c.tb.PrimitiveCell()
    for i in range(n):
        pc.add_orbital((0.1 * i, 0.0, 0.0), 0.0)
    return pc


@case(quick=[dict(n=2, m=1)], thorough=[dict(n=3, m=1), dict(n=2, m=2)])
def single(c, n, m):
    """One term with any index: read in both directions, exported once; diagonal ones rejected."""
    exc = c.mod("tbplas.builder.exceptions")
    pc = cell(c, n)
    rn = tuple(c.conc(c.int(f"r{x}", -m, m)) for x in range(3))
    i, j = c.conc(c.int("i", 0, n - 1)), c.conc(c.int("j", 0, n - 1))
    t = c.cplx("t")
    ref = Hops(c)
    if rn == (0, 0, 0) and i == j:
        c.raises("diagonal term rejected", exc.PCHopDiagonalError, lambda: pc.add_hopping(rn, i, j, t))
        check_cell_hops(c, "after rejection", pc, ref)
        return
    pc.add_hopping(rn, i, j, t)
    ref.set(rn, i, j, t)
    c.eq("read forward", pc.get_hopping(rn, i, j), t)
    rev = tuple(-x for x in rn)
    c.eq("read reversed", pc.get_hopping(rev, j, i), c.conj(t))
    check_cell_hops(c, "arrays", pc, ref)
    # overwrite from the other side
    u = c.cplx("u")
    pc.add_hopping(rev, j, i, u)
    c.eq("overwritten, reversed", pc.get_hopping(rev, j, i), u)
    c.eq("overwritten, forward", pc.get_hopping(rn, i, j), c.conj(u))
    ref.set(rev, j, i, u)
    check_cell_hops(c, "arrays after overwriting", pc, ref)
    stored = [(r, p) for r, d in pc.hoppings.items() for p in d]
    c.check("pair stored once", len(stored) == 1)
    pc.remove_hopping(rev, j, i)
    c.raises("absent after removal", exc.PCHopNotFoundError, lambda: pc.get_hopping(rn, i, j))
    c.raises("absent after removal (reversed)", exc.PCHopNotFoundError, lambda: pc.get_hopping(rev, j, i))
    c.raises("second removal reported", exc.PCHopNotFoundError, lambda: pc.remove_hopping(rn, i, j))
    check_cell_hops(c, "arrays after removal", pc, Hops(c))


POOL = [((0, 0, 0), 0, 1), ((0, 0, 0), 1, 0), ((1, 0, 0), 0, 1), ((-1, 0, 0), 1, 0), ((0, 1, -1), 0, 0), ((0, -1, 1), 0, 0)]


@case(quick=[dict(L=3, nkey=4)], thorough=[dict(L=3, nkey=6), dict(L=4, nkey=4)], max_paths=60000)
def history(c, L, nkey):
    exc = c.mod("tbplas.builder.exceptions")
    pc = cell(c, 2)
    ref = Hops(c)
    pool = POOL[:nkey] if nkey != 4 else [POOL[0], POOL[1], POOL[2], POOL[3]]
    for s in range(L):
        k = c.conc(c.int(f"op{s}", 0, 2 * nkey - 1))
        rn, i, j = pool[k % nkey]
        if k < nkey:
            t = c.cplx(f"t{s}")
            pc.add_hopping(rn, i, j, t)
            ref.set(rn, i, j, t)
        elif ref.get(rn, i, j) is None:
            c.raises("removal of an absent term reported", exc.PCHopNotFoundError, lambda: pc.remove_hopping(rn, i, j))
        else:
            pc.remove_hopping(rn, i, j)
            ref.pop(rn, i, j)
        check_cell_hops(c, f"arrays", pc, ref)
    for rn, i, j in pool:
        v = ref.get(rn, i, j)
        if v is None:
            c.raises("absent", exc.PCHopNotFoundError, lambda: pc.get_hopping(rn, i, j))
        else:
            c.eq("value", pc.get_hopping(rn, i, j), v)


@case()
def short_index(c):
    """Two-component cell indices mean a zero third component; other lengths and bad orbitals are rejected."""
    exc = c.mod("tbplas.builder.exceptions")
    pc = cell(c, 2)
    t, u = c.cplx("t"), c.cplx("u")
    a, b = c.conc(c.int("a", -1, 1)), c.conc(c.int("b", -1, 1))
    pc.add_hopping((a, b), 0, 1, t)
    ref = Hops(c)
    ref.set((a, b, 0), 0, 1, t)
    check_cell_hops(c, "completed", pc, ref)
    c.eq("read with two components", pc.get_hopping((a, b), 0, 1), t)
    c.eq("read with three components", pc.get_hopping((a, b, 0), 0, 1), t)
    for bad in ((a,), (a, b, 0, 0)):
        c.raises("length of cell index", exc.CellIndexLenError, lambda: pc.add_hopping(bad, 0, 1, u))
    for i, j in ((0, 2), (2, 0), (-1, 0), (0, -1)):
        c.raises("orbital index (add)", exc.PCOrbIndexError, lambda: pc.add_hopping((1, 0, 0), i, j, u))
        c.raises("orbital index (get)", exc.PCOrbIndexError, lambda: pc.get_hopping((1, 0, 0), i, j))
        c.raises("orbital index (remove)", exc.PCOrbIndexError, lambda: pc.remove_hopping((1, 0, 0), i, j))
    check_cell_hops(c, "unchanged by rejected calls", pc, ref)


@case(quick=[dict(L=3)], thorough=[dict(L=4)], max_paths=20000)
def inter(c, L):
    """Terms between two cells: no reduction by conjugation, every (rn, i, j) is its own term."""
    a, b = cell(c, 2), cell(c, 2)
    ih = c.tb.PCInterHopping(a, b)
    pool = [((0, 0, 0), 0, 0), ((0, 0, 0), 0, 1), ((0, 0, 0), 1, 0), ((1, 0, 0), 0, 1), ((-1, 0, 0), 1, 0)]
    ref = {}
    for s in range(L):
        k = c.conc(c.int(f"op{s}", 0, 2 * len(pool) - 1))
        rn, i, j = pool[k % len(pool)]
        if k < len(pool):
            t = c.cplx(f"t{s}")
            ih.add_hopping(rn, i, j, t)
            ref[(rn, i, j)] = t
        else:
            st = ih.remove_hopping(rn, i, j)
            c.check("removal reported", bool(st) == ((rn, i, j) in ref))
            ref.pop((rn, i, j), None)
    for key in pool:
        e, st = ih.get_hopping(*key)
        c.check("found", bool(st) == (key in ref))
        if key in ref:
            c.eq("value", e, ref[key])
    ind, eng = ih.to_array()
    c.check("number of exported terms", len(eng) == len(ref) and len(ind) == len(ref) and ih.num_hop == len(ref))
    got = {((int(r[0]), int(r[1]), int(r[2])), int(r[3]), int(r[4])): eng[n] for n, r in enumerate(ind)}
    c.check("exported indices", sorted(got) == sorted(ref))
    if sorted(got) == sorted(ref):
        c.eq("exported energies", [got[k] for k in sorted(ref)], [ref[k] for k in sorted(ref)])
    lst = {(tuple(x[:3]), x[3], x[4]): x[5] for x in ih.to_list()}
    c.check("list of terms", sorted(lst) == sorted(ref))
    c.eq("short cell index", [ih.get_hopping((0, 0), 0, 1)[1] is True or ih.get_hopping((0, 0), 0, 1)[1] is False], [1])


@case(quick=[dict(kind="intra", m=1), dict(kind="inter", m=1)], thorough=[dict(kind="intra", m=2)], max_paths=20000)
def container(c, kind, m):
    """Removal of all terms of one cell, named by either of its two cell indices, and of orbitals, from the container of terms."""
    if kind == "intra":
        cls = getattr(c.mod("tbplas.builder.base"), "IntraHopping", None)
        if cls is None:
            return
        h = cls()
    else:
        h = c.tb.PCInterHopping(cell(c, 3), cell(c, 3))
    pool = [((0, 0, 0), 0, 1), ((0, 0, 0), 2, 0), ((1, 0, 1), 0, 2), ((-1, 0, -1), 1, 1), ((0, -1, 1), 1, 2), ((0, 0, 1), 2, 2), ((1, -1, 0), 0, 0)]
    ref = {}

    def key(rn, i, j):
        """Key of a term that does not depend on which of the two conjugates is stored."""
        return canon(rn, i, j) if kind == "intra" else ((rn, i, j), False)
    for n, (rn, i, j) in enumerate(pool):
        t = c.cplx(f"t{n}")
        h.add_hopping(rn, i, j, t)
        k, conj = key(rn, i, j)
        ref[k] = c.conj(t) if conj else t
    rn = tuple(c.conc(c.int(f"r{x}", -m, m)) for x in range(3))
    cells = {k[0] for k in ref}
    mine = {rn, tuple(-x for x in rn)} if kind == "intra" else {rn}
    c.check("removal of a cell reported", bool(h.remove_rn(rn)) == bool(cells & mine))
    ref = {k: v for k, v in ref.items() if k[0] not in mine}
    c.check("number of terms", h.num_hop == len(ref))

    def verify(tag):
        ind, eng = h.to_array()
        got = {}
        for n, r in enumerate(ind):
            k, conj = key((int(r[0]), int(r[1]), int(r[2])), int(r[3]), int(r[4]))
            got[k] = c.conj(eng[n]) if conj else eng[n]
        c.check(f"{tag}: indices", sorted(got) == sorted(ref) and len(eng) == len(ref))
        if sorted(got) == sorted(ref):
            c.eq(f"{tag}: energies", [got[k] for k in sorted(ref)], [ref[k] for k in sorted(ref)])
    verify("cell removed")
    if rn[0] == 0:
        out = [[0], [1], [2], [0, 2], [2, 1], [0, 0]][c.conc(c.int("o", 0, 5))]
        if len(out) == 1:
            h.remove_orbital(out[0])
        else:
            h.remove_orbitals(out)
        new = {i: i - sum(1 for x in set(out) if x < i) for i in range(3) if i not in out}
        ref = {(k[0], new[k[1]], new[k[2]]): v for k, v in ref.items() if k[1] in new and k[2] in new}
        verify("orbitals removed")


@case()
def inter_short(c):
    exc = c.mod("tbplas.builder.exceptions")
    ih = c.tb.PCInterHopping(cell(c, 2), cell(c, 2))
    t = c.cplx("t")
    ih.add_hopping((1, -1), 0, 1, t)
    c.eq("completed", ih.get_hopping((1, -1, 0), 0, 1)[0], t)
    c.raises("length", exc.CellIndexLenError, lambda: ih.add_hopping((1,), 0, 1, t))
    ih.add_subscriber("x", None)
    ih.lock("x")
    c.raises("locked", exc.LockError, lambda: ih.add_hopping((0, 0), 0, 0, t))
    ind, eng = ih.to_array(use_int64=True)
    c.eq("exported", ind, [[1, -1, 0, 0, 1]])
    c.eq("energy", eng, [t])


@case(quick=[dict(rn=[1, 0, 0]), dict(rn=[0, 0, 0])])
def hop_dict(c, rn):
    """Matrices of hopping terms reach the cell entry by entry."""
    exc = c.mod("tbplas.builder.exceptions")
    rn = tuple(rn)
    pc = cell(c, 2)
    hd = c.tb.HopDict(2)
    t = [[c.cplx(f"t{i}{j}") for j in range(2)] for i in range(2)]
    for i in range(2):
        for j in range(2):
            c.assume(c.Or(c.re(t[i][j]) > 0.01, c.re(t[i][j]) < -0.01))
    ref = Hops(c)
    if rn == (0, 0, 0):
        c.raises("diagonal rejected", exc.PCHopDiagonalError, lambda: hd.__setitem__(rn, c.carr(t)))
        hd = c.tb.HopDict(2)
        hd[rn] = c.carr([[0, t[0][1]], [0, 0]])
        ref.set(rn, 0, 1, t[0][1])
    else:
        m = c.carr(t)
        hd[rn] = m
        m[0, 1] = 0
        c.eq("copied", hd[rn], t)
        for i in range(2):
            for j in range(2):
                ref.set(rn, i, j, t[i][j])
    u = c.cplx("u")
    c.assume(c.re(u) > 0.01)
    hd[(0, 1)][0, 1] = u
    ref.set((0, 1, 0), 0, 1, u)
    c.raises("shape", ValueError, lambda: hd.__setitem__((1, 1), c.zeros((3, 3), "c16")))
    c.raises("length", exc.CellIndexLenError, lambda: hd.__setitem__((1,), c.zeros((2, 2), "c16")))
    pc.add_hopping_dict(hd)
    check_cell_hops(c, "cell", pc, ref)
