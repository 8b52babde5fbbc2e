"""C07: serial numbering of the orbitals of a super cell."""
from engine.run import case

BOUNDS = ("super cells of up to 18 orbitals with any set of up to two vacancies (thorough: three) through the public methods; index arithmetic with "
          "symbolic cell indices and up to five symbolic vacancies for every dimension up to 4x4x4 and three orbitals per cell")
OUTSIDE = "larger super cells and vacancy sets; negative serial indices (counted from the end, as for lists)"


def cell(c, n, rn=(0, 0, 0)):
    pc = c.tb.PrimitiveCell(c.np.eye(3), unit=1.0)
    for i in range(n):
        pc.add_orbital((c.num(i) / 8, 0, 0), float(i))
    if n > 1 and tuple(rn) == (0, 0, 0):
        pc.add_hopping((0, 0, 0), 0, 1, 1.0)
    elif tuple(rn) != (0, 0, 0):
        pc.add_hopping(tuple(rn), 0, n - 1, 1.0)
    return pc


def order(dim, n, vac=()):
    return [(a, b, d, o) for a in range(dim[0]) for b in range(dim[1]) for d in range(dim[2]) for o in range(n) if (a, b, d, o) not in vac]


def ids(x):
    return tuple(int(v) for v in x)


def verify(c, tag, s, dim, n, vac):
    """Everything the orbital set says about its numbering."""
    exc = c.mod("tbplas.builder.exceptions")
    ref = order(dim, n, vac)
    c.check(f"{tag}: num_orb_sc", s.num_orb_sc == len(ref))
    c.check(f"{tag}: num_vac", s.num_vac == len(vac))
    c.check(f"{tag}: num_orb_pc", s.num_orb_pc == n)
    c.check(f"{tag}: serial -> cell", [ids(s.orb_id_sc2pc(i)) for i in range(len(ref))] == ref)
    c.check(f"{tag}: cell -> serial", [int(s.orb_id_pc2sc(p)) for p in ref] == list(range(len(ref))))
    if ref:
        c.check(f"{tag}: cell -> serial (array index)", int(s.orb_id_pc2sc(c.iarr(ref[-1], "i4"))) == len(ref) - 1)
        c.check(f"{tag}: cell -> serial (64-bit index)", int(s.orb_id_pc2sc(c.iarr(ref[len(ref) // 2]))) == len(ref) // 2)
        rev = list(range(len(ref) - 1, -1, -1))
        c.check(f"{tag}: arrays of serial indices", [ids(x) for x in s.orb_id_sc2pc_array(c.iarr(rev))] == ref[::-1])
        c.check(f"{tag}: arrays of cell indices", ids(s.orb_id_pc2sc_array(c.iarr(ref[::-1], "i4"))) == tuple(rev))
        c.check(f"{tag}: arrays of 32-bit serial indices", [ids(x) for x in s.orb_id_sc2pc_array(c.iarr(rev, "i4"))] == ref[::-1])
        c.check(f"{tag}: arrays of 64-bit cell indices", ids(s.orb_id_pc2sc_array(c.iarr(ref[::-1]))) == tuple(rev))
        c.check(f"{tag}: lists", [ids(x) for x in s.orb_id_sc2pc_array([0])] == ref[:1])
        c.check(f"{tag}: lists of cell indices", ids(s.orb_id_pc2sc_array([list(ref[-1]), list(ref[0])])) == (len(ref) - 1, 0))
    for v in sorted(vac):
        c.raises(f"{tag}: vacancy refused", exc.IDPCVacError, lambda: s.orb_id_pc2sc(v))
        good = [list(ref[0])] if ref else []
        c.raises(f"{tag}: vacancy refused in arrays", exc.IDPCVacError, lambda: s.orb_id_pc2sc_array(c.iarr(good + [list(v)], "i4")))


DIMS = [(1, 1, 1, 2), (3, 1, 1, 1), (2, 2, 1, 2), (1, 2, 3, 1), (2, 3, 1, 2), (3, 1, 2, 2), (2, 2, 2, 1), (3, 2, 3, 1)]


@case(quick=[dict(d=d, k=2) for d in DIMS[:6]] + [dict(d=(2, 1, 2, 2), k=3)], thorough=[dict(d=d, k=3) for d in DIMS[4:]] + [dict(d=(2, 2, 1, 2), k=4)], max_paths=40000)
def numbering(c, d, k):
    """Every set of at most k vacancies."""
    dim, n = tuple(d[:3]), d[3]
    allid = order(dim, n)
    vac, last = [], 0
    for i in range(k):
        if last >= len(allid):
            break
        v = c.conc(c.int(f"v{i}", last, len(allid)))
        if v == len(allid):
            break
        vac.append(allid[v])
        last = v + 1
    rn = (0, 0, 0) if n > 1 else tuple((x - 1) // 2 for x in dim)
    pc = cell(c, n, rn)
    if n == 1 and rn == (0, 0, 0):
        pc.add_orbital((0.5, 0, 0), 0.0)
        return
    s = c.tb.SuperCell(pc, dim, pbc=(False, False, False), vacancies=vac[::-1] if vac else None)
    verify(c, "numbering", s, dim, n, vac)


@case(quick=[dict(nv=0), dict(nv=1), dict(nv=2), dict(nv=3), dict(nv=4)], thorough=[dict(nv=5), dict(nv=6)])
def arithmetic(c, nv):
    """Index arithmetic for symbolic cell indices and vacancies: the serial index is the number of orbitals before."""
    core = c.mod("tbplas.cython.super")
    f, fa = getattr(core, "id_pc2sc", None), getattr(core, "id_pc2sc_array", None)
    if f is None or fa is None:
        return
    dim = [c.conc(c.int(f"d{x}", 1, 4)) for x in range(3)] if nv < 2 else c.choose("dim", [(2, 3, 4), (4, 1, 3), (1, 2, 2)])
    n = c.choose("n", [1, 2, 3]) if nv < 2 else c.choose("n", [1, 3])
    tot = dim[0] * dim[1] * dim[2] * n
    if tot < nv:
        return
    v = [c.int(f"v{i}", 0, tot - 1) for i in range(nv)]
    for i in range(nv - 1):
        c.assume(v[i] < v[i + 1])
    p = [c.int(f"p{x}", 0, dim[x] - 1) for x in range(3)] + [c.int("po", 0, n - 1)]
    s = ((p[0] * dim[1] + p[1]) * dim[2] + p[2]) * n + p[3]
    dm, va = c.iarr(dim, "i4"), c.iarr(v) if nv else c.zeros(0, "i8")
    got = f(dm, n, c.iarr(p, "i4"), va)
    exp = s
    for x in v:
        exp = c.ite(x < s, exp - 1, exp)
    for x in v:
        exp = c.ite(x == s, -1, exp)
    c.eq("serial index", got, exp)
    c.eq("serial index (array)", fa(dm, n, c.iarr([p], "i4"), va), [exp])
    # no two orbitals share an index
    q = [c.int(f"q{x}", 0, dim[x] - 1) for x in range(3)] + [c.int("qo", 0, n - 1)]
    if nv == 0:
        h = f(dm, n, c.iarr(q, "i4"), va)
        c.check("distinct", c.Or(h != got, c.And(*[p[x] == q[x] for x in range(4)])))


@case(quick=[dict(d=(2, 3, 1, 2))], thorough=[dict(d=(3, 2, 4, 1))])
def out_of_range(c, d):
    dim, n = tuple(d[:3]), d[3]
    exc = c.mod("tbplas.builder.exceptions")
    pc = cell(c, n, (0, 0, 0) if n > 1 else (1, 0, 1))
    s = c.tb.SuperCell(pc, dim, vacancies=[(1, 1, 0, 0)])
    x = c.conc(c.int("x", 0, 3))
    lim = (dim + (n,))[x]
    bad = c.choose("bad", [-1, -lim, lim, lim + 1])
    p = [0, 0, 0, 0]
    p[x] = bad
    c.raises("scalar", exc.IDPCIndexError, lambda: s.orb_id_pc2sc(tuple(p)))
    c.raises("array of one index", exc.IDPCIndexError, lambda: s.orb_id_pc2sc(c.iarr(p, "i4")))
    c.raises("array", exc.IDPCIndexError, lambda: s.orb_id_pc2sc_array(c.iarr([[0, 0, 0, 0], p], "i4")))
    c.raises("vacancy", exc.IDPCIndexError, lambda: s.add_vacancy(tuple(p)))
    c.raises("wrong length", exc.IDPCLenError, lambda: s.orb_id_pc2sc((0, 0, 0)))
    c.raises("wrong length in array", exc.IDPCLenError, lambda: s.orb_id_pc2sc_array(c.iarr([[0, 0, 0]], "i4")))
    c.raises("wrong length of vacancy", exc.IDPCLenError, lambda: s.add_vacancies([(0, 0, 0)]))
    c.raises("list refused", exc.IDPCTypeError, lambda: s.orb_id_pc2sc([0, 0, 0, 0]))
    tot = dim[0] * dim[1] * dim[2] * n - 1
    m = c.choose("m", [tot, tot + 1, tot + 7])
    c.raises("serial", exc.IDSCIndexError, lambda: s.orb_id_sc2pc(m))
    c.raises("serial array", exc.IDSCIndexError, lambda: s.orb_id_sc2pc_array(c.iarr([0, m])))
    c.raises("negative serial array", exc.IDSCIndexError, lambda: s.orb_id_sc2pc_array(c.iarr([-1])))
    c.raises("serial matrix", ValueError, lambda: s.orb_id_sc2pc_array(c.iarr([[0, 1]])))
    verify(c, "still valid", s, dim, n, [(1, 1, 0, 0)])


@case(quick=[dict(L=2)], thorough=[dict(L=3)], max_paths=40000)
def vacancy_history(c, L):
    """Vacancies added one by one, in batches or reset, with or without queries in between."""
    dim, n = (2, 1, 2), 2
    pc = cell(c, n)
    s = c.tb.SuperCell(pc, dim, vacancies=[(1, 0, 0, 1)] if c.boolean("init") else None)
    vac = {(1, 0, 0, 1)} if s.num_vac else set()
    allid = order(dim, n)
    for k in range(L):
        op = c.conc(c.int(f"op{k}", 0, 4))
        a = allid[2 * c.conc(c.int(f"a{k}", 0, 3)) + k % 2]
        b = allid[(allid.index(a) * 3 + 1) % len(allid)]
        if op == 0:
            s.add_vacancy(a)
            vac.add(a)
        elif op == 1:
            s.add_vacancies([a, b, a])
            vac |= {a, b}
        elif op == 2:
            s.set_vacancies([b, a])
            vac = {a, b}
        elif op == 3:
            s.set_vacancies([])
            vac = set()
        else:
            s.set_vacancies([a])
            vac = {a}
        if k < L - 1 and c.boolean(f"q{k}"):
            c.check("between", [ids(s.orb_id_sc2pc(i)) for i in range(s.num_orb_sc)] == order(dim, n, vac))
    verify(c, "history", s, dim, n, vac)


@case()
def no_vacancies_again(c):
    pc = cell(c, 2)
    s = c.tb.SuperCell(pc, (2, 1, 1), vacancies=[(0, 0, 0, 1)])
    verify(c, "before", s, (2, 1, 1), 2, [(0, 0, 0, 1)])
    s.set_vacancies()
    verify(c, "after", s, (2, 1, 1), 2, [])


@case()
def cell_changes(c):
    """The numbering follows an edited primitive cell once the super cell is updated."""
    exc = c.mod("tbplas.builder.exceptions")
    pc = cell(c, 2)
    vac = [(1, 0, 0, 0), (0, 1, 0, 1)]
    s = c.tb.SuperCell(pc, (2, 2, 1), vacancies=vac)
    verify(c, "before", s, (2, 2, 1), 2, vac)
    c.raises("locked cell", exc.LockError, lambda: pc.add_orbital((0.5, 0.5, 0), 1.0))
    pc.unlock()
    m = c.choose("m", [0, 1, 2])
    for i in range(m):
        pc.add_orbital((0.5, 0.1 * i, 0), 1.0)
    s.sync_array()
    verify(c, "after", s, (2, 2, 1), 2 + m, vac)


@case(quick=[dict(m=2)])
def minimal_size(c, m):
    """A dimension is accepted exactly when it is at least twice the longest hopping range plus one."""
    exc = c.mod("tbplas.builder.exceptions")
    x = c.conc(c.int("axis", 0, 2))
    r = c.conc(c.int("r", -m, m))
    d = c.conc(c.int("dim", 1, 2 * m + 2))
    rn, dim = [0, 0, 0], [1, 1, 1]
    rn[x], dim[x] = r, d
    pc = cell(c, 2, rn)
    if d < 2 * abs(r) + 1:
        c.raises("too small", exc.SCDimSizeError, lambda: c.tb.SuperCell(pc, tuple(dim)))
    else:
        verify(c, "large enough", c.tb.SuperCell(pc, tuple(dim)), dim, 2, [])
    c.raises("length of dim", exc.SCDimLenError, lambda: c.tb.SuperCell(pc, (3,)))
    c.raises("length of pbc", exc.PBCLenError, lambda: c.tb.SuperCell(pc, (5, 5, 5), pbc=(True,)))
    s = c.tb.SuperCell(cell(c, 2, (1, 0, 0)), (3, 2))
    verify(c, "two dimensions", s, (3, 2, 1), 2, [])
