"""C02: k-paths, distances along them and k-meshes."""
from engine.run import case
from checks.lattice import lattice

BOUNDS = "two to four nodes with up to four steps per segment (symbolic counts), meshes of up to 3 x 3 x 3 (symbolic sizes); coordinates and lattice vectors symbolic"
OUTSIDE = "longer paths, larger meshes, rounding error"


@case(quick=[dict(n=2, m=4), dict(n=3, m=3)], thorough=[dict(n=4, m=4)])
def path(c, n, m):
    ks = c.mat("k", n, 3)
    num = [c.conc(c.int(f"n{i}", 1, m)) for i in range(n - 1)]
    for form in ("tuple", "list", "array"):
        arg = tuple(num) if form == "tuple" else num if form == "list" else c.iarr(num)
        kp, idx = c.tb.gen_kpath(ks, arg)
        exp, nodes = [], [0]
        for s in range(n - 1):
            for j in range(num[s]):
                f = c.num(j) / num[s]
                exp.append([ks[s][x] * (1 - f) + ks[s + 1][x] * f for x in range(3)])
            nodes.append(nodes[-1] + num[s])
        exp.append([ks[n - 1][x] for x in range(3)])
        c.eq(f"points ({form})", kp, exp)
        c.eq(f"node indices ({form})", idx, nodes)
    c.eq("nodes visited", [[kp[int(idx[s])][x] for x in range(3)] for s in range(n)], ks)


@case()
def path_list(c):
    """Nodes given as nested lists."""
    ks = [[c.real(f"k{i}{x}") for x in range(3)] for i in range(2)]
    kp, idx = c.tb.gen_kpath(ks, [2])
    c.eq("points", kp, [ks[0], [(ks[0][x] + ks[1][x]) / 2 for x in range(3)], ks[1]])
    c.eq("node indices", idx, [0, 2])
    c.raises("wrong number of segments", ValueError, lambda: c.tb.gen_kpath(ks, [2, 2]))
    c.raises("no segments", ValueError, lambda: c.tb.gen_kpath(ks, []))


@case(quick=[dict(n=3, kind="tri")], thorough=[dict(n=3, kind="full")])
def distance(c, n, kind):
    """Distances are the cumulative Cartesian lengths of the steps in reciprocal space."""
    a = lattice(c, kind)
    k = c.mat("k", n, 3)
    d = c.tb.gen_kdist(a, k)
    b = c.tb.gen_reciprocal_vectors(a)
    exp = [0]
    for i in range(1, n):
        q = [sum((k[i][x] - k[i - 1][x]) * b[x][y] for x in range(3)) for y in range(3)]
        exp.append(exp[-1] + c.sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]))
    c.eq("distance", d, exp)


@case()
def distance_orthogonal(c):
    """The same, for an orthogonal lattice, with explicit lengths (independent of gen_reciprocal_vectors)."""
    l = [c.real(f"l{x}", 0.2, 4) for x in range(3)]
    a = c.farr([[l[0], 0, 0], [0, l[1], 0], [0, 0, l[2]]])
    k = c.mat("k", 3, 3)
    d = c.tb.gen_kdist(a, k)
    exp = [0]
    for i in (1, 2):
        exp.append(exp[-1] + c.sqrt(sum((2 * c.pi / l[x] * (k[i][x] - k[i - 1][x])) * (2 * c.pi / l[x] * (k[i][x] - k[i - 1][x])) for x in range(3))))
    c.eq("distance", d, exp)


@case(quick=[dict(m=3)], thorough=[dict(m=5)])
def mesh(c, m):
    n = [c.conc(c.int(f"n{x}", 1, m)) for x in range(3)]
    got = c.tb.gen_kmesh(tuple(n))
    exp = [[c.num(i) / n[0], c.num(j) / n[1], c.num(k) / n[2]] for i in range(n[0]) for j in range(n[1]) for k in range(n[2])]
    c.eq("mesh", got, exp)
    c.raises("two sizes", ValueError, lambda: c.tb.gen_kmesh((n[0], n[1])))
