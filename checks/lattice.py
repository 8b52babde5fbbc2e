"""C01: lattice vectors, coordinate conversion, rotation, areas and volumes."""
from engine.run import case

BOUNDS = "one to three coordinates per call; lattice vectors, coordinates, origins, angles and centres are symbolic reals with |det| >= 1/100"
OUTSIDE = "rounding error; lattices closer to singular than the bound; entries that gen_lattice_vectors snaps to zero below 1e-15"
ASSUMPTIONS = []


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def lattice(c, kind="full", tag="a"):
    """Symbolic lattice vectors with non-zero determinant."""
    if kind == "full":
        a = c.mat(tag, 3, 3, -2, 2)
    elif kind == "tri":
        a = c.farr([[c.real(tag + "00", 0.2, 2), 0, 0], [c.real(tag + "10", -2, 2), c.real(tag + "11", 0.2, 2), 0],
                    [c.real(tag + "20", -2, 2), c.real(tag + "21", -2, 2), c.real(tag + "22", 0.2, 2)]])
    elif kind == "diag":
        return c.farr([[c.real(tag + "00", 0.2, 2), 0, 0], [0, c.real(tag + "11", 0.2, 2), 0], [0, 0, c.real(tag + "22", 0.2, 2)]])
    elif kind == "2d":
        a = c.farr([[c.real(tag + "00", -2, 2), c.real(tag + "01", -2, 2), 0], [c.real(tag + "10", -2, 2), c.real(tag + "11", -2, 2), 0],
                    [0, 0, c.real(tag + "22", 0.2, 2)]])
    else:
        raise ValueError(kind)
    d = det3(a)
    c.assume(c.Or(d > 0.01, d < -0.01))
    return a


def comb(v, a, o=(0, 0, 0)):
    return [v[0] * a[0][x] + v[1] * a[1][x] + v[2] * a[2][x] + o[x] for x in range(3)]


@case(quick=[dict(kind="full", n=1), dict(kind="tri", n=2)], thorough=[dict(kind="full", n=3)])
def convert(c, kind, n):
    """frac -> cart is the linear map, cart -> frac its inverse, both with an origin."""
    tb = c.tb
    a = lattice(c, kind)
    f = c.mat("f", n, 3)
    o = c.vec3("o")
    cart = tb.frac2cart(a, f, o)
    c.eq("frac2cart", cart, [comb(f[i], a, o) for i in range(n)])
    c.eq("frac2cart without origin", tb.frac2cart(a, f), [comb(f[i], a) for i in range(n)])
    # the inverse, stated without inverting anything: the result g of cart2frac satisfies sum g_i a_i + o == p
    p = c.mat("p", n, 3)
    g = tb.cart2frac(a, p, o)
    c.eq("cart2frac", [comb(g[i], a, o) for i in range(n)], p)
    g = tb.cart2frac(a, p)
    c.eq("cart2frac without origin", [comb(g[i], a) for i in range(n)], p)
    c.eq("inputs untouched", [a[i][j] for i in range(3) for j in range(3)], [c.real("x", 0, 0) + a[i][j] for i in range(3) for j in range(3)])


@case(quick=[dict(kind="tri")])
def round_trip(c, kind):
    tb = c.tb
    a = lattice(c, kind)
    f = c.mat("f", 2, 3)
    o = c.vec3("o")
    c.eq("frac -> cart -> frac", tb.cart2frac(a, tb.frac2cart(a, f, o), o), f)
    c.eq("cart -> frac -> cart", tb.frac2cart(a, tb.cart2frac(a, f, o), o), f)


@case()
def list_input(c):
    """Lists are accepted in place of arrays by the conversion functions."""
    tb = c.tb
    a = lattice(c, "tri")
    al = [[a[i][j] for j in range(3)] for i in range(3)]
    f = [[c.real(f"f{i}{x}") for x in range(3)] for i in range(2)]
    c.eq("frac2cart of lists", tb.frac2cart(al, f), [comb(v, al) for v in f])
    g = tb.cart2frac(al, f)
    c.eq("cart2frac of lists", [comb(g[i], al) for i in range(2)], f)


@case(quick=[dict(kind="full"), dict(kind="tri")])
def reciprocal(c, kind):
    a = lattice(c, kind)
    b = c.tb.gen_reciprocal_vectors(a)
    got = [[a[i][0] * b[j][0] + a[i][1] * b[j][1] + a[i][2] * b[j][2] for j in range(3)] for i in range(3)]
    c.eq("a_i.b_j", got, [[2 * c.pi if i == j else 0 for j in range(3)] for i in range(3)])


@case(quick=[dict(d=d) for d in "abc"])
def area(c, d):
    a = c.mat("a", 3, 3, -2, 2)
    i, j = {"a": (1, 2), "b": (2, 0), "c": (0, 1)}[d]
    got = c.tb.get_lattice_area(a, d)
    u, v = a[i], a[j]
    uu, vv, uv = sum(u[x] * u[x] for x in range(3)), sum(v[x] * v[x] for x in range(3)), sum(u[x] * v[x] for x in range(3))
    c.assume(uu * vv - uv * uv > 0.0001)
    c.eq("area squared (Gram determinant)", got * got, uu * vv - uv * uv)
    c.check("area not negative", got >= 0)
    if d == "c":
        c.eq("default direction", c.tb.get_lattice_area(a), got)
    c.raises("unknown direction", ValueError, lambda: c.tb.get_lattice_area(a, "x"))


@case()
def volume(c):
    a = c.mat("a", 3, 3, -2, 2)
    got = c.tb.get_lattice_volume(a)
    c.eq("volume is |det|", got, c.abs(det3(a)))
    c.check("volume not negative", got >= 0)


@case(quick=[dict(mode="general"), dict(mode="gamma"), dict(mode="right")])
def from_parameters(c, mode):
    """Vectors from lengths and angles have exactly these lengths and angles, a along x and b in the xy plane."""
    A, B, C = (c.real(x, 0.2, 3) for x in ("A", "B", "C"))
    if mode == "right":
        v = c.tb.gen_lattice_vectors(A, B, C)
        ca = cb = cg = 0
    else:
        ga = c.real("gamma", 20, 160)
        al, be = (c.real("alpha", 20, 160), c.real("beta", 20, 160)) if mode == "general" else (60, 60)
        deg = c.pi / 180
        ca, cb, cg = c.cos(al * deg), c.cos(be * deg), c.cos(ga * deg)
        c.assume(c.sin(ga * deg) >= 0.1)
        for x in (cg, cb, ca - cb * cg):
            c.assume(c.Or(x > 0.001, x < -0.001))
        c.assume(1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg > 0.01)
        v = c.tb.gen_lattice_vectors(A, B, C, al, be, ga)

    def dot(i, j):
        return v[i][0] * v[j][0] + v[i][1] * v[j][1] + v[i][2] * v[j][2]
    c.eq("lengths", [dot(0, 0), dot(1, 1), dot(2, 2)], [A * A, B * B, C * C])
    c.eq("angles", [dot(1, 2), dot(0, 2), dot(0, 1)], [B * C * ca, A * C * cb, A * B * cg])
    c.eq("orientation", [v[0][1], v[0][2], v[1][2]], [0, 0, 0])
    c.check("a along +x", v[0][0] > 0)
    c.check("b in the upper half plane", v[1][1] > 0)
    if mode == "general":
        c.eq("c upwards", v[2][2] * c.sin(ga * deg), C * c.sqrt(1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg))
    else:
        c.check("c upwards", v[2][2] > 0)


@case(quick=[dict(axis=x) for x in "xyz"])
def rotate(c, axis):
    """Rigid rotation by the angle about the axis through the centre, counter-clockwise."""
    p = c.mat("p", 2, 3)
    o = c.vec3("o")
    t = c.real("t")
    q = c.tb.rotate_coord(p, t, axis, o)
    ct, st = c.cos(t), c.sin(t)
    u, v, w = {"x": (1, 2, 0), "y": (2, 0, 1), "z": (0, 1, 2)}[axis]
    exp = []
    for i in range(2):
        r = [0, 0, 0]
        du, dv = p[i][u] - o[u], p[i][v] - o[v]
        r[u] = o[u] + ct * du - st * dv
        r[v] = o[v] + st * du + ct * dv
        r[w] = p[i][w]
        exp.append(r)
    c.eq("rotated", q, exp)
    if axis == "z":
        c.eq("default axis and centre", c.tb.rotate_coord(p, t), [[ct * p[i][0] - st * p[i][1], st * p[i][0] + ct * p[i][1], p[i][2]] for i in range(2)])
    c.raises("unknown axis", ValueError, lambda: c.tb.rotate_coord(p, t, "w", o))
    c.raises("centre of the wrong length", ValueError, lambda: c.tb.rotate_coord(p, t, axis, [0.0, 0.0]))


@case(quick=[dict(axis=x) for x in "xyz"])
def rotate_integers(c, axis):
    """Coordinates given as integers are rotated like any others."""
    t = c.real("t")
    k = [[1, 2, 3], [0, -1, 2]]
    q = c.tb.rotate_coord(k, t, axis)
    ct, st = c.cos(t), c.sin(t)
    u, v, w = {"x": (1, 2, 0), "y": (2, 0, 1), "z": (0, 1, 2)}[axis]
    exp = []
    for p in k:
        r = [0, 0, 0]
        r[u], r[v], r[w] = ct * p[u] - st * p[v], st * p[u] + ct * p[v], p[w]
        exp.append(r)
    c.eq("rotated", q, exp)
