"""C25: real-space wave functions written to cube files, and figures, show the state they are given."""
import math
from engine.run import case
from checks.common import combv

BOUNDS = ("one or two orbitals, all hydrogen-like orbitals up to n = 4, l = 3, one to four grid points; symbolic complex coefficients, k-point, position of the orbitals against the grid; up to three periodic images; "
          "primitive cell and sample; both phase conventions; real part, imaginary part and squared modulus")
OUTSIDE = "rounding of the printed digits; grid points closer than 0.1 bohr to a nucleus, except the nucleus itself for l = 0"


def radial(c, Z, n, l, r):
    """Normalised hydrogen-like radial function by its Laguerre polynomial (atomic units)."""
    rho = c.num(2 * Z) / n * r
    F = math.factorial
    lag = 0
    for k in range(n - l):
        lag = lag + c.num((-1) ** k * math.comb(n + l, n - l - 1 - k)) / F(k) * rho ** k
    nrm = c.sqrt(c.num((2 * Z) ** 3) / n ** 3 * F(n - l - 1) / (2 * n * F(n + l)))
    return nrm * c.exp(-rho / 2) * rho ** l * lag


def harmonic(c, l, m, x, y, z, r):
    """Real spherical harmonics by the general formula for solid harmonics."""
    F, a = math.factorial, abs(m)
    p = 0
    for k in range((l - a) // 2 + 1):
        co = c.num((-1) ** k * math.comb(l, k) * math.comb(2 * l - 2 * k, l) * F(l - 2 * k)) / (F(l - 2 * k - a) * 2 ** l)
        p = p + co * (x * x + y * y + z * z) ** k * z ** (l - 2 * k - a)
    re, im = c.num(1), c.num(0)
    for _ in range(a):
        re, im = re * x - im * y, re * y + im * x
    ang = (im if m < 0 else re) * p
    nrm = c.sqrt(c.num((2 * l + 1) * F(l - a)) / (F(l + a) * (2 if m else 4)) / c.pi)
    return nrm * ang / r ** l


def orbital(c, qn, d):
    Z, n, l, m = qn
    r = c.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
    return radial(c, Z, n, l, r) * harmonic(c, l, m, d[0], d[1], d[2], r)


def cube(c, path, kind, grid, origin, res, atoms, values):
    """Compares a cube file (lengths in bohr)."""
    t = c.read(path)
    num = lambda ws: [c.number(w) for w in ws]

    def near(label, got, exp):
        c.check(label, len(got) == len(exp) and all_(c, [c.abs(a - b) <= 2e-6 for a, b in zip(got, exp)]))
    near("number of atoms and origin", num(t[2]), [len(atoms)] + list(origin))
    for i in range(3):
        near(f"axis {i}", num(t[3 + i]), [grid[i]] + [res if k == i else 0 for k in range(3)])
    got = [num(t[6 + i]) for i in range(len(atoms))]
    for i, (Z, p) in enumerate(atoms):
        near(f"atom {i}", got[i], [Z, Z] + list(p))
    vals = [w for line in t[6 + len(atoms):] for w in line]
    c.eq("values", [c.number(w) for w in vals], values, tol=2e-5)


def all_(c, conds):
    r = conds[0]
    for x in conds[1:]:
        r = c.And(r, x)
    return r


def bohr(c):
    return c.mod("tbplas.base.constants").BOHR2NM


@case(quick=[dict(n=n, l=l) for n in range(1, 5) for l in range(n)])
def atomic(c, n, l):
    """A single orbital: hydrogen-like radial function times real spherical harmonic."""
    b = bohr(c)
    x = c.real("x", 0.5, 2)
    Z = n
    res = c.real("res", 0.045, 0.05)
    pc = c.tb.PrimitiveCell(c.farr([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), unit=1.0)
    pc.add_orbital((-x * b, c.num(-3) / 4 * b, c.num(-5) / 4 * b), 0.0)
    v = c.tb.Visualizer()
    for m in range(-l, l + 1):
        w = c.cplx(f"w{m + l}", 1)
        v.plot_wfc3d(pc, c.carr([w]), [[Z, n, l, m]], rn_max=(0, 0, 0), cube_name="w.cube", cube_origin=(0, 0, 0), cube_size=(0.06, 0.06, 0.11), resolution=res)
        h = res / b
        vals = [c.re(w) * orbital(c, (Z, n, l, m), (x, c.num(3) / 4, c.num(5) / 4 + k * h)) for k in range(2)]
        cube(c, "w.cube", "real", (1, 1, 2), (0, 0, 0), h, [(Z, (-x, c.num(-3) / 4, c.num(-5) / 4))], vals)


def model(c, kind, sep):
    """Two orbitals at p and p + sep (nm); returns model, positions, lattice vectors (bohr) and their fractional coordinates."""
    b = bohr(c)
    L = [[c.num("0.25"), 0, 0], [c.num("0.0625"), c.num("0.25"), 0], [0, 0, c.num("0.5")]]
    pc = c.tb.PrimitiveCell(c.farr(L), unit=1.0)
    p = [c.real("px", 0.05, 0.06), c.num("0.03"), c.num("0.04")]
    fr = [frac(L, p), frac(L, [p[i] + sep[i] for i in range(3)])]
    for f in fr:
        pc.add_orbital(tuple(f), 0.0)
    pc.add_hopping((1 if kind == "cell" else 0, 0, 0), 0, 1, -1.0)
    if kind == "cell":
        m = pc
    else:
        m = c.tb.Sample(c.tb.SuperCell(pc, dim=(2, 1, 1), pbc=(False, False, False)))
        fr = [[(f[0] + k) / 2, f[1], f[2]] for k in range(2) for f in fr]
        L = [[2 * x for x in L[0]], L[1], L[2]]
    L = [[x / b for x in v] for v in L]
    return m, [combv(f, L) for f in fr], L, fr


def frac(L, p):
    """Fractional coordinates for the lower triangular lattice above."""
    z = p[2] / L[2][2]
    y = p[1] / L[1][1]
    return [(p[0] - y * L[1][0]) / L[0][0], y, z]


QN = [(1, 1, 0, 0), (2, 2, 1, 1), (1, 2, 0, 0), (3, 3, 2, -1)]


@case(quick=[dict(kind="cell", conv=1, out="real", rn=[1, 0, 0]), dict(kind="cell", conv=2, out="imag", rn=[0, 1, 0]), dict(kind="cell", conv=1, out="imag", rn=[0, 0, 1]),
             dict(kind="cell", conv=2, out="abs2", rn=[0, 0, 0]), dict(kind="cell", conv=1, out="abs2", rn=[0, 0, 0]), dict(kind="sample", conv=1, out="real", rn=[0, 0, 0]), dict(kind="sample", conv=2, out="real", rn=[1, 0, 0])],
      thorough=[dict(kind="cell", conv=1, out="real", rn=[1, 1, 0]), dict(kind="cell", conv=2, out="abs2", rn=[1, 0, 0])])
def bloch(c, kind, conv, out, rn):
    """Sum over orbitals and images with Bloch phases, normalised by the number of images."""
    b = bohr(c)
    m, pos, L, fr = model(c, kind, [c.num("-0.15") if rn == [0, 0, 1] or out == "abs2" else c.num("0.1"), c.num("0.05"), c.num("0.0")])   # second orbital within or outside of the cell
    n = len(pos)
    w = [c.cplx(f"w{i}", 1) for i in range(n)]
    k = [c.real(f"k{i}", -1, 1) for i in range(3)]
    org = [c.num("-0.05"), c.num("-0.02"), c.num("-0.03")]
    res = c.num("0.06")
    c.tb.Visualizer().plot_wfc3d(m, c.carr(w), QN[:n], convention=conv, k_point=k, rn_max=tuple(rn), cube_name="w.cube", cube_origin=c.farr(org), cube_size=c.farr([c.num("0.13"), c.num("0.07"), c.num("0.07")]),
                                 resolution=res, kind=out)
    h = res / b
    R = [(x, y, z) for x in range(-rn[0], rn[0] + 1) for y in range(-rn[1], rn[1] + 1) for z in range(-rn[2], rn[2] + 1)]
    vals = []
    for g in ((0, 0, 0), (1, 0, 0)):
        pt = [org[i] / b + g[i] * h for i in range(3)]
        psi = 0 * c.I
        for i in range(n):
            for r in R:
                at = [x + y for x, y in zip(pos[i], combv(r, L))]
                arg = sum((k[x] * (r[x] + (fr[i][x] if conv == 1 else 0)) for x in range(3)), c.num(0))
                psi = psi + w[i] * c.cis(2 * c.pi * arg) * orbital(c, QN[i], [p - q for p, q in zip(pt, at)])
        psi = psi / c.sqrt(c.num(len(R)))
        vals.append(c.re(psi) if out == "real" else c.im(psi) if out == "imag" else c.abs2(psi))
    atoms = [(QN[i][0], [x + y for x, y in zip(pos[i], combv(r, L))]) for i in range(n) for r in R]
    cube(c, "w.cube", out, (2, 1, 1), [x / b for x in org], h, atoms, vals)


@case(quick=[dict(k=False), dict(k=True)])
def defaults(c, k):
    """Default arguments: k = 0, no images, grid from the lowest coordinates, at least 1 nm wide; an s orbital on a grid point."""
    b = bohr(c)
    pc = c.tb.PrimitiveCell(c.farr([[2, 0, 0], [0, 2, 0], [0, 0, 2]]), unit=1.0)
    far = c.num("1.5")
    p = [[c.num("0.2"), c.num("0.4"), c.num("0.1")], [c.num("0.2") + far, c.num("0.4"), c.num("0.1")]]
    for q in p:
        pc.add_orbital(tuple(x / 2 for x in q), 0.0)
    w = [c.cplx("w0", 1), c.cplx("w1", 1)]
    kw = dict(k_point=(0, 0, 0), rn_max=(0, 0, 0)) if k else {}
    qn = [(2, 1, 0, 0), (1, 2, 0, 0)]
    c.tb.Visualizer().plot_wfc3d(pc, c.carr(w), qn, resolution=c.num("0.7"), cube_name="d.cube", **kw)
    h = c.num("0.7") / b
    vals = []
    for g in range(2):
        v = c.num(0)
        for i in range(2):
            r = c.abs(g * h - (far / b if i else 0))
            Z, n = qn[i][:2]
            v = v + c.re(w[i]) * radial(c, Z, n, 0, r) * c.sqrt(c.num(1) / 4 / c.pi)
        vals.append(v)
    cube(c, "d.cube", "real", (2, 1, 1), [x / b for x in p[0]], h, [(qn[i][0], [x / b for x in p[i]]) for i in range(2)], vals)


class Recorder:
    """Stand-in for pyplot, axes and figures: records what is drawn."""
    def __init__(self):
        self.calls = []
        self.rcParams = {"axes.linewidth": 1.0}

    def subplots(self, *a, **k):
        self.calls.append(("subplots", a, k))
        return self, self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "spines":
            return Any()

        def fn(*a, **k):
            self.calls.append((name, a, k))
            return self
        return fn

    def all(self, name):
        return [(a, k) for n, a, k in self.calls if n == name]


class Any:
    def __getitem__(self, k):
        return self

    def __getattr__(self, k):
        return self

    def __call__(self, *a, **k):
        return self


def figure(c):
    """A visualizer that draws on a recorder, or None if it no longer uses pyplot by that name."""
    m = c.mod("tbplas.visual")
    if not all(hasattr(m, x) for x in ("plt", "mc", "griddata")):
        return None, None, None
    rec = Recorder()
    interp = []

    def griddata(points, values, xi, method="linear", **kw):
        """Not an interpolation: value of a plane through the data, enough to see which point is which."""
        interp.append((points, values, xi))
        return c.np.array([10 * p[0] + p[1] for p in xi])
    old = m.plt, m.mc, m.griddata
    m.plt, m.mc, m.griddata = rec, rec, griddata

    def undo():
        m.plt, m.mc, m.griddata = old
    c.defer(undo)
    return c.tb.Visualizer(), rec, interp


@case(quick=[dict(nb=1), dict(nb=3)])
def band_plot(c, nb):
    v, rec, _ = figure(c)
    if v is None:
        return
    nk = 3
    k = [c.num(0), c.real("k1", 0.25, 1), c.real("k2", 1.5, 2)]
    E = [[c.real(f"e{i}{j}", -1, 1) for j in range(nb)] for i in range(nk)]
    lab = ["G", "M"]
    v.plot_bands(c.farr(k), c.farr(E), c.iarr([0, 2]), lab, fig_name="x.png")
    lines = rec.all("plot")
    c.check("one line per band", len(lines) == nb)
    for b, (a, kw) in enumerate(lines):
        c.eq(f"abscissa {b}", a[0], k)
        c.eq(f"band {b}", a[1], [E[i][b] for i in range(nk)])
    c.eq("vertical lines", [a[0] for a, kw in rec.all("axvline")], [k[0], k[2]])
    c.eq("ticks", rec.all("set_xticks")[-1][0][0], [k[0], k[2]])
    c.check("labels", list(rec.all("set_xticklabels")[-1][0][0]) == lab)
    c.eq("range", rec.all("set_xlim")[-1][0][0], [0, k[2]])
    c.check("saved", [a[0] for a, kw in rec.all("savefig")] == ["x.png"])


@case(quick=[dict(polar=p, scatter=s) for p in (False, True) for s in (False, True)])
def line_plots(c, polar, scatter):
    v, rec, _ = figure(c)
    if v is None:
        return
    x = [c.real(f"x{i}", 0, 1) for i in range(3)]
    y = [c.real(f"y{i}", 0, 1) for i in range(3)]
    v.plot_dos(c.farr(x), c.farr(y), fig_name="d.png")
    a, kw = rec.all("plot")[0]
    c.eq("energies", a[0], x)
    c.eq("dos", a[1], y)
    ph = [[c.real(f"p{i}{j}", 0, 1) for j in range(2)] for i in range(3)]
    rec.calls.clear()
    v.plot_phases(c.farr(x), c.farr(ph), scatter=scatter, polar=polar, fig_name="p.png")
    lines = rec.all("scatter" if scatter else "plot")
    c.check("one line per phase", len(lines) == 2)
    for b, (a, kw) in enumerate(lines):
        col = [ph[i][b] for i in range(3)]
        c.eq(f"abscissa {b}", a[0], col if polar else x)
        c.eq(f"ordinate {b}", a[1], x if polar else col)
    kind = rec.all("subplots")[0][1].get("subplot_kw")
    c.check("axes", (kind == {"projection": "polar"}) == polar)


@case(quick=[dict(grid=[2, 3]), dict(grid=[3, 2])])
def scalar_plot(c, grid):
    """Rows of the image have constant y, columns constant x."""
    v, rec, interp = figure(c)
    if v is None:
        return
    x = [c.num(0), c.real("x1", 1, 2), c.num("0.5")]
    y = [c.num(0), c.num("0.25"), c.real("y2", 1, 2)]
    z = [c.real(f"z{i}", 0, 1) for i in range(3)]
    v.plot_scalar(c.farr(x), c.farr(y), c.farr(z), num_grid=tuple(grid), fig_name="s.png")
    a, kw = rec.all("imshow")[0]
    nx, ny = grid
    exp = [[10 * x[1] * i / (nx - 1) + y[2] * j / (ny - 1) for i in range(nx)] for j in range(ny)]
    c.eq("image", a[0], exp)
    c.eq("extent", kw["extent"], [0, x[1], 0, y[2]])
    c.check("origin", kw.get("origin") == "lower")
    (px, py), vals, xi = interp[0]
    c.eq("data", [list(px), list(py), list(vals)], [x, y, z])
    rec.calls.clear()
    v.plot_scalar(c.farr(x), c.farr(y), c.farr(z), scatter=True, fig_name="s.png")
    a, kw = rec.all("scatter")[0]
    c.eq("points", [list(a[0]), list(a[1]), list(kw["c"])], [x, y, z])
    rec.calls.clear()
    u = [c.real(f"u{i}", 0.1, 1) for i in range(3)]
    v.plot_vector(c.farr(x), c.farr(y), c.farr(u), c.farr(z), fig_name="v.png")
    a, kw = rec.all("quiver")[0]
    c.eq("arrows", [list(t) for t in a[:4]], [x, y, u, z])
    c.eq("lengths", [t * t for t in a[4]], [p * p + q * q for p, q in zip(u, z)])


@case(quick=[dict(kind="cell"), dict(kind="sample")])
def wfc_plot(c, kind):
    """Weights are drawn at the orbitals, hopping terms as lines between the orbitals they connect."""
    v, rec, _ = figure(c)
    if v is None:
        return
    b = bohr(c)
    m, pos, L, fr = model(c, kind, [c.num("0.1"), c.num("0.05"), c.num("0.0")])
    n = len(pos)
    z = [c.real(f"z{i}", 0, 1) for i in range(n)]
    v.plot_wfc(m, c.farr(z), scatter=True, fig_name="s.png")
    pos = [[t * b for t in p] for p in pos]
    L = [[t * b for t in p] for p in L]
    a, kw = rec.all("scatter")[0]
    c.eq("points", [list(a[0]), list(a[1]), list(kw["c"])], [[p[0] for p in pos], [p[1] for p in pos], z])
    lines = rec.all("LineCollection")[0][0][0]
    hop = [(0, 1, (1, 0, 0))] if kind == "cell" else [(0, 1, (0, 0, 0)), (2, 3, (0, 0, 0))]
    c.check("one line per hopping term", len(lines) == len(hop))
    for i, j, r in hop:
        p, q = pos[i], [s + t for s, t in zip(pos[j], combv(r, L))]
        seg = [p[0], p[1], q[0], q[1]]
        rev = [p[0] + pos[j][0] - q[0], p[1] + pos[j][1] - q[1]]
        back = [pos[j][0], pos[j][1]] + rev
        found = False
        for u, w in lines:
            got = [u[0], u[1], w[0], w[1]]
            for want in (seg, back):
                found = c.Or(found, all_(c, [c.abs(s - t) < 1e-6 for s, t in zip(got, want)]))
        c.check(f"line from {i} to {j}", found)
    rec.calls.clear()
    v.plot_wfc(m, c.farr(z), with_model=False, scatter=True, fig_name="s.png")
    c.check("no model", not rec.all("LineCollection"))


def canvas(c):
    """Recorder in place of pyplot and line collections for drawings of models."""
    mods = [c.mod("tbplas.builder." + x) for x in ("primitive", "super", "sample", "visual")]
    if not hasattr(mods[0], "plt") or not hasattr(mods[2], "plt") or not hasattr(mods[3], "mc"):
        return None
    rec = Recorder()
    old = [(m, n, getattr(m, n)) for m in mods for n in ("plt", "mc") if hasattr(m, n)]
    for m, n, _ in old:
        setattr(m, n, rec)

    def undo():
        for m, n, v in old:
            setattr(m, n, v)
    c.defer(undo)
    return rec


def same_set(c, label, got, exp, swap=False):
    """The same tuples of numbers in any order (swap: end points of lines may be exchanged)."""
    c.check(label + ": number", len(got) == len(exp))
    for n, e in enumerate(exp):
        found = False
        for g in got:
            for want in (e, tuple(e[2:]) + tuple(e[:2]))[:2 if swap else 1]:
                found = c.Or(found, all_(c, [c.abs(s - t) < 1e-6 for s, t in zip(g, want)]))
        c.check(f"{label}: {n}", found)


def drawn(c, rec, arrows, cells=True):
    """Points (x, y, colour), hopping terms (x, y, x', y'), grid lines and lattice vectors."""
    pts = []
    for a, kw in rec.all("scatter"):
        col = list(kw["c"])
        c.check("one colour per orbital", len(col) == len(a[0]) == len(a[1]))
        pts += [(x, y, q) for x, y, q in zip(a[0], a[1], col)]
    arr = [(a[0], a[1], a[0] + a[2], a[1] + a[3]) for a, kw in rec.all("arrow")]
    lc = [[(u[0], u[1], w[0], w[1]) for u, w in a[0]] for a, kw in rec.all("LineCollection")]
    kinds = [kw.get("linestyle") for a, kw in rec.all("LineCollection")]
    grid = [s for q, k in zip(lc, kinds) if k is not None for s in q]
    hop = [s for q, k in zip(lc, kinds) if k is None for s in q]
    vec = [s for s, (a, kw) in zip(arr, rec.all("arrow")) if kw.get("color") == "k"]
    if arrows:
        hop = hop + [s for s, (a, kw) in zip(arr, rec.all("arrow")) if kw.get("color") != "k"]
    return pts, hop, grid, vec


def plane(view):
    d = ["abc".index(x) for x in view]
    return d, sorted(d)


def grid_lines(c, L, o, d, pq, lim):
    """Lines of the cells in the plane of two lattice vectors."""
    out = []
    p, q = pq

    def at(i, j):
        r = [0, 0, 0]
        r[p], r[q] = i, j
        x = combv(r, L, o)
        return x[d[0]], x[d[1]]
    for i in range(lim[0][0], lim[0][1] + 1):
        out.append(at(i, lim[1][0]) + at(i, lim[1][1]))
    for j in range(lim[1][0], lim[1][1] + 1):
        out.append(at(lim[0][0], j) + at(lim[0][1], j))
    z = at(0, 0)
    return out, [z + at(1, 0), z + at(0, 1)]


@case(quick=[dict(view=v, arrows=a, conj=k) for v, a, k in (("ab", True, True), ("ab", False, False), ("ba", False, True), ("bc", True, False), ("ca", False, True))],
      thorough=[dict(view=v, arrows=a, conj=k) for v in ("ab", "bc", "ca", "ba", "cb", "ac") for a in (True, False) for k in (True, False)])
def cell_drawing(c, view, arrows, conj):
    """Primitive cell: orbitals in every cell reached, hopping terms above the cutoff between the orbitals they connect, cells, lattice vectors."""
    rec = canvas(c)
    if rec is None:
        return
    L = [[c.real("a", 0.5, 1), c.num("0.1"), 0], [c.real("b", 0.1, 0.3), 1, c.num("0.25")], [0, c.num("-0.2"), c.real("c", 1, 2)]]
    o = [c.real("o0", -1, 1), c.real("o1", -1, 1), c.num("0.5")]
    pc = c.tb.PrimitiveCell(c.farr(L), c.farr(o), unit=1.0)
    e = [c.real("e0", 0, 1), c.real("e1", 2, 3)]
    fr = [(0, 0, 0), (c.real("x", 0.1, 0.4), c.real("y", 0.1, 0.4), c.num("0.3"))]
    for i in range(2):
        pc.add_orbital(fr[i], e[i])
    t = [c.real("t0", 1, 2), c.real("t1", 0.1, 0.4), c.real("t2", -2, -1)]
    terms = [((0, 0, 0), 0, 1), ((1, -1, 0), 0, 0), ((1, 0, 1), 1, 0)]
    for h, v in zip(terms, t):
        pc.add_hopping(*h, v)
    kw = dict(view=view) if view != "ab" else {}
    pc.plot(fig_name="c.png", hop_as_arrows=arrows, with_conj=conj, hop_eng_cutoff=0.5, **kw)
    d, pq = plane(view)
    lo, hi = ([-1, -1, -1], [1, 1, 1]) if conj else (None, None)
    if not conj:
        ind = [[int(c.const(x)) if c.symbolic else int(x) for x in r[:3]] for r in pc.hop_ind]
        lo, hi = [min(r[x] for r in ind) for x in range(3)], [max(r[x] for r in ind) for x in range(3)]
    pos = [combv(f, L, o) for f in fr]
    pts, hop, grid, vec = drawn(c, rec, arrows)
    exp = []
    for ia in range(lo[0], hi[0] + 1):
        for ib in range(lo[1], hi[1] + 1):
            for ic in range(lo[2], hi[2] + 1):
                for i in range(2):
                    p = combv((ia, ib, ic), L, pos[i])
                    exp.append((p[d[0]], p[d[1]], e[i]))
    same_set(c, "orbitals", pts, exp)
    seg = []
    for (rn, i, j), ok in zip(terms, (1, 0, 1)):
        q = combv(rn, L, pos[j])
        dr = [q[x] - pos[i][x] for x in range(3)]
        fwd = (pos[i][d[0]], pos[i][d[1]], q[d[0]], q[d[1]])
        back = (pos[j][d[0]], pos[j][d[1]], pos[j][d[0]] - dr[d[0]], pos[j][d[1]] - dr[d[1]])
        if ok:
            seg.append((fwd, back))
    if conj:
        same_set(c, "hopping terms", hop, [s for p in seg for s in p], not arrows)
    else:
        c.check("number of hopping terms", len(hop) == len(seg))
        for n, p in enumerate(seg):
            f = False
            for g in hop:
                for w in p:
                    f = c.Or(f, all_(c, [c.abs(s - t) < 1e-6 for s, t in zip(g, w)]))
            c.check(f"hopping term {n}", f)
    lines, vecs = grid_lines(c, L, o, d, pq, [(lo[x], hi[x] + 1) for x in pq])
    same_set(c, "cells", grid, lines, True)
    same_set(c, "lattice vectors", vec, vecs)
    c.check("saved", [a[0] for a, kw in rec.all("savefig")] == ["c.png"])
    rec.calls.clear()
    pc.plot(fig_name="c.png", with_orbitals=False, with_cells=False, orb_color=lambda x: ["g"] * len(x))
    pts, hop, grid, vec = drawn(c, rec, True)
    c.check("only hopping terms", not pts and not grid and not vec and len(hop) == 6)


@case(quick=[dict(view="ab", arrows=True, conj=False), dict(view="cb", arrows=False, conj=False), dict(view="ac", arrows=True, conj=True)],
      thorough=[dict(view=v, arrows=a, conj=k) for v in ("ab", "bc", "ca") for a in (True, False) for k in (True, False)])
def sample_drawing(c, view, arrows, conj):
    """Sample of two super cells: all orbitals, hopping terms and inter-cell terms."""
    rec = canvas(c)
    if rec is None:
        return
    L = [[c.real("a", 0.5, 1), c.num("0.1"), 0], [c.real("b", 0.1, 0.3), 1, c.num("0.25")], [0, c.num("-0.2"), c.real("c", 1, 2)]]
    o = [c.real("o0", -1, 1), c.num("0.25"), c.num("0.5")]
    x = c.real("x", 0.1, 0.4)

    def cell(fr, org, e):
        pc = c.tb.PrimitiveCell(c.farr(L), c.farr(org), unit=1.0)
        pc.add_orbital(fr, e)
        return pc
    e = [c.real("e0", 0, 1), c.real("e1", 2, 3)]
    pa, pb = cell((x, 0, 0), o, e[0]), cell((0, 0, x), [o[0], o[1], o[2] + 2], e[1])
    pa.add_hopping((1, 0, 0), 0, 0, c.real("t", 1, 2))
    sa = c.tb.SuperCell(pa, dim=(3, 1, 1), pbc=(True, False, False))
    pb.add_hopping((0, 1, 0), 0, 0, c.real("u", 1, 2))
    sb = c.tb.SuperCell(pb, dim=(1, 3, 1), pbc=(False, False, False))
    ih = c.tb.SCInterHopping(sa, sb)
    ih.add_hopping((0, 0, 0), 2, 1, c.real("s", 1, 2))
    ih.add_hopping((0, 0, 0), 0, 0, c.real("w", 0.1, 0.4))
    smp = c.tb.Sample(sa, sb, ih)
    kw = dict(view=view) if view != "ab" else {}
    smp.plot(fig_name="s.png", hop_as_arrows=arrows, with_conj=conj, hop_eng_cutoff=0.5, **kw)
    d, pq = plane(view)
    A = [combv((x + i, 0, 0), L, o) for i in range(3)]
    B = [combv((0, i, x), L, [o[0], o[1], o[2] + 2]) for i in range(3)]
    pts, hop, grid, vec = drawn(c, rec, arrows)
    same_set(c, "orbitals", pts, [(p[d[0]], p[d[1]], e[0]) for p in A] + [(p[d[0]], p[d[1]], e[1]) for p in B])
    bonds = [(A[i], A[(i + 1) % 3], [A[i][k] + L[0][k] for k in range(3)]) for i in range(3)] + [(A[2], B[1], B[1])] + [(B[i], B[i + 1], B[i + 1]) for i in range(2)]
    seg = []
    for p, q, end in bonds:
        fwd = (p[d[0]], p[d[1]], end[d[0]], end[d[1]])
        back = (q[d[0]], q[d[1]], q[d[0]] - (end[d[0]] - p[d[0]]), q[d[1]] - (end[d[1]] - p[d[1]]))
        seg.append((fwd, back))
    if conj:
        same_set(c, "hopping terms", hop, [s for p in seg for s in p], not arrows)
    else:
        c.check("number of hopping terms", len(hop) == len(seg))
        for n, p in enumerate(seg):
            f = False
            for g in hop:
                for w in p:
                    f = c.Or(f, all_(c, [c.abs(s - t) < 1e-6 for s, t in zip(g, w)]))
            c.check(f"hopping term {n}", f)
    g1, v1 = grid_lines(c, L, o, d, pq, [(0, (3, 1, 1)[k]) for k in pq])
    g2, v2 = grid_lines(c, L, [o[0], o[1], o[2] + 2], d, pq, [(0, (1, 3, 1)[k]) for k in pq])
    same_set(c, "cells", grid, g1 + g2, True)
    same_set(c, "lattice vectors", vec, v1 + v2)
    c.check("saved", [a[0] for a, kw in rec.all("savefig")] == ["s.png"])
    rec.calls.clear()
    smp.plot(fig_name="s.png", with_orbitals=False, with_cells=False, sc_hop_colors=["b", "g"], inter_hop_colors=["y"])
    pts, hop, grid, vec = drawn(c, rec, True)
    c.check("only hopping terms", not pts and not grid and not vec and len(hop) == 7)
    c.check("colours", sorted(kw["color"] for a, kw in rec.all("arrow")) == ["b", "b", "b", "g", "g", "y", "y"])
