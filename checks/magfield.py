"""C11: Peierls phases."""
from engine.run import case

BOUNDS = "every bond, triangle and quadrilateral of samples of up to six orbitals in one or two super cells, each gauge; positions, field, hopping values symbolic"
OUTSIDE = "terms wrapped around periodic boundaries (the sum of the wrapped positions enters; no gauge-invariance is claimed there)"

PHI0 = "4135.666734"


def single(c, dim=(2, 1, 1)):
    pc = c.tb.PrimitiveCell(c.farr([[c.real("a", 0.2, 2), 0, 0], [0, 1, 0], [0, 0, 1]]), unit=1.0)
    tau = [[c.real(f"p{i}{x}") for x in range(3)] for i in range(3)]
    for i in range(3):
        pc.add_orbital(tuple(tau[i]), c.real(f"e{i}"))
    ts = [c.cplx(f"t{k}") for k in range(3)]
    for k, (i, j) in enumerate(((0, 1), (1, 2), (2, 0))):
        pc.add_hopping((0, 0, 0), i, j, ts[k])
    return c.tb.SuperCell(pc, dim)


def bonds(c, s):
    d = {}
    for n in range(len(s.hop_i)):
        i, j = int(s.hop_i[n]), int(s.hop_j[n])
        d[(i, j)] = s.hop_v[n]
        d[(j, i)] = c.conj(s.hop_v[n])
    return d


def area(p):
    """Signed area of a polygon in the xy plane."""
    a = 0
    for n in range(len(p)):
        q, r = p[n], p[(n + 1) % len(p)]
        a = a + (q[0] * r[1] - r[0] * q[1]) / 2
    return a


def loop(d, ids):
    x = 1
    for n in range(len(ids)):
        x = x * d[(ids[n], ids[(n + 1) % len(ids)])]
    return x


def make(c):
    """Two super cells: a triangle per cell in the first, coupled to a third pair of orbitals."""
    s1 = single(c, (2, 1, 1))
    pc = c.tb.PrimitiveCell(c.np.eye(3), unit=1.0)
    pc.add_orbital((c.real("q0x"), c.real("q0y"), 0.5), c.real("f0"))
    pc.add_orbital((c.real("q1x"), c.real("q1y"), 0.0), c.real("f1"))
    pc.add_hopping((0, 0, 0), 0, 1, c.cplx("w"))
    s2 = c.tb.SuperCell(pc, (1, 1, 1))
    h = c.tb.SCInterHopping(s1, s2)
    for k, (i, j) in enumerate(((0, 0), (1, 1), (3, 0), (4, 1))):
        h.add_hopping((0, 0, 0), i, j, c.cplx(f"h{k}"))
    s1.add_hopping((0, 0, 0), 2, 3, c.cplx("x"))
    return s1, s2, h


LOOPS = [(0, 1, 2), (3, 4, 5), (0, 1, 7, 6), (3, 4, 7, 6), (0, 6, 3, 2)]


@case(quick=[dict(gauge=g) for g in (0, 1, 2)])
def flux(c, gauge):
    """Closed loops enclose the flux, single bonds follow the documented vector potential."""
    s1, s2, h = make(c)
    s = c.tb.Sample(s1, s2, h)
    s.init_orb_eng()
    s.init_orb_pos()
    s.init_hop()
    pos = [[s.orb_pos[i][x] for x in range(3)] for i in range(8)]
    eng = [s.orb_eng[i] for i in range(8)]
    dr = [[s.dr[i][x] for x in range(3)] for i in range(len(s.dr))]
    old = bonds(c, s)
    b = c.real("B")
    s.set_magnetic_field(b, gauge)
    new = bonds(c, s)
    c.check("same terms", sorted(old) == sorted(new))
    ks = [k for k in sorted(old) if k[0] < k[1]]
    c.eq("moduli", [c.abs2(new[k]) for k in ks], [c.abs2(old[k]) for k in ks])
    c.eq("on-site energies", s.orb_eng, eng)
    c.eq("positions", s.orb_pos, pos)
    c.eq("displacements", s.dr, dr)
    ph0 = 2 * c.pi / c.num(PHI0)
    for l in LOOPS:
        # the field points to -z: the phase around a loop is minus the enclosed flux, with the orientation of the loop
        c.eq("flux through a loop", loop(new, l), loop(old, l) * c.cis(-ph0 * b * area([pos[i] for i in l])))
    for k in ks:
        p, q = pos[k[0]], pos[k[1]]
        mx, my = (p[0] + q[0]) / 2, (p[1] + q[1]) / 2
        ax, ay = {0: (b * my, 0), 1: (0, -b * mx), 2: (b * my / 2, -b * mx / 2)}[gauge]
        c.eq("line integral along a bond", new[k], old[k] * c.cis(ph0 * (ax * (q[0] - p[0]) + ay * (q[1] - p[1]))))


@case(quick=[dict(gauge=g) for g in (0, 1, 2)])
def reverse(c, gauge):
    """Opposite fields cancel, fields add up; Hermiticity survives."""
    s = c.tb.Sample(single(c, (1, 1, 1)))
    s.init_orb_eng()
    s.init_orb_pos()
    s.init_hop()
    old = bonds(c, s)
    a, b = c.real("A"), c.real("B")
    s.set_magnetic_field(a, gauge)
    s.set_magnetic_field(b, gauge)
    two = bonds(c, s)
    h = s.build_ham_csr().toarray()
    c.eq("Hermitian", h, [[c.conj(h[j][i]) for j in range(3)] for i in range(3)])
    s.set_magnetic_field(-(a + b), gauge)
    new = bonds(c, s)
    ks = sorted(old)
    c.eq("cancelled", [new[k] for k in ks], [old[k] for k in ks])
    s.reset_array()
    s.set_magnetic_field(a + b, gauge)
    new = bonds(c, s)
    c.eq("fields add up", [new[k] for k in ks], [two[k] for k in ks])
    s.reset_array()
    new = bonds(c, s)
    c.eq("reset", [new[k] for k in ks], [old[k] for k in ks])


@case()
def rescaled(c):
    """The order of rescaling and applying a field does not matter."""
    s = c.tb.Sample(single(c, (1, 1, 1)))
    f, b = c.real("f", 0.5, 4), c.real("B")
    s.rescale_ham(f)
    s.set_magnetic_field(b)
    x = bonds(c, s)
    t = c.tb.Sample(single(c, (1, 1, 1)))
    t.set_magnetic_field(b, 0)
    t.rescale_ham(f)
    y = bonds(c, t)
    c.eq("same", [x[k] for k in sorted(x)], [y[k] for k in sorted(x)])
    g = c.conc(c.int("g", -1, 4))
    c.assume(g not in (0, 1, 2))
    c.raises("unknown gauge", ValueError, lambda: t.set_magnetic_field(b, g))
    z = bonds(c, t)
    c.eq("refused field changes nothing", [z[k] for k in sorted(x)], [y[k] for k in sorted(x)])
