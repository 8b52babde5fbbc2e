"""C22: a model imported from Wannier90 files is the model the files define."""
from engine.run import case
from checks.common import canon, Hops, check_cell_hops, ref_ham
from checks.hamiltonian import dense

BOUNDS = ("files with one or two Wannier functions and up to four lattice vectors (sixteen for the layout of the degeneracy table); lattice vectors, centres, all matrix elements symbolic; "
          "units Angstrom and Bohr; degeneracies and correction vectors chosen from small sets")
OUTSIDE = "malformed files; matrix elements within 1e-3 of the cutoff; files whose H(-R) is not the conjugate of H(R)"


class Text:
    """Builds file text in which numbers are named tokens."""
    def __init__(self):
        self.tok = {}

    def num(self, v):
        k = f"@{len(self.tok)}@"
        self.tok[k] = v
        return k


def write_win(c, T, lat, units):
    t = "num_wann = 2\nbegin unit_cell_cart\n" + (units + "\n" if units else "")
    t += "".join("  ".join(T.num(x) for x in r) + "\n" for r in lat)
    t += "end unit_cell_cart\n\nbegin atoms_frac\nC 0.0 0.0 0.0\nend atoms_frac\nmp_grid = 2 2 1\n"
    c.vfs("w.win", t, T.tok)


def write_xyz(c, T, pos):
    t = f"{len(pos) + 1}\n Wannier centres, written by Wannier90\n"
    t += "".join("X   " + "  ".join(T.num(x) for x in p) + "\n" for p in pos)
    t += "C   0.1 0.2 0.3\n"
    c.vfs("w_centres.xyz", t, T.tok)


def write_hr(c, T, n, rs, deg, H):
    t = f" written on 18Nov2020\n {n}\n {len(rs)}\n"
    for i in range(0, len(rs), 15):
        t += "".join(f"{d:5d}" for d in deg[i:i + 15]) + "\n"
    for r in rs:
        for j in range(n):
            for i in range(n):
                h = H[tuple(r)][i][j]
                t += f"{r[0]:5d}{r[1]:5d}{r[2]:5d}{i + 1:5d}{j + 1:5d}  {T.num(c.re(h))}  {T.num(c.im(h))}\n"
    c.vfs("w_hr.dat", t, T.tok)


def values(c, n, rs, lo=0.2, small=()):
    """Hermitian set of matrix elements; those listed in small stay below the cutoff."""
    H = {}
    for k, r in enumerate(rs):
        r = tuple(r)
        if tuple(-x for x in r) in H and r != (0, 0, 0):
            o = H[tuple(-x for x in r)]
            H[r] = [[c.conj(o[j][i]) for j in range(n)] for i in range(n)]
            continue
        m = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if r == (0, 0, 0) and j < i:
                    m[i][j] = c.conj(m[j][i])
                elif r == (0, 0, 0) and i == j:
                    m[i][j] = (-1) ** (i + 1) * (c.real(f"h{k}{i}{j}r", lo, 1) if (r, i, j) not in small else c.real(f"h{k}{i}{j}r", 0.001, 0.03)) + 0 * c.I
                elif (r, i, j) in small:
                    m[i][j] = c.real(f"h{k}{i}{j}r", -0.03, 0.03) + c.I * c.real(f"h{k}{i}{j}i", 0.001, 0.03)
                else:
                    # either part may be small or negative
                    a, b = c.real(f"h{k}{i}{j}r", lo, 1), c.real(f"h{k}{i}{j}i", -0.02, 1)
                    m[i][j] = [a + c.I * b, b - c.I * a, -a + c.I * b, b + c.I * a][(k + i + 2 * j) % 4]
        H[r] = m
    return H


def common(c, n, units):
    a, b, h = c.real("a", 1, 2), c.real("b", 1, 2), c.real("h", 1, 2)
    lat = [[a, 0, 0], [c.num(1) / 2, b, 0], [0, 0, h]]
    f = [[c.real(f"f{i}{k}", -1.5, 1.5) for k in range(3)] for i in range(n)]
    u = c.mod("tbplas.base").BOHR2ANG if units in ("Bohr", "bohr") else 1
    pos = [[u * sum((p[k] * lat[k][x] for k in range(3)), c.num(0)) for x in range(3)] for p in f]
    T = Text()
    write_win(c, T, lat, units)
    write_xyz(c, T, pos)
    return T, [[u * x for x in r] for r in lat], f


def verify(c, pc, n, lat, f, H):
    """H: {R: matrix} of everything that must be in the model."""
    nm = c.mod("tbplas.base").NM if hasattr(c.mod("tbplas.base"), "NM") else 1
    c.eq("lattice", pc.lat_vec, [[x / 10 for x in r] for r in lat])
    pc.sync_array()
    c.check("number of orbitals", pc.num_orb == n)
    c.eq("centres", pc.orb_pos, f)
    eng = [c.re(H[0, 0, 0][i][i]) if (0, 0, 0) in H else c.num(0) for i in range(n)]
    c.eq("on-site energies", pc.orb_eng, eng)
    k = [c.num(1) / 8, -c.num(1) / 3, c.num(1) / 5]
    got = c.np.zeros((n, n), dtype=c.np.complex128)
    pc.set_ham_dense(c.farr(k), got, 2)
    exp = [[0 * c.I] * n for _ in range(n)]
    for r, m in H.items():
        ph = c.cis(2 * c.pi * sum((a * b for a, b in zip(k, r)), c.num(0)))
        for i in range(n):
            for j in range(n):
                exp[i][j] = exp[i][j] + m[i][j] * ph
    c.eq("H(k)", got, exp)


R1 = [[-1, 0, 0], [0, 0, 0], [1, 0, 0]]
R2 = [[0, -1, 1], [0, 0, 0], [0, 1, -1]]


@case(quick=[dict(n=1, rs=R1, deg=[1, 1, 1], units=""), dict(n=2, rs=R1, deg=[2, 1, 2], units="Ang"), dict(n=2, rs=R2, deg=[3, 1, 3], units="Bohr"), dict(n=1, rs=R2, deg=[2, 1, 2], units="bohr"),
             dict(n=2, rs=[[0, 0, 0]], deg=[1], units="ang")], thorough=[dict(n=3, rs=R1, deg=[2, 1, 2], units="ang")])
def model(c, n, rs, deg, units):
    T, lat, f = common(c, n, units)
    H = values(c, n, rs)
    write_hr(c, T, n, rs, deg, H)
    pc = c.tb.wan2pc("w", hop_eng_cutoff=0.01)
    exp = {r: [[x / deg[rs.index(list(r))] for x in row] for row in m] for r, m in H.items()}
    verify(c, pc, n, lat, f, exp)


@case(quick=[dict(nr=15), dict(nr=17)], thorough=[dict(nr=31)])
def layout(c, nr):
    """The degeneracy table has fifteen numbers per line."""
    T, lat, f = common(c, 1, "ang")
    half = nr // 2
    rs = [[i - half, 0, 0] for i in range(nr)]
    deg = [1 + abs(i - half) % 3 for i in range(nr)]
    H = values(c, 1, rs)
    write_hr(c, T, 1, rs, deg, H)
    pc = c.tb.wan2pc("w", hop_eng_cutoff=0.01)
    verify(c, pc, 1, lat, f, {r: [[x / deg[rs.index(list(r))] for x in row] for row in m] for r, m in H.items()})


@case(quick=[dict(small=[[[1, 0, 0], 0, 1]]), dict(small=[[[0, 0, 0], 0, 1]]), dict(small=[]), dict(small=[[[1, 0, 0], 0, 0], [[0, 0, 0], 1, 1]]), dict(small=[[[1, 0, 0], 1, 1], [[1, 0, 0], 1, 0]])])
def cutoff(c, small):
    """Terms below the cutoff are dropped, all others kept."""
    T, lat, f = common(c, 2, "ang")
    sm = [(tuple(r), i, j) for r, i, j in small]
    rs = [[1, 0, 0], [0, 0, 0], [-1, 0, 0]]
    H = values(c, 2, rs, small=sm)
    write_hr(c, T, 2, rs, [1, 1, 1], H)
    pc = c.tb.wan2pc("w", hop_eng_cutoff=c.real("cut", 0.05, 0.15))
    dead = sm + [(tuple(-x for x in r), j, i) for r, i, j in sm]
    exp = {r: [[(0 * c.I if (r, i, j) in dead else m[i][j]) for j in range(2)] for i in range(2)] for r, m in H.items()}
    verify(c, pc, 2, lat, f, exp)
    c.check("number of hopping terms", pc.num_hop == 5 - sum(r != (0, 0, 0) or i != j for r, i, j in sm))


WS = {
    "none": {},
    # R and R + T (T = 2 a1) are equivalent
    "both": {((1, 0, 0), 0, 0): [(0, 0, 0), (-2, 0, 0)], ((-1, 0, 0), 0, 0): [(0, 0, 0), (2, 0, 0)]},
    "one": {((1, 0, 0), 0, 1): [(-2, 0, 0)], ((-1, 0, 0), 1, 0): [(2, 0, 0)]},
    "far": {((1, 0, 0), 0, 1): [(0, 2, 0), (0, 0, 0), (-2, 0, 0)], ((-1, 0, 0), 1, 0): [(0, -2, 0), (0, 0, 0), (2, 0, 0)]},
}


@case(quick=[dict(kind=k, n=2) for k in ("none", "one", "far")] + [dict(kind="both", n=1), dict(kind="both", n=2)])
def corrected(c, kind, n):
    """Correction vectors: every term is shared equally by its corrected positions."""
    T, lat, f = common(c, n, "ang")
    rs, deg = [[-1, 0, 0], [0, 0, 0], [1, 0, 0]], [2, 1, 2]
    H = values(c, n, rs)
    write_hr(c, T, n, rs, deg, H)
    t = "## written on 18Nov2020 with use_ws_distance=.true.\n"
    exp = {}
    for r in rs:
        for i in range(n):
            for j in range(n):
                vs = WS[kind].get((tuple(r), i, j), [(0, 0, 0)])
                t += f"{r[0]:5d}{r[1]:5d}{r[2]:5d}{i + 1:5d}{j + 1:5d}\n{len(vs):5d}\n" + "".join(f"{v[0]:5d}{v[1]:5d}{v[2]:5d}\n" for v in vs)
                for v in vs:
                    q = tuple(a + b for a, b in zip(r, v))
                    m = exp.setdefault(q, [[0 * c.I] * n for _ in range(n)])
                    m[i][j] = m[i][j] + H[tuple(r)][i][j] / deg[rs.index(r)] / len(vs)
    c.vfs("w_wsvec.dat", t)
    pc = c.tb.wan2pc("w", correct_hop=True, hop_eng_cutoff=0.0)
    verify(c, pc, n, lat, f, exp)


@case(quick=[dict(n=1)])
def errors(c, n):
    T, lat, f = common(c, n, "ang")
    write_hr(c, T, n, R1, [1, 1, 1], values(c, n, R1))
    c.raises("no correction file", FileNotFoundError, lambda: c.tb.wan2pc("w", correct_hop=True))
    write_win(c, T, lat, "furlong")
    c.raises("unknown unit", ValueError, lambda: c.tb.wan2pc("w"))
