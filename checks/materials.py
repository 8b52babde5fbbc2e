"""C23: predefined materials: documented parameters reach every term, equivalent constructions have equal spectra, symmetries hold for every k."""
import itertools
from engine.run import case

BOUNDS = ("all k-points of the plane (symbolic fractional coordinates, phases as unit complex variables), hopping t, thickness c and soc_lambda symbolic; for the TMDCs additionally all "
          "tight-binding parameters symbolic; every material of the package")
OUTSIDE = "the numerical values of the published parameters; symmetries of MoS2 with SOC other than time reversal (its geometry is rounded in the source)"


def rotated(k):
    """Rotation by 120 degrees (a1 -> a2 - a1, a2 -> -a1) of the fractional coordinates of k."""
    return [-k[1], k[0] - k[1]]


def kvec(c):
    return [c.real("k0", -1, 1), c.real("k1", -1, 1)]


def ham(c, pc, k, conv=1):
    pc.sync_array()
    n = pc.num_orb
    h = c.np.zeros((n, n), dtype=c.np.complex128)
    kk = list(k) + [0] if len(k) == 2 else list(k)
    pc.set_ham_dense(c.farr(kk), h, conv)
    return [[h[i, j] for j in range(n)] for i in range(n)]


def mul(A, B):
    n, m, p = len(A), len(B), len(B[0])
    out = []
    for i in range(n):
        row = []
        for j in range(p):
            s = None
            for q in range(m):
                a = A[i][q]
                if isinstance(a, int) and a == 0:
                    continue
                b = B[q][j]
                if isinstance(b, int) and b == 0:
                    continue
                s = a * b if s is None else s + a * b
            row.append(0 if s is None else s)
        out.append(row)
    return out


def dagger(c, A):
    return [[(A[j][i] if isinstance(A[j][i], int) else c.conj(A[j][i])) for j in range(len(A))] for i in range(len(A[0]))]


def det(M):
    """Laplace expansion."""
    n = len(M)
    if n == 1:
        return M[0][0]
    s = None
    for j in range(n):
        t = M[0][j] * det([[M[i][x] for x in range(n) if x != j] for i in range(1, n)])
        if j % 2:
            t = -t
        s = t if s is None else s + t
    return s


def conj(c, M):
    return [[c.conj(x + 0 * c.I) for x in r] for r in M]


def hermitian(c, H):
    c.eq("Hermitian", [[H[i][j] for j in range(len(H))] for i in range(len(H))], [[c.conj(H[j][i]) for j in range(len(H))] for i in range(len(H))])


def metric(c, lat):
    return [[sum((lat[i][x] * lat[j][x] for x in range(3)), c.num(0)) for j in range(3)] for i in range(3)]



@case(quick=[dict(kind=x, z=z) for x in ("diamond", "rect", "reshape") for z in (False, True)])
def graphene(c, kind, z):
    t, h = c.cplx("t", 3) if z else c.real("t", -3, -1), c.real("c", 0.5, 2)
    k = kvec(c)
    pc = c.tb.make_graphene_diamond(c=h, t=t) if kind == "diamond" else c.tb.make_graphene_rect(from_scratch=kind == "rect", c=h, t=t)
    a2 = c.num("0.060516")
    g = metric(c, pc.lat_vec)
    if kind == "diamond":
        c.eq("lattice", g, [[a2, a2 / 2, 0], [a2 / 2, a2, 0], [0, 0, h * h]])
    else:
        c.eq("lattice", g, [[a2, 0, 0], [0, 3 * a2, 0], [0, 0, h * h]])
    n = 2 if kind == "diamond" else 4
    c.check("number of orbitals", pc.num_orb == n)
    pc.sync_array()
    # every orbital has three bonds of length a / sqrt(3) and nothing else
    deg = [0] * n
    ln, val = [], []
    pos = [[pc.orb_pos[i, x] for x in range(3)] for i in range(n)]
    for q in range(pc.num_hop):
        rn, i, j = [int(pc.hop_ind[q, x]) for x in range(3)], int(pc.hop_ind[q, 3]), int(pc.hop_ind[q, 4])
        d = [rn[x] + pos[j][x] - pos[i][x] for x in range(3)]
        ln.append(sum((d[x] * g[x][y] * d[y] for x in range(3) for y in range(3)), c.num(0)))
        val.append(pc.hop_eng[q])
        deg[i] += 1
        deg[j] += 1
    c.eq("bond lengths", ln, [a2 / 3] * len(ln))
    if not z:
        c.eq("hopping", val, [t] * len(val))
    c.check("three bonds each", deg == [3] * n)
    c.eq("on-site", pc.orb_eng, [0] * n)
    H = ham(c, pc, k)
    x = c.real("lam", -1, 1)
    # spectrum: lambda**2 = t**2 |1 + e1 + e2|**2, folded for the rectangular cell
    def f2(k1, k2):
        z = 1 + c.cis(2 * c.pi * k1) + c.cis(2 * c.pi * k2)
        return c.abs2(t) * z * c.conj(z)
    if kind == "diamond":
        exp = x * x - f2(k[0], k[1])
    else:
        m = (k[0] + k[1]) / 2
        exp = (x * x - f2(k[0], m)) * (x * x - f2(k[0], m + c.num(1) / 2))
    c.eq("characteristic polynomial", [det([[H[i][j] - (x if i == j else 0) for j in range(n)] for i in range(n)])], [exp])


def rot_p(c, s):
    """Rotation of (px, py) by 120 degrees."""
    co, si = -c.num(1) / 2, s / 2
    return [[co, -si], [si, co]]


def block(n, *parts):
    M = [[0] * n for _ in range(n)]
    for off, B in parts:
        for i in range(len(B)):
            for j in range(len(B)):
                M[off + i][off + j] = B[i][j]
    return M


def covariant(c, label, pc, k, gk, D):
    """H(g k) = D H(k) D+ with position phases."""
    c.eq(label, ham(c, pc, gk), mul(mul(D, ham(c, pc, k)), dagger(c, D)))


@case(quick=[dict(n=1)], deadline=300)
def graphene_sp(c, n):
    h = c.real("c", 0.5, 2)
    pc = c.tb.make_graphene_sp(c=h)
    a2 = c.num("0.060516")
    c.eq("lattice", metric(c, pc.lat_vec), [[a2, a2 / 2, 0], [a2 / 2, a2, 0], [0, 0, h * h]])
    k = kvec(c)
    s3 = c.sqrt(c.num(3))
    gk = rotated(k)
    D = block(8, (0, [[1]]), (1, rot_p(c, s3)), (3, [[1]]), (4, [[1]]), (5, rot_p(c, s3)), (7, [[1]]))
    covariant(c, "threefold rotation", pc, k, gk, D)
    H = ham(c, pc, k)
    hermitian(c, H)
    c.eq("pz is decoupled", [H[i][j] for i in range(8) for j in (3, 7) if i not in (3, 7)], [0] * 12)
    # inversion exchanges the sublattices: H(-k) = P H(k) P, p orbitals are odd
    P = [[0] * 8 for _ in range(8)]
    for i in range(4):
        P[i][4 + i] = P[4 + i][i] = 1 if i == 0 else -1
    covariant(c, "inversion", pc, k, [-k[0], -k[1]], P)
    c.eq("time reversal", ham(c, pc, [-k[0], -k[1]]), conj(c, H))


def kramers(c, H, Hm, up):
    """i sigma_y K: H(-k) = U conj(H(k)) U+ for the list of (up, down) orbital pairs."""
    n = len(H)
    part = {}
    for u, d in up:
        part[u], part[d] = (d, 1), (u, -1)
    exp = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            (a, s), (b, r) = part[i], part[j]
            exp[i][j] = s * r * c.conj(H[a][b] + 0 * c.I)
    c.eq("time reversal", Hm, exp)


@case(quick=[dict(qsh=True), dict(qsh=False)])
def graphene_soc(c, qsh):
    pc = c.tb.make_graphene_soc(is_qsh=qsh)
    k = kvec(c)
    H, Hm = ham(c, pc, k), ham(c, pc, [-k[0], -k[1]])
    hermitian(c, H)
    kramers(c, H, Hm, [(0, 1), (2, 3)])
    # spin phases exp(-+ i pi / 3)
    w = c.num(1) / 2 - c.I * c.sqrt(c.num(3)) / 2
    D = [[0] * 4 for _ in range(4)]
    for i in range(4):
        D[i][i] = w if i % 2 == 0 else c.conj(w)
    covariant(c, "threefold rotation", pc, k, rotated(k), D)
    # mirror that exchanges a1 and a2 (y -> -y): spin acts as i sigma_y
    M = [[0] * 4 for _ in range(4)]
    for a in (0, 2):
        M[a][a + 1], M[a + 1][a] = 1, -1
    covariant(c, "mirror", pc, k, [k[1], k[0]], M)
    c.eq("on-site", pc.orb_eng, [-0.1 if qsh else -0.4] * 2 + [0.1 if qsh else 0.4] * 2)


@case(quick=[dict(n=1)])
def phosphorene(c, n):
    """Symmetries with lattice phases: the irrational positions cancel from them, which the position assertions justify."""
    h = c.real("c", 1, 2)
    pc = c.tb.make_black_phosphorus(c=h)
    g = metric(c, pc.lat_vec)
    c.eq("orthogonal lattice", [g[0][1], g[0][2], g[1][2], g[2][2]], [0, 0, 0, h * h])
    k = kvec(c)
    H = ham(c, pc, k, 2)
    hermitian(c, H)
    pos = [[pc.orb_pos[i, x] for x in range(3)] for i in range(4)]
    half = [0, 0, 1, 1]
    c.eq("x", [p[0] for p in pos], [c.num(q) / 2 for q in half])
    c.eq("y", [pos[0][1], pos[2][1], pos[3][1]], [0, c.num(1) / 2, pos[1][1] + c.num(1) / 2])
    c.eq("z", [pos[0][2], pos[3][2], pos[1][2]], [0, 0, pos[2][2]])
    for label, (sx, sy), p in (("mirror", (-1, 1), (0, 1, 2, 3)), ("glide", (1, 1), (2, 3, 0, 1)), ("twofold axis", (1, -1), (1, 0, 3, 2)), ("inversion", (-1, -1), (1, 0, 3, 2))):
        G = ham(c, pc, [sx * k[0], sy * k[1]], 2)
        exp = []
        for i in range(4):
            for j in range(4):
                d, e = half[p[j]] - half[p[i]], half[j] - half[i]
                nx, ny = (sx * d - e) // 2, (sy * d - e) // 2
                exp.append(c.cis(2 * c.pi * (nx * k[0] + ny * k[1])) * G[p[i]][p[j]])
        c.eq(label, [H[i][j] for i in range(4) for j in range(4)], exp)
    c.eq("the thickness enters nothing else", H, ham(c, c.tb.make_black_phosphorus(), k, 2))


@case(quick=[dict(soc=False), dict(soc=True)], deadline=300)
def antimonene(c, soc):
    h, lam = c.real("c", 0.5, 2), c.real("lam", 0, 1)
    pc = c.tb.make_antimonene(with_soc=soc, soc_lambda=lam, c=h)
    k = kvec(c)
    H, Hm = ham(c, pc, k), ham(c, pc, [-k[0], -k[1]])
    n = 12 if soc else 6
    c.check("number of orbitals", pc.num_orb == n)
    g = metric(c, pc.lat_vec)
    c.eq("lattice", [g[0][0] - g[1][1], g[0][1] - g[0][0] / 2, g[2][2], g[0][2], g[1][2]], [0, 0, h * h, 0, 0])
    hermitian(c, H)
    m = n // 2
    # inversion exchanges the sublattices
    P = [[0] * n for _ in range(n)]
    for i in range(m):
        P[i][m + i] = P[m + i][i] = 1
    covariant(c, "inversion", pc, k, [-k[0], -k[1]], P)
    if soc:
        kramers(c, H, Hm, [(i, i + 3) for i in range(3)] + [(i + 6, i + 9) for i in range(3)])
        H0 = ham(c, c.tb.make_antimonene(with_soc=False), k)
        H1 = ham(c, c.tb.make_antimonene(with_soc=True, soc_lambda=1, c=h), k)
        base = [[0] * 12 for _ in range(12)]
        for a in range(2):
            for b in range(2):
                for s in range(2):
                    for i in range(3):
                        for j in range(3):
                            base[6 * a + 3 * s + i][6 * b + 3 * s + j] = H0[3 * a + i][3 * b + j]
        c.eq("soc_lambda scales the spin-orbit term only", H, [[base[i][j] + lam * (H1[i][j] - base[i][j]) for j in range(12)] for i in range(12)])
    else:
        c.eq("time reversal", Hm, conj(c, H))
        # rotation by 120 degrees permutes the three p orbitals
        Q = [[0] * 6 for _ in range(6)]
        for a in (0, 3):
            for i in range(3):
                Q[a + (i + ROT) % 3][a + i] = 1
        covariant(c, "threefold rotation", pc, k, rotated(k), Q)


ROT = 1


def d_rot(c, s3):
    """(dz2, dxy, dx2-y2, dxz, dyz) under a rotation by 120 degrees."""
    h, q = c.num(1) / 2, s3 / 2
    # dx2-y2 ~ cos 2 phi, dxy ~ sin 2 phi; dxz ~ cos phi, dyz ~ sin phi
    return [[1, 0, 0, 0, 0], [0, -h, -q, 0, 0], [0, q, -h, 0, 0], [0, 0, 0, -h, -q], [0, 0, 0, q, -h]]


@case(quick=[dict(material=m, sym=False) for m in ("MoS2", "MoSe2", "WS2", "WSe2")] + [dict(material="MoS2", sym=True)], deadline=300)
def tmdc(c, material, sym):
    """D3h symmetry for every k and (sym) every set of parameters."""
    mod = c.mod("tbplas.materials.xs2")
    old = None
    if sym:
        tab = getattr(mod, "HOP_CONSTS", None)
        if not isinstance(tab, dict) or len(tab.get("MoS2", ())) != 44:
            return
        old = tab["MoS2"]
        v = [c.real(f"q{i}", 0.25, 1) for i in range(44)]
        # the partners of the two-dimensional representations have equal energies
        for a, b in ((0, 1), (3, 4), (6, 7), (9, 10)):
            v[b] = v[a]
        tab["MoS2"] = tuple(v)
    try:
        pc = c.tb.make_tmdc(material)
    finally:
        if old is not None:
            tab["MoS2"] = old
    k = kvec(c)
    s3 = c.sqrt(c.num(3))
    g = metric(c, pc.lat_vec)
    c.eq("lattice", [g[0][0] - g[1][1], g[0][1] - g[0][0] / 2, g[0][2], g[1][2]], [0, 0, 0, 0])
    H = ham(c, pc, k)
    hermitian(c, H)
    c.eq("time reversal", ham(c, pc, [-k[0], -k[1]]), conj(c, H))
    # orbitals: dz2, dxy, dx2-y2, dxz, dyz | px, py, pz (top) | px, py, pz (bottom)
    p3 = rot_p(c, s3)
    D = block(11, (0, d_rot(c, s3)), (5, p3), (7, [[1]]), (8, p3), (10, [[1]]))
    covariant(c, "threefold rotation", pc, k, rotated(k), D)
    M = [[0] * 11 for _ in range(11)]
    for i, s in enumerate((1, 1, 1, -1, -1)):
        M[i][i] = s
    for i, s in enumerate((1, 1, -1)):
        M[5 + i][8 + i] = M[8 + i][5 + i] = s
    covariant(c, "horizontal mirror", pc, k, k, M)
    # x -> -x exchanges a1 and a2
    X = [[0] * 11 for _ in range(11)]
    for i, s in enumerate((1, -1, 1, -1, 1, -1, 1, 1, -1, 1, 1)):
        X[i][i] = s
    covariant(c, "vertical mirror", pc, k, [k[1], k[0]], X)


@case(quick=[dict(n=1)], deadline=400)
def mos2_soc(c, n):
    pc = c.tb.make_mos2_soc()
    k = kvec(c)
    c.check("number of orbitals", pc.num_orb == 22)
    H, Hm = ham(c, pc, k, 2), ham(c, pc, [-k[0], -k[1]], 2)
    hermitian(c, H)
    kramers(c, H, Hm, [(i, i + 11) for i in range(11)])


@case(quick=[dict(n=1)])
def unknown(c, n):
    c.raises("unknown material", NotImplementedError, lambda: c.tb.make_tmdc("FeS2"))
