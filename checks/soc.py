"""C13: spin-orbit matrix elements are those of L.S."""
from engine.run import case
from checks.slater import D, P, S, quad

BOUNDS = "all pairs of the nine orbitals and two spins (324 elements) for SOC, SOCTable and SOCTable2; symbolic spinors in the p and d shells"
OUTSIDE = "nothing within the supported orbitals"
LAB = S + P + D


def eps(i, j, k):
    return (i - j) * (j - k) * (k - i) // 2


def basis(c, lab):
    """Tensor of the real orbital: (rank, components, factor)."""
    if lab == "s":
        return 0, [1], 1
    if lab in P:
        return 1, [1 if "p" + x == lab else 0 for x in "xyz"], 1
    q, f = quad(c, lab)
    return 2, q, f


def ang(c, k, a, b):
    """<a|L_k|b>: L_k generates rotations, (L_k)_ij = -i eps_kij on every index of the tensor."""
    (ra, ta, fa), (rb, tb, fb) = basis(c, a), basis(c, b)
    if ra != rb or ra == 0:
        return 0 * c.I
    if ra == 1:
        z = sum(ta[i] * eps(k, i, j) * tb[j] for i in range(3) for j in range(3))
    else:
        z = sum(ta[i][j] * (eps(k, i, m) * tb[m][j] + eps(k, j, m) * tb[i][m]) for i in range(3) for j in range(3) for m in range(3))
    return -c.I * z * fa * fb


def pauli(c):
    return [[[0, 1], [1, 0]], [[0, -c.I], [c.I, 0]], [[1, 0], [0, -1]]]


def element(c, a, sa, b, sb):
    s = pauli(c)
    i, j = ["up", "down"].index(sa), ["up", "down"].index(sb)
    r = 0 * c.I
    for k in range(3):
        r = r + ang(c, k, a, b) * s[k][i][j] / 2
    return r


@case(quick=[dict(cls=k) for k in ("SOC", "SOCTable", "SOCTable2")])
def table(c, cls):
    so = getattr(c.tb, cls)()
    for rep in range(2):        # evaluated twice: evaluation changes nothing
        for sa in ("up", "down"):
            for sb in ("up", "down"):
                for a in LAB:
                    got = [so.eval(label_i=a, spin_i=sa, label_j=b, spin_j=sb) for b in LAB]
                    for b, g in zip(LAB, got):
                        d = g - element(c, a, sa, b, sb)
                        x, y = c.re(d), c.im(d)
                        c.check(f"{cls} <{a} {sa}|L.S|{b} {sb}>", c.And(x < 1e-9, x > -1e-9, y < 1e-9, y > -1e-9))
    for k in ("f", "pp", "", "dxz"):
        c.raises("illegal label", ValueError, lambda: so.eval(k, "up", "s", "up"))
        c.raises("illegal label", ValueError, lambda: so.eval("s", "up", k, "up"))
    c.raises("illegal spin", ValueError, lambda: so.eval("s", "left", "s", "up"))
    c.raises("illegal spin", ValueError, lambda: so.eval("s", "up", "s", "x"))


@case(quick=[dict(shell="p"), dict(shell="d")])
def spinors(c, shell):
    """For arbitrary spinors of a shell: Hermitian form, and (L.S)^2 + (L.S)/2 = l(l+1)/4."""
    lab = P if shell == "p" else D
    l = 1 if shell == "p" else 2
    so = c.tb.SOC()
    st = [(a, s) for a in lab for s in ("up", "down")]
    h = [[so.eval(a, s, b, t) for b, t in st] for a, s in st]
    n = len(st)
    psi = c.cplxs("f", n)
    hp = [sum(h[i][j] * psi[j] for j in range(n)) for i in range(n)]
    hhp = [sum(h[i][j] * hp[j] for j in range(n)) for i in range(n)]
    c.eq("eigenvalues l/2 and -(l+1)/2", [hhp[i] + hp[i] / 2 for i in range(n)], [c.num(l * (l + 1)) / 4 * psi[i] for i in range(n)])
    e = sum(c.conj(psi[i]) * hp[i] for i in range(n))
    c.eq("expectation value is real", c.im(e), 0)
    ref = [sum(element(c, st[i][0], st[i][1], st[j][0], st[j][1]) * psi[j] for j in range(n)) for i in range(n)]
    c.eq("action", hp, ref)
    # time reversal: T (a, up) = (a, down)*, T (a, down) = -(a, up)*
    tp = [None] * n
    th = [None] * n
    for k in range(0, n, 2):
        tp[k], tp[k + 1] = -c.conj(psi[k + 1]), c.conj(psi[k])
        th[k], th[k + 1] = -c.conj(hp[k + 1]), c.conj(hp[k])
    c.eq("time reversal", [sum(h[i][j] * tp[j] for j in range(n)) for i in range(n)], th)
