"""Helpers shared by the harnesses."""


def canon(rn, i, j):
    """Canonical key of a hopping term and whether it is the conjugate of the given one."""
    a = (tuple(int(x) for x in rn), int(i), int(j))
    b = (tuple(-int(x) for x in rn), int(j), int(i))
    return (a, False) if a >= b else (b, True)


class Hops:
    """Reference container: {canonical key: energy}."""

    def __init__(self, c):
        self.c, self.d = c, {}

    def set(self, rn, i, j, t):
        k, cj = canon(rn, i, j)
        self.d[k] = self.c.conj(t) if cj else t

    def get(self, rn, i, j):
        k, cj = canon(rn, i, j)
        if k not in self.d:
            return None
        return self.c.conj(self.d[k]) if cj else self.d[k]

    def pop(self, rn, i, j):
        return self.d.pop(canon(rn, i, j)[0], None)

    def items(self):
        return [(k[0], k[1], k[2], v) for k, v in sorted(self.d.items())]


def from_arrays(c, ind, eng):
    """Reference container from exported arrays; second value: no pair is listed twice."""
    h = Hops(c)
    uniq = True
    for n in range(len(eng)):
        row = ind[n]
        rn, i, j = tuple(int(row[x]) for x in range(3)), int(row[3]), int(row[4])
        if canon(rn, i, j)[0] in h.d:
            uniq = False
        h.set(rn, i, j, eng[n])
    return h, uniq


def same_hops(c, label, got, exp):
    kg, ke = sorted(got.d), sorted(exp.d)
    c.check(label + ": terms present", kg == ke)
    if kg == ke:
        c.eq(label + ": energies", [got.d[k] for k in ke], [exp.d[k] for k in ke])


def check_cell_hops(c, label, pc, exp):
    """The exported arrays of a primitive cell list exactly the terms of exp, once."""
    ind, eng = pc.hop_ind, pc.hop_eng
    c.check(label + ": array lengths", len(ind) == len(eng))
    got, uniq = from_arrays(c, ind, eng)
    c.check(label + ": every pair once", uniq)
    same_hops(c, label, got, exp)
    c.check(label + ": num_hop", pc.num_hop == len(exp.d))


def combv(v, a, o=(0, 0, 0)):
    return [v[0] * a[0][x] + v[1] * a[1][x] + v[2] * a[2][x] + o[x] for x in range(3)]


def ref_ham(c, n, e, tau, hops, k, conv):
    """H(k) from on-site energies, positions and (rn, i, j, t) terms (each with its conjugate)."""
    h = [[0 * c.I for _ in range(n)] for _ in range(n)]
    for i in range(n):
        h[i][i] = h[i][i] + e[i]
    for rn, i, j, t in hops:
        ph = 0
        for x in range(3):
            d = rn[x] + (tau[j][x] - tau[i][x] if conv == 1 else 0)
            ph = ph + 2 * c.pi * k[x] * d
        f = t * c.cis(ph)
        h[i][j] = h[i][j] + f
        h[j][i] = h[j][i] + c.conj(f)
    return h
