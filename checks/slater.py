"""C12: Slater-Koster hopping integrals are the rotation-covariant two-centre projections."""
from engine.run import case

BOUNDS = "all bond vectors of length 0.1 to 10 (direction and length symbolic), all real bond integrals, all 81 ordered pairs of the nine orbitals"
OUTSIDE = "complex bond integrals, bonds shorter than 0.1"

S = ["s"]
P = ["px", "py", "pz"]
D = ["dxy", "dyz", "dzx", "dx2-y2", "dz2"]
V = ["v_sss", "v_sps", "v_sds", "v_pps", "v_ppp", "v_pds", "v_pdp", "v_dds", "v_ddp", "v_ddd"]


def direction(c):
    l, m = c.real("l", -1, 1), c.real("m", -1, 1)
    n = c.sqrt(1 - l * l - m * m)
    c.assume(1 - l * l - m * m >= 0)
    sg = c.choose("sign", [1, -1])
    return [l, m, sg * n]


def pvec(lab):
    return [1 if "p" + x == lab else 0 for x in "xyz"]


def quad(c, lab):
    """d orbital as a symmetric traceless tensor of unit norm: coefficients times the given prefactor squared."""
    z = [[0] * 3 for _ in range(3)]
    if lab == "dx2-y2":
        z[0][0], z[1][1] = 1, -1
        return z, c.sqrt(2) / 2
    if lab == "dz2":
        z[0][0] = z[1][1] = -1
        z[2][2] = 2
        return z, c.sqrt(6) / 6
    i, j = ["xyz".index(x) for x in lab[1:]]
    z[i][j] = z[j][i] = 1
    return z, c.sqrt(2) / 2


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def mv(q, v):
    return [dot(r, v) for r in q]


def oracle(c, n, i, j, v):
    """<i|H|j> for unit bond direction n from i to j."""
    s32, s2 = c.sqrt(6) / 2, c.sqrt(2)
    if i == "s" and j == "s":
        return v["v_sss"]
    if i == "s" and j in P:
        return dot(pvec(j), n) * v["v_sps"]
    if i == "s":
        q, f = quad(c, j)
        return s32 * f * dot(n, mv(q, n)) * v["v_sds"]
    if j == "s":
        # reversed bond seen from the other side
        return oracle(c, [-x for x in n], j, i, v)
    if i in P and j in P:
        a, b = pvec(i), pvec(j)
        sg = dot(a, n) * dot(b, n)
        return sg * v["v_pps"] + (dot(a, b) - sg) * v["v_ppp"]
    if i in P:
        a = pvec(i)
        q, f = quad(c, j)
        qn = mv(q, n)
        nqn = dot(n, qn)
        return f * (s32 * dot(a, n) * nqn * v["v_pds"] + s2 * (dot(a, qn) - dot(a, n) * nqn) * v["v_pdp"])
    if j in P:
        return oracle(c, [-x for x in n], j, i, v)
    a, fa = quad(c, i)
    b, fb = quad(c, j)
    an, bn = mv(a, n), mv(b, n)
    sg = 1.5 * dot(n, an) * dot(n, bn)
    pi = 2 * (dot(an, bn) - dot(n, an) * dot(n, bn))
    tr = sum(dot(a[k], b[k]) for k in range(3))
    return fa * fb * (sg * v["v_dds"] + pi * v["v_ddp"] + (tr - sg - pi) * v["v_ddd"])


@case(quick=[dict(i=i) for i in S + P + D])
def projection(c, i):
    n = direction(c)
    L = c.real("L", 0.1, 10)
    v = {k: c.real(k) for k in V}
    r = c.farr([L * x for x in n])
    sk = c.tb.SK()
    for j in S + P + D:
        t = oracle(c, n, i, j, v)
        c.eq(f"<{i}|H|{j}>", sk.eval(r, i, j, **v), t)
        c.eq(f"exchange {i} {j}", sk.eval(c.farr([-L * x for x in n]), j, i, **v), t)
    c.eq("bond vector untouched", r, [L * x for x in n])


@case()
def methods(c):
    """The individual functions agree with the projections, with arguments left at zero when not given."""
    n = direction(c)
    v = {k: c.real(k) for k in V}
    r = c.farr(n)
    sk = c.tb.SK()
    c.eq("ss", sk.ss(v["v_sss"]), v["v_sss"])
    for p in P:
        c.eq(f"sp {p}", sk.sp(r, p, v["v_sps"]), oracle(c, n, "s", p, v))
        c.eq(f"ps {p}", sk.ps(r, p, v["v_sps"]), oracle(c, n, p, "s", v))
        for q in P:
            c.eq(f"pp {p} {q}", sk.pp(r, p, q, v["v_pps"], v["v_ppp"]), oracle(c, n, p, q, v))
        for d in D:
            c.eq(f"pd {p} {d}", sk.pd(r, p, d, v["v_pds"], v["v_pdp"]), oracle(c, n, p, d, v))
            c.eq(f"dp {p} {d}", sk.dp(r, p, d, v["v_pds"], v["v_pdp"]), oracle(c, n, d, p, v))
    for d in D:
        c.eq(f"sd {d}", sk.sd(r, d, v["v_sds"]), oracle(c, n, "s", d, v))
        c.eq(f"ds {d}", sk.ds(r, d, v["v_sds"]), oracle(c, n, d, "s", v))
        for d2 in D:
            c.eq(f"dd {d} {d2}", sk.dd(r, d, d2, v["v_dds"], v["v_ddp"], v["v_ddd"]), oracle(c, n, d, d2, v))
    zero = {k: 0 for k in V}
    for k in V:
        one = dict(zero)
        one[k] = v[k]
        i, j = k[2], k[3]
        for a in {"s": S, "p": P, "d": D}[i]:
            for b in {"s": S, "p": P, "d": D}[j]:
                c.eq(f"only {k}: {a} {b}", sk.eval(r, a, b, **{k: v[k]}), oracle(c, n, a, b, one))
    for bad in ("pw", "d", "dzy", ""):
        c.raises("illegal p label", ValueError, lambda: sk.sp(r, bad, 1.0))
        c.raises("illegal d label", ValueError, lambda: sk.sd(r, bad, 1.0))
        c.raises("illegal pair", ValueError, lambda: sk.pp(r, "px", bad, 1.0, 1.0))
    c.raises("no direction", ValueError, lambda: sk.sp(c.zeros(3), "px", 1.0))
