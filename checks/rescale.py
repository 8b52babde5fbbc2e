"""C10: rescaling of the Hamiltonian of a sample."""
from engine.run import case
from checks.supercell import Ref
from checks.samples import INTER, Model, parts

BOUNDS = "samples of up to seven orbitals in one or two super cells; energies, hopping values and factors symbolic; any sequence of up to three calls"
OUTSIDE = "larger samples; Hamiltonians that vanish identically; explicit re-initialisation of single arrays with force_init"


def scaled(c, tag, s, m, f):
    c.eq(f"{tag}: energies", s.orb_eng, [e / f for e in m.eng])
    ks = sorted(m.hop)
    d = {}
    for n in range(len(s.hop_i)):
        i, j = int(s.hop_i[n]), int(s.hop_j[n])
        d[(i, j) if (i, j) in m.hop else (j, i)] = s.hop_v[n] if (i, j) in m.hop else c.conj(s.hop_v[n])
    c.check(f"{tag}: terms", sorted(d) == ks)
    if sorted(d) == ks:
        c.eq(f"{tag}: hopping values", [d[k] for k in ks], [m.hop[k][0] / f for k in ks])
    c.eq(f"{tag}: recorded factor", s.rescale, f)
    c.eq(f"{tag}: energy range", s.energy_range, 2 * f)


@case(quick=[dict(shape=1), dict(shape=2)])
def explicit(c, shape):
    """Given factors: the last call counts, physical energies stay."""
    m = Model(c, parts(c, shape, "diag"), INTER.get(shape, []))
    s, _, _ = m.build()
    f, g = c.real("f", 0.5, 4), c.real("g", 0.5, 4)
    s.rescale_ham(f)
    scaled(c, "once", s, m, f)
    s.rescale_ham(g)
    scaled(c, "twice", s, m, g)
    h = c.zeros((m.n, m.n), "c16")
    s.init_orb_pos()
    s.set_ham_dense(c.farr([0, 0, 0]), h)
    c.eq("physical Hamiltonian", h, m.ham())
    s.reset_array()
    scaled(c, "reset", s, m, c.num(1))


@case(quick=[dict(shape=2)])
def stored(c, shape):
    """Saved arrays carry the factor along: another sample that loads them has the same physical Hamiltonian and rescales as the first."""
    m = Model(c, parts(c, shape, "diag"), INTER.get(shape, []))
    s, _, _ = m.build()
    f, g = c.real("f", 0.5, 4), c.real("g", 0.5, 4)
    s.rescale_ham(f)
    s.init_orb_pos()
    s.save_array("arrays")
    s2, _, _ = m.build()
    other = c.boolean("other")
    if other:
        s2.rescale_ham(c.real("k", 0.5, 4))
    s2.load_array("arrays")
    scaled(c, "loaded", s2, m, f)
    c.eq("positions", s2.orb_pos, s.orb_pos)
    c.eq("displacements", s2.dr, s.dr)
    h = c.zeros((m.n, m.n), "c16")
    s2.set_ham_dense(c.farr([0, 0, 0]), h)
    c.eq("physical Hamiltonian", h, m.ham())
    s2.rescale_ham(g)
    scaled(c, "rescaled again", s2, m, g)
    scaled(c, "first sample untouched", s, m, f)


def rows(c, s, n):
    """Row sums of |H| of the stored arrays."""
    out = [c.abs(e) for e in s.orb_eng]
    for k in range(len(s.hop_i)):
        a = c.abs(s.hop_v[k])
        out[int(s.hop_i[k])] = out[int(s.hop_i[k])] + a
        out[int(s.hop_j[k])] = out[int(s.hop_j[k])] + a
    return out


@case(quick=[dict(pat="molecule", dim=(1, 1, 1)), dict(pat="chain", dim=(3, 1, 1)), dict(pat="ladder", dim=(3, 1, 1))], thorough=[dict(pat="three", dim=(3, 3, 1))], max_paths=20000)
def automatic(c, pat, dim):
    """The factor found automatically is positive and bounds all row sums of |H|, so the spectrum is mapped into [-1, 1]."""
    r = Ref(c, pat, tuple(dim), (pat != "molecule", False, False), [], kind="diag")
    m = Model(c, [r], [])
    s, _, _ = m.build()
    s.init_orb_eng()
    s.init_hop()
    rs = rows(c, s, m.n)
    for e in r.t:
        c.assume(c.abs2(e) > 0.01)
    s.rescale_ham()
    f = s.rescale
    for i, x in enumerate(rs):
        c.le("row sum bounded by the factor", x, f)
    scaled(c, "automatic", s, m, f)


@case(max_paths=20000)
def automatic_again(c):
    """Automatic rescaling does not depend on previous calls."""
    r = Ref(c, "molecule", (1, 1, 1), (False, False, False), [], kind="diag")
    r.e = [c.real("x0", 0.1, 2), -c.real("x1", 0.1, 2)]
    r.t = [c.real("y", 0.2, 2) * c.I]
    r.build()
    m = Model(c, [r], [])
    s, _, _ = m.build()
    s.rescale_ham()
    f = s.rescale
    scaled(c, "first", s, m, f)
    op = c.choose("op", ["again", "given", "reset"])
    if op == "given":
        s.rescale_ham(c.real("f", 0.5, 4))
    elif op == "reset":
        s.reset_array()
    s.rescale_ham()
    scaled(c, "second", s, m, f)
