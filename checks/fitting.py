"""C26: parameter fitting minimises the weighted difference between reference and model bands."""
from engine.run import case

BOUNDS = "one to three bands at one to three k-points, two parameters; reference bands, model bands, weights (of either sign) and parameters symbolic"
OUTSIDE = "the minimiser itself (scipy.optimize.leastsq) is taken to minimise the sum of squares of the residuals it is given"


def fit_class(c, ref, model, log):
    class Fit(c.tb.ParamFit):
        def calc_bands_ref(self):
            self.ref_array = c.farr(ref)
            return self.ref_array

        def calc_bands_fit(self, params):
            log.append([params[0], params[1]])
            self.fit_array = c.farr(model(params))
            return self.fit_array
    return Fit


def problem(c, nk, nb):
    ref = [[c.real(f"r{k}{b}") for b in range(nb)] for k in range(nk)]
    slope = [[c.real(f"s{k}{b}") for b in range(nb)] for k in range(nk)]
    model = lambda p: [[p[0] + p[1] * slope[k][b] for b in range(nb)] for k in range(nk)]
    log = []
    return ref, model, log, fit_class(c, ref, model, log)


def cost(c, ref, fit, w):
    s = c.num(0)
    for k in range(len(ref)):
        for b in range(len(w)):
            d = (ref[k][b] - fit[k][b]) * w[b]
            s = s + d * d
    return s


def weighting(c, nb):
    """Weights given to the fit and the ones to be used."""
    raw = [c.real(f"w{b}", 0.25, 2) * (-1 if b % 2 else 1) for b in range(nb)]
    tot = sum((x if b % 2 == 0 else -x for b, x in enumerate(raw)), c.num(0))
    return raw, [(x if b % 2 == 0 else -x) / tot for b, x in enumerate(raw)]


SHAPES = [dict(nk=1, nb=1), dict(nk=2, nb=3), dict(nk=3, nb=2)]


@case(quick=[dict(s, weighted=w) for s in SHAPES for w in (False, True)])
def residuals(c, nk, nb, weighted):
    """Residuals: one per k-point and band, with the relative weight of the band."""
    ref, model, log, Fit = problem(c, nk, nb)
    k = c.farr([[0.1 * i, 0, 0] for i in range(nk)])
    raw, w = weighting(c, nb) if weighted else (None, [1] * nb)
    arr = c.farr(raw) if weighted else None
    f = Fit(k, arr) if weighted else Fit(k)
    for n in range(2):
        p = [c.real(f"p{n}"), c.real(f"q{n}")]
        d = f.estimate_error(c.farr(p))
        c.check(f"number of residuals {n}", len(d) == nk * nb)
        c.eq(f"bands untouched {n}", [list(x) for x in f.fit_array] + [list(x) for x in f.ref_array], model(p) + ref)
        c.eq(f"sum of squares {n}", sum((x * x for x in d), c.num(0)), cost(c, ref, model(p), w))
    if weighted:
        c.eq("weights untouched", arr, raw)
        c.raises("number of weights", ValueError, lambda: Fit(k, c.farr(raw + [c.num(1)])))


@case(quick=[dict(status=s) for s in range(1, 9)])
def fitted(c, status):
    """The minimiser is given these residuals and the starting point; its result is returned, or its failure reported."""
    m = c.mod("tbplas.builder.advanced")
    if not hasattr(m, "leastsq"):
        return
    ref, model, log, Fit = problem(c, 2, 2)
    raw, w = weighting(c, 2)
    f = Fit(c.farr([[0, 0, 0], [0.5, 0, 0]]), c.farr(raw))
    p0, best = [c.real("p0"), c.real("q0")], [c.real("p1"), c.real("q1")]
    seen = []

    def leastsq(func, x0, *a, **kw):
        d = func(c.farr(best))
        seen.append((list(x0), sum((x * x for x in d), c.num(0)), kw))
        return c.farr(best), status
    old = m.leastsq
    m.leastsq = leastsq
    c.defer(lambda: setattr(m, "leastsq", old))
    if status in (1, 2, 3, 4):
        got = f.fit(c.farr(p0), maxfev=7)
        c.eq("parameters", got, best)
    else:
        c.raises("failure", RuntimeError, lambda: f.fit(c.farr(p0), maxfev=7))
    c.check("one minimisation", len(seen) == 1)
    c.eq("starting point", seen[0][0], p0)
    c.eq("residuals", seen[0][1], cost(c, ref, model(best), w))
    c.check("options", seen[0][2] == {"maxfev": 7})
