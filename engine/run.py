"""Check driver: explores every case symbolically, lets z3 decide the assertions, replays on the real build."""
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
PY = "/opt/venv/bin/python"
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


class Case:
    def __init__(self, func, name, params, opts):
        self.func, self.name, self.params, self.opts = func, name, params, opts


_REG = {}


def case(quick=({},), thorough=(), **opts):
    """Register a harness with its parameter sets; the thorough tier runs quick + thorough sets."""
    def deco(f):
        _REG.setdefault(f.__module__, []).append((f, list(quick), list(thorough), opts))
        return f
    return deco


def cases_of(modname, tier):
    mod = importlib.import_module("checks." + modname)
    out = []
    for f, q, t, opts in _REG.get(mod.__name__, []):
        sets = list(q) + (list(t) if tier == "thorough" else [])
        for p in sets:
            p = json.loads(json.dumps(p))
            o = dict(opts)
            o.update(p.pop("_opts", {}))
            name = f.__name__ + ("(" + ",".join(f"{k}={v}" for k, v in p.items()) + ")" if p else "")
            out.append(Case(f.__name__, name.replace(" ", ""), p, o))
    return mod, out


# ------------------------------------------------------------------------------------------------
# symbolic phase (runs in a forked process per case)
# ------------------------------------------------------------------------------------------------
_PKG = None


def _fill_env(env, vars_, rng, pc, core, generic):
    """Complete / diversify a model; returns an env satisfying pc numerically, or None."""
    out = dict(env)
    for name, (ty, lo, hi) in vars_.items():
        v = out.get(name)
        if ty in ("b",):
            if v is None:
                out[name] = False
            continue
        if ty == "i":
            if v is None:
                out[name] = int(lo or 0)
            continue
        if v is None or generic:
            a = float(lo) if lo is not None else None
            b = float(hi) if hi is not None else None
            if v is None:
                if a is None and b is None:
                    a, b = -1.5, 1.5
                elif a is None:
                    a = b - 2
                elif b is None:
                    b = a + 2
                v = rng.uniform(a + 0.02 * (b - a), b - 0.02 * (b - a))
            else:
                w = 0.2 * (abs(v) + 0.3) if generic is True else generic * (abs(v) + 0.3)
                v2 = v + rng.uniform(-w, w)
                if a is not None and v2 <= a:
                    v2 = v
                if b is not None and v2 >= b:
                    v2 = v
                v = v2
            out[name] = v
    try:
        cache = {}
        for c in pc:
            if not core.evalb(c, out, cache):
                return None
    except (KeyError, ZeroDivisionError, OverflowError, ValueError):
        return None
    return out


def gen_envs(model, ex, core, rng, n=6):
    """The model first, then perturbations that still satisfy the path condition."""
    envs = []
    seen = set()

    def add(e):
        if e is None:
            return
        k = tuple(sorted((a, b) for a, b in e.items() if b is not None))
        if k not in seen:
            seen.add(k)
            envs.append(e)
    for g in (True, 0.02, True, 0.3, 1e-3):
        add(_fill_env(model, ex.vars, rng, ex.pc, core, g))
    # random restarts of the reals alone (keep integers)
    free = {k: (v if ex.vars[k][0] in "ib" else None) for k, v in model.items()}
    for _ in range(60):
        if len(envs) >= n:
            break
        add(_fill_env(free, ex.vars, rng, ex.pc, core, False))
    for _ in range(40):
        if len(envs) >= n:
            break
        part = {k: (v if ex.vars[k][0] in "ib" or rng.random() < 0.5 else None) for k, v in model.items()}
        add(_fill_env(part, ex.vars, rng, ex.pc, core, False))
    base = _fill_env(model, ex.vars, rng, ex.pc, core, False)
    if base is None:
        base = dict(model)
        for k, (ty, lo, hi) in ex.vars.items():
            if base.get(k) is None:
                base[k] = rng.uniform(-1, 1) if ty == "f" else 0
    return [base] + [e for e in envs if e != base][:n]


def run_case_symbolic(modname, case_, seed, deadline, conn):
    t0 = time.time()
    res = dict(name=case_.name, func=case_.func, params=case_.params, status="ok", paths=0, decisions=0, obligations=0,
               queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0, branch_queries=0, candidates=[], validations=[],
               inconclusive=[], functions=[], assumptions=[], witness=False, samples=[], aborted=0)
    try:
        _explore(modname, case_, seed, deadline, res)
    except Exception as e:
        res["status"] = "error"
        res["inconclusive"].append(f"{type(e).__name__}: {e}")
        res["trace"] = traceback.format_exc()[-2000:]
    except RecursionError:
        res["status"] = "error"
        res["inconclusive"].append("recursion")
    res["wall"] = time.time() - t0
    try:
        conn.send(res)
    finally:
        conn.close()


def _explore(modname, case_, seed, deadline, res):
    from . import core, npshim, loader, ftn
    from .ctx import SymCtx
    mod = importlib.import_module("checks." + modname)
    fn = getattr(mod, case_.func)
    o = case_.opts
    rng = random.Random(hash((seed, case_.name.__hash__() if False else len(case_.name))) & 0xFFFF)
    ex = core.Explorer(feas_timeout=o.get("feas_timeout", 1500), query_timeout=o.get("query_timeout", 15000),
                       max_paths=o.get("max_paths", 3000), hash_mode=o.get("hash_mode", "const"), seed=seed, deadline=deadline)
    pkg = _PKG
    repo = os.path.realpath(pkg.repo)
    funcs = set()
    first = [True]

    def prof(frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if f.startswith(repo):
                funcs.add(f[len(repo) + 1:] + ":" + frame.f_code.co_name)

    def body():
        npshim.HOOKS.clear()
        loader.VFS.clear()
        loader.STRNUM.clear()
        ftn.reset()
        c = SymCtx(ex, pkg, o)
        if first[0]:
            sys.setprofile(prof)
        try:
            fn(c, **case_.params)
        except (core.Unsupported, core.PathLimit):
            raise
        except core.Infeasible:
            raise
        except RecursionError:
            raise core.Unsupported("recursion limit")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"
            c.obl.append((f"exception:{type(e).__name__}", "check", False, f"{type(e).__name__}: {e} at {where}"))
        finally:
            sys.setprofile(None)
            if first[0]:
                first[0] = False
        return c

    nval = o.get("validate", 3)
    try:
        for c in ex.run(body):
            res["decisions"] += len(ex.trace)
            res["obligations"] += sum(len(x[2]) if x[1] == "eq" else 1 for x in c.obl)
            _discharge(c, ex, core, rng, res, nval, case_)
    except core.Unsupported as e:
        res["status"] = "unsupported"
        res["inconclusive"].append(f"not encoded: {e}")
        res["trace"] = traceback.format_exc()[-1500:]
        _fallback(ex, core, rng, res)
    except core.PathLimit as e:
        res["status"] = "truncated"
        res["inconclusive"].append(f"bound of the exploration: {e}")
        _fallback(ex, core, rng, res)
    finally:
        res["paths"] = ex.paths
        res["aborted"] = ex.aborted
        s = ex.stats
        res.update(queries=s.queries, solver_s=s.time, unsat=s.unsat, sat=s.sat, unknown=s.unknown, branch_queries=s.feas)
        res["functions"] = sorted(funcs | getattr(pkg.mods.get("tbplas.fortran.f2py"), "used", set()))
        res["assumptions"] = sorted(ex.assumed_side)


def _fallback(ex, core, rng, res):
    """Inputs for the real code when the encoding could not finish: solver models of the conditions so far."""
    try:
        r, m, _ = ex.check([], want_model=True, timeout=3000)
    except Exception:
        r, m = "unknown", None
    envs = []
    if m is None:
        m = {k: None for k in ex.vars}
    try:
        envs = gen_envs(m, ex, core, rng, 10)
    except Exception:
        envs = []
    envs += [{} for _ in range(4)]
    for e in envs:
        res["candidates"].append(dict(envs=[e], label="(fallback)", why="encoding incomplete", kind="fallback"))


def _neg(o, core):
    label, kind, a, b = o
    if kind == "check":
        return core.s_not(a)
    conds = []
    for g, e in zip(a, b):
        d = g.p - e.p
        if d.is_zero():
            continue
        conds.append(core.nonzero_cond(d))
    return core.s_or(*conds) if conds else False


def _ident(core, ex, pairs, timeout):
    """Solver query for 'some of these pairs differ'."""
    import z3
    t0 = time.time()
    enc = core.Z3Enc()
    enc.prepare([p for pr in pairs for p in pr])
    s = z3.Solver()
    s.set("timeout", timeout)
    ors = []
    zero = z3.RealVal(0)
    for g, e in pairs:
        gr, gi = enc.poly(g)
        er, ei = enc.poly(e)
        ors.append(gr != er)
        if gi is not None or ei is not None:
            ors.append((gi if gi is not None else zero) != (ei if ei is not None else zero))
    for ax in enc.ax:
        s.add(ax)
    s.add(z3.Or(*ors) if ors else z3.BoolVal(False))
    r = str(s.check())
    ex.stats.queries += 1
    ex.stats.time += time.time() - t0
    setattr(ex.stats, r, getattr(ex.stats, r) + 1)
    return r


def _discharge(c, ex, core, rng, res, nval, case_):
    import z3
    prev = core._CUR
    core._CUR = None      # no new side conditions while building the verification conditions
    try:
        negs = []
        for o in c.obl:
            try:
                negs.append(_neg(o, core))
            except core.Unsupported as e:
                res["inconclusive"].append(f"{o[0]}: {e}")
                negs.append(False)
    finally:
        core._CUR = prev
    # path model: reachability witness and inputs for validation
    model = None
    if len(res["validations"]) < nval or not res["witness"] or any(n is not False for n in negs):
        r, model, _ = ex.check([], want_model=True, timeout=min(ex.query_timeout, 15000))
        if r == "unsat":
            return
        if model is None:
            model = {k: None for k in ex.vars}
    if not res["witness"]:
        res["witness"] = bool(c.obl)
    if model is not None and len(res["validations"]) < nval and (not res["validations"] or rng.random() < 0.3 or ex.paths < 3):
        envs = gen_envs(model, ex, core, rng, 2)
        env = envs[1] if len(envs) > 1 else envs[0]
        val = []
        cache = {}
        for label, kind, a, b in c.obl:
            if kind != "eq":
                val.append((label, None))
                continue
            vs = []
            for g in a:
                try:
                    z = complex(core.evalf(g, env, cache))
                    vs.append((z.real, z.imag))
                except (KeyError, ZeroDivisionError, OverflowError):
                    vs.append(None)
            val.append((label, vs))
        res["validations"].append(dict(env=env, obs=val))
        if len(res["samples"]) < 2:
            res["samples"].append(dict(case=case_.name, path_condition=[repr(x)[:200] for x in ex.pc[:6]],
                                       model={k: v for k, v in list(env.items())[:12]},
                                       obligations=[x[0] for x in c.obl[:6]]))
    # obligations with a non-trivial negation: numeric look at the path model first
    for i, (o, n) in enumerate(zip(c.obl, negs)):
        if n is False:
            continue
    # batch query: all obligations of the path at once, including those whose two sides already coincide
    nontriv = [(o, n) for o, n in zip(c.obl, negs) if n is not False]
    t0 = time.time()
    triv = [o for o, n in zip(c.obl, negs) if n is False and o[1] == "eq"]
    if triv:
        pairs = [(g.p, e.p) for o in triv for g, e in zip(o[2], o[3]) if len(g.p.t) <= 4000]
        same = [pr for pr in pairs if pr[0].key() == pr[1].key()]
        diff = [pr for pr in pairs if pr[0].key() != pr[1].key()]
        r = _ident(core, ex, same + diff, 4000)
        if r == "unknown" and diff:
            # the batch is too hard with its denominators: one by one, then count what only the rewriting decided
            t1 = time.time()
            _ident(core, ex, same, 4000)
            for pr in diff:
                r1 = _ident(core, ex, [pr], 1500) if time.time() - t1 < 8 else "unknown"
                if r1 == "unknown":
                    res["rewritten"] = res.get("rewritten", 0) + 1
                elif r1 == "sat":
                    r = "sat"
        if r == "sat":
            res["inconclusive"].append(f"solver answered sat on identities {[o[0] for o in triv][:3]}")
    if not nontriv:
        return
    # concrete look: the path model may already refute an assertion
    if any(n is True for _, n in nontriv):
        bad = [o for o, n in nontriv if n is True]
        _candidate(res, bad[0], gen_envs(model, ex, core, rng, 8), "holds on no input of the path")
        nontriv = [(o, n) for o, n in nontriv if n is not True]
        if not nontriv:
            return
    for env in gen_envs(model, ex, core, rng, 3)[1:]:
        cache = {}
        hit = None
        for o, n in nontriv:
            if o[1] != "eq":
                continue
            try:
                m = max((abs(complex(core.evalf(g, env, cache))) for g in o[2]), default=0)
                for g, e in zip(o[2], o[3]):
                    x, y = complex(core.evalf(g, env, cache)), complex(core.evalf(e, env, cache))
                    if abs(x - y) > 1e-5 * (m + 1e-6) and abs(x - y) > 1e-9:
                        hit = o
                        break
            except (KeyError, ZeroDivisionError, OverflowError):
                continue
            if hit:
                break
        if hit:
            _candidate(res, hit, [env] + gen_envs(model, ex, core, rng, 6), "refuted on a model of the path condition")
            nontriv = [(o, n) for o, n in nontriv if o is not hit]
            break
    if not nontriv:
        return
    left = nontriv
    if len(nontriv) > 1:
        r, m, _ = ex.check([core.s_or(*[n for _, n in nontriv])], timeout=min(ex.query_timeout, 8000), want_model=True, feas=False)
        if r == "unsat":
            return
    for o, n in left:
        r, m, _ = ex.check([n], timeout=min(ex.query_timeout, 15000), want_model=True, feas=False)
        if r == "unsat":
            continue
        if r == "sat":
            envs = gen_envs(m, ex, core, rng, 8)
            # prefer inputs on which the encoding itself evaluates to a violation
            good = []
            for e in envs:
                try:
                    if core.evalb(n, e):
                        good.append(e)
                except Exception:
                    pass
            _candidate(res, o, (good + [e for e in envs if e not in good])[:8], "solver model")
        else:
            # second opinion: split the disjunction into single equalities
            if o[1] == "eq" and _split_eq(o, ex, core, res, rng):
                continue
            res["inconclusive"].append(f"{o[0]}: solver answered {r}")
            _candidate(res, o, gen_envs(model, ex, core, rng, 8), "unknown", kind="unknown")


def _split_eq(o, ex, core, res, rng):
    for g, e in zip(o[2], o[3]):
        d = g.p - e.p
        if d.is_zero():
            continue
        prev, core._CUR = core._CUR, None
        try:
            n = core.nonzero_cond(d)
        finally:
            core._CUR = prev
        if n is False:
            continue
        r, m, _ = ex.check([n], timeout=ex.query_timeout, want_model=True, feas=False)
        if r == "unsat":
            continue
        if r == "sat":
            _candidate(res, o, gen_envs(m, ex, core, rng, 8), "solver model")
            return True
        return False
    return True


def _candidate(res, o, envs, why, kind="sat"):
    if sum(1 for x in res["candidates"] if x["label"] == o[0]) >= 3 or len(res["candidates"]) >= 40:
        return
    res["candidates"].append(dict(label=o[0], why=why, detail=str(o[3])[:300] if o[1] == "check" else None, envs=envs, kind=kind))


# ------------------------------------------------------------------------------------------------
# concrete phase
# ------------------------------------------------------------------------------------------------
def run_concrete(pkgdir, modname, reqs, scratch, timeout):
    """Run requests on the real package, in parallel chunks; crashes are attributed to the request that ran."""
    results = {}
    todo = list(reqs)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"),
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", OMPI_ALLOW_RUN_AS_ROOT="1",
               OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self", OMPI_MCA_pml="ob1", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    so = os.path.join(scratch, "rnd.so")
    if not os.path.exists(so):
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "engine", "native", "rnd.c"), "-ldl"], check=False)
    if os.path.exists(so):
        env["LD_PRELOAD"] = so
        env["VP_RND"] = so
    rnd = 0
    t_end = time.time() + timeout
    while todo and rnd < 12 and time.time() < t_end:
        rnd += 1
        n = min(NPROC, max(1, (len(todo) + 3) // 4))
        chunks = [todo[i::n] for i in range(n)]
        procs = []
        for i, ch in enumerate(chunks):
            inp, outp = os.path.join(scratch, f"in{rnd}_{i}.json"), os.path.join(scratch, f"out{rnd}_{i}.json")
            with open(inp, "w") as f:
                json.dump(ch, f)
            err = open(os.path.join(scratch, f"err{rnd}_{i}"), "w")
            p = subprocess.Popen([PY, "-m", "engine.worker", pkgdir, VERIF, inp, outp], cwd=VERIF, env=env,
                                 stdout=subprocess.DEVNULL, stderr=err)
            procs.append((p, ch, outp, err))
        nxt = []
        for p, ch, outp, err in procs:
            killed = False
            try:
                p.wait(timeout=max(5, t_end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                killed = True
            err.close()
            got = []
            if os.path.exists(outp):
                with open(outp) as f:
                    for line in f:
                        try:
                            got.append(json.loads(line))
                        except ValueError:
                            pass
            for g in got:
                results[g["id"]] = g
            rest = [r for r in ch if r["id"] not in results]
            if rest and not killed:
                crashed = rest[0]
                with open(err.name) as f:
                    msg = f.read()[-400:]
                if "Fortran runtime error" in msg:
                    results[crashed["id"]] = dict(id=crashed["id"], fails=[("subscript", msg[msg.index("Fortran runtime error"):])], obs=[],
                                                  env=crashed["env"], skipped=False)
                elif p.returncode < 0:
                    results[crashed["id"]] = dict(id=crashed["id"], fails=[("crash", f"signal {-p.returncode}: {msg}")], obs=[],
                                                  env=crashed["env"], skipped=False)
                else:
                    results[crashed["id"]] = dict(id=crashed["id"], fails=[], obs=None, env=None, skipped=True, error=msg)
                nxt += rest[1:]
        todo = nxt
    return results


def compare_obs(sym, conc):
    """Encoding vs. real execution on the same input."""
    if conc is None:
        return "no observation"
    if [s[0] for s in sym] != [x[0] for x in conc]:
        return f"different assertion sequence {[s[0] for s in sym][:5]} / {[x[0] for x in conc][:5]}"
    for (l, a), (_, b) in zip(sym, conc):
        if a is None or b is None:
            continue
        if len(a) != len(b):
            return f"{l}: {len(a)} values against {len(b)}"
        m = max([1e-6] + [abs(complex(*y)) for y in b if y is not None])
        for x, y in zip(a, b):
            if x is None or y is None:
                continue
            if abs(complex(*x) - complex(*y)) > 1e-6 * m:
                return f"{l}: encoding {complex(*x)} real code {complex(*y)}"
    return None


# ------------------------------------------------------------------------------------------------
# driver
# ------------------------------------------------------------------------------------------------
def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if k.get("property") == prop and k.get("status") == "known"]


def run_check(prop, modname, tier, only=None, verbose=False):
    global _PKG
    from . import build
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = 420 if tier == "quick" else 3 * 3600
    case_budget = 240 if tier == "quick" else 3000
    scratch, bp = build.start()
    try:
        return _run_check(prop, modname, tier, only, verbose, seed, t0, budget, case_budget, scratch, bp)
    finally:
        try:
            bp.kill()
        except Exception:
            pass
        build.remove(scratch)


def _run_check(prop, modname, tier, only, verbose, seed, t0, budget, case_budget, scratch, bp):
    global _PKG
    from . import build, loader
    load_error = None
    try:
        _PKG = loader.Package()
        mod, cases = cases_of(modname, tier)
        for n in getattr(mod, "PRELOAD", ()):
            _PKG.get(n)
        _PKG.get("tbplas")
    except Exception as e:
        load_error = f"{type(e).__name__}: {e}"
        if verbose:
            traceback.print_exc()
        mod, cases = cases_of(modname, tier)
    if only:
        cases = [c for c in cases if only in c.name]
    results = []
    ctx = mp.get_context("fork")
    if load_error is None:
        queue = sorted(cases, key=lambda c: -c.opts.get("cost", 1))
        running = []
        while queue or running:
            while queue and len(running) < NPROC and time.time() - t0 < budget:
                cs = queue.pop(0)
                a, b = ctx.Pipe(duplex=False)
                lim = min(cs.opts.get("deadline", case_budget), max(10, budget - (time.time() - t0)))
                p = ctx.Process(target=run_case_symbolic, args=(modname, cs, seed, time.time() + lim, b))
                p.start()
                b.close()
                running.append((p, a, cs, time.time() + lim + 90))
            if queue and time.time() - t0 >= budget:
                for cs in queue:
                    results.append(_blank(cs, "not run: time budget of the tier used up"))
                queue = []
            done = []
            for r in running:
                p, a, cs, end = r
                if a.poll(0.02):
                    try:
                        results.append(a.recv())
                    except EOFError:
                        results.append(_blank(cs, "exploration process ended without a result"))
                    p.join()
                    done.append(r)
                elif not p.is_alive():
                    results.append(_blank(cs, "exploration process died"))
                    done.append(r)
                elif time.time() > end:
                    os.kill(p.pid, signal.SIGKILL)
                    p.join()
                    results.append(_blank(cs, "hard time limit"))
                    done.append(r)
            running = [r for r in running if r not in done]
            if verbose:
                for r in results:
                    if not r.get("_p"):
                        r["_p"] = 1
                        print(f"  {r['name']}: {r['status']} paths={r['paths']} obl={r['obligations']} q={r['queries']} "
                              f"solver={r['solver_s']:.1f}s wall={r.get('wall', 0):.1f}s cand={len(r['candidates'])} {r['inconclusive'][:3]}", flush=True)
                        if r.get("trace") and r["status"] != "ok":
                            print(r["trace"])
    else:
        for cs in cases:
            results.append(_blank(cs, "sources could not be encoded: " + load_error))
    # concrete phase
    pkgdir = build.finish(scratch, bp)
    reqs = []
    for r in results:
        for vi, v in enumerate(r["validations"]):
            reqs.append(dict(id=f"v|{r['name']}|{vi}", check=modname, func=r["func"], params=r["params"], env=v["env"], seed=seed))
        for ci, cand in enumerate(r["candidates"]):
            for ei, e in enumerate(cand["envs"]):
                reqs.append(dict(id=f"c|{r['name']}|{ci}|{ei}", check=modname, func=r["func"], params=r["params"], env=e, seed=seed + ei + 17 * ci))
    conc = run_concrete(pkgdir, modname, reqs, scratch, 240 if tier == "quick" else 1200) if reqs else {}
    # an access outside an array may go unnoticed in the regular build: replay those on a build with subscript checks
    again = [q for q in reqs if q["id"].startswith("c|") and not conc.get(q["id"], {}).get("fails")
             and any(r["name"] == q["id"].split("|")[1] and "IndexError" in r["candidates"][int(q["id"].split("|")[2])]["label"] for r in results)]
    again = again[:8]
    if again:
        try:
            s2, b2 = build.start(checked=True)
            try:
                pk2 = build.finish(s2, b2)
                for k, g in run_concrete(pk2, modname, again, s2, 120 if tier == "quick" else 600).items():
                    if any(f[0] == "subscript" or "IndexError" in f[0] for f in g["fails"]):
                        conc[k] = dict(g, checked=True)
            finally:
                build.remove(s2)
        except Exception as e:
            print("build with subscript checks:", str(e)[-300:])
    known = known_findings(prop)
    violations, known_hit, mismatches, nvalid, unconfirmed = [], [], [], 0, []
    for r in results:
        for vi, v in enumerate(r["validations"]):
            g = conc.get(f"v|{r['name']}|{vi}")
            if g is None or g.get("skipped"):
                continue
            why = compare_obs(v["obs"], g["obs"])
            predicted = bool(r["candidates"])
            if g["fails"] and predicted:
                continue
            if why:
                mismatches.append(f"{r['name']}: {why}")
                # the real code contradicts the harness on this input: this is evidence by itself
                if g["fails"]:
                    violations.append(dict(case=r["name"], func=r["func"], params=r["params"], env=g["env"], seed=seed, fails=g["fails"], label=g["fails"][0][0]))
            elif g["fails"]:
                mismatches.append(f"{r['name']}: real code fails {g['fails'][0]}")
                violations.append(dict(case=r["name"], func=r["func"], params=r["params"], env=g["env"], seed=seed, fails=g["fails"], label=g["fails"][0][0]))
            else:
                nvalid += 1
        for ci, cand in enumerate(r["candidates"]):
            hit = None
            for ei, e in enumerate(cand["envs"]):
                g = conc.get(f"c|{r['name']}|{ci}|{ei}")
                if g and g["fails"]:
                    hit = dict(case=r["name"], func=r["func"], params=r["params"], env=g["env"], seed=seed + ei + 17 * ci, fails=g["fails"],
                               label=g["fails"][0][0], why=cand["why"], checked=bool(g.get("checked")))
                    break
            if hit:
                violations.append(hit)
            elif cand["kind"] == "sat":
                unconfirmed.append(f"{r['name']}: {cand['label']} ({cand['why']}; {cand.get('detail')})")
    new = []
    for v in violations:
        k = next((k for k in known if k.get("case") and k["case"] in v["case"] and all(
            any(lab in f[0] for lab in k.get("labels", [""])) for f in v["fails"])), None)
        if k is not None:
            known_hit.append(k)
        else:
            new.append(v)
    incon = [f"{r['name']}: {x}" for r in results for x in r["inconclusive"]]
    novac = [r["name"] for r in results if not r["witness"] and r["status"] == "ok"]
    for k in {id(k): k for k in known_hit}.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rep = []
    if new:
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for v in new:
            key = (v["func"], v["label"])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(d, f"{prop}-{len(rep)}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, check=modname, **v), f, indent=1)
            rep.append(path)
            print(f"counterexample in {v['case']}: {v['fails'][0][0]}: {v['fails'][0][1]}")
            print(f"VIOLATION property={prop} replay={path}")
            if len(rep) >= 5:
                break
    write_evidence(prop, modname, tier, seed, mod, results, nvalid, mismatches, unconfirmed, incon, novac, len(new), t0, load_error)
    tot = lambda k: sum(r[k] for r in results)
    print(f"{prop} [{tier}] cases={len(results)} paths={tot('paths')} assertions={tot('obligations')} queries={tot('queries')} "
          f"(unsat {tot('unsat')}, sat {tot('sat')}, unknown {tot('unknown')}) solver={tot('solver_s'):.1f}s validated={nvalid} "
          f"mismatch={len(mismatches)} inconclusive={len(incon)} unconfirmed={len(unconfirmed)} wall={time.time() - t0:.1f}s")
    for x in mismatches[:8]:
        print("encoding/real mismatch:", x)
    for x in incon[:8]:
        print("inconclusive:", x)
    for x in unconfirmed[:8]:
        print("counterexample not reproduced on the real code (inconclusive):", x)
    for x in novac[:8]:
        print("vacuous case:", x)
    if new:
        return 1
    return 0


def _blank(cs, why):
    r = dict(name=cs.name, func=cs.func, params=cs.params, status="not run", paths=0, decisions=0, obligations=0, queries=0,
             solver_s=0.0, unsat=0, sat=0, unknown=0, branch_queries=0, candidates=[], validations=[], inconclusive=[why],
             functions=[], assumptions=[], witness=False, samples=[], aborted=0)
    for _ in range(8):
        r["candidates"].append(dict(envs=[{}], label="(fallback)", why=why, kind="fallback"))
    return r


def write_evidence(prop, modname, tier, seed, mod, results, nvalid, mismatches, unconfirmed, incon, novac, nviol, t0, load_error):
    def tot(k):
        return sum(r[k] for r in results)
    funcs = sorted({f for r in results for f in r["functions"]})
    samples = [s for r in results for s in r["samples"]][:6]
    cov = dict(
        states=tot("paths"), transitions=tot("decisions"), traces_validated_against_impl=nvalid,
        samples=samples,
        meaning="states = feasible symbolic paths explored, transitions = solver-decided branch decisions on them, "
                "traces validated = path models on which the real compiled package returned the values the encoding predicts",
        cases=[dict(case=r["name"], status=r["status"], paths=r["paths"], assertions=r["obligations"], queries=r["queries"],
                    reachable=r["witness"], solver_s=round(r["solver_s"], 2)) for r in results],
        functions_encoded=funcs, bounds=getattr(mod, "BOUNDS", ""), outside=getattr(mod, "OUTSIDE", ""),
        assertions=tot("obligations"), queries=tot("queries"), queries_branch=tot("branch_queries"), unsat=tot("unsat"),
        sat=tot("sat"), unknown=tot("unknown"), solver_seconds=round(tot("solver_s"), 2),
        identities_decided_by_rewriting_alone=sum(r.get('rewritten', 0) for r in results), encoding_mismatches=mismatches[:20], inconclusive=incon[:40], counterexamples_not_reproduced=unconfirmed[:20],
        vacuous_cases=novac, load_error=load_error)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + sorted({a for r in results for a in r["assumptions"]}) + [
                  "machine integers do not wrap and floating point behaves as exact real arithmetic"],
              wall_s=round(time.time() - t0, 2), violations=nviol)
    d = EVID
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    from . import build
    with open(path) as f:
        v = json.load(f)
    scratch, bp = build.start(checked=v.get("checked", False))
    try:
        pkgdir = build.finish(scratch, bp)
        r = run_concrete(pkgdir, v["check"], [dict(id="r", check=v["check"], func=v["func"], params=v["params"], env=v["env"], seed=v["seed"])], scratch, 300)
        print(json.dumps(r.get("r"), indent=1))
        return 1 if r.get("r", {}).get("fails") else 0
    finally:
        build.remove(scratch)
