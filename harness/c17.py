"""C17 The solver reports its errors truthfully and stops when it says"""
import math
import random
import struct

import numpy as np

from . import core, designs, tlc
from .c16 import residual
from mpllayout import constraints as cr
from mpllayout import constructions as con
from mpllayout import primitives as pr
from mpllayout import solver
from mpllayout.layout import Layout


def key(x):
    """Three numbers that are ordered as floats are; not-a-number is last"""
    x = float(x)
    if math.isnan(x):
        return [2**22, 0, 0]
    n = struct.unpack("<Q", struct.pack("<d", x + 0.0))[0]
    n = (2**64 - 1) ^ n if n >> 63 else n | 1 << 63
    return [n >> 43, n >> 22 & 0x1fffff, n & 0x3fffff]


# -- geometric iterations ------------------------------------------------------------

# slope of the error exponent: power of the residual, base of the exponent
POWERS = {-1: (2.0, 4.0), 0: (0.5, 4.0), 1: (1 / 3, 2 ** (1 / 3))}


def geometric(row, rng):
    """A layout whose Newton iteration has the errors of the specification"""
    power, base = POWERS[row["slope"]]
    x = (base ** row["start"]) ** (1 / power)
    layout = Layout()
    layout.add_prim(pr.Point(value=np.zeros(2)), "o")
    layout.add_prim(pr.Point(value=np.array([x, 0.5])), "p")
    layout.add_constraint(cr.Fix(), ("o",), (np.zeros(2),))
    c = con.XDistance()
    c = (con.transform_scalar_pow(c, 2.0) if power == 2.0
         else con.transform_scalar_pow(con.transform_scalar_pow(c, 2.0), power / 2))
    layout.add_constraint(c, ("o", "p"), ())
    tols = [0.0 if t == -99 else base ** (t / 2) for t in (row["absTol"], row["relTol"])]
    return layout, x, power, base, tols


def replay_geometric(job):
    row, seed = job
    rng = random.Random(seed)
    layout, x, power, base, (abs_tol, rel_tol) = geometric(row, rng)
    got = core.observe(solver.solve, layout, abs_tol=abs_tol, rel_tol=rel_tol,
                       max_iter=row["maxIter"], method="newton", limit=120)
    if got[0] != "ok":
        return [("geometric:solved", False, row, "a solution", got)]
    root, info = got[1]
    want = [base ** (e / 2) for e in row["errs"]]
    rels = [base ** (e / 2) for e in row["rels"]]
    n = len(want)

    def near(a, b):
        return len(a) == len(b) and np.allclose(np.array(a, dtype=float), b, rtol=1e-6, atol=0)
    factor = 1 - 1 / power
    return [
        ("geometric:length", len(info["abs_errs"]) == n == len(info["rel_errs"]), row, n,
         [len(info["abs_errs"]), len(info["rel_errs"])]),
        ("geometric:absolute-errors", near(info["abs_errs"], want), row, want, info["abs_errs"]),
        ("geometric:relative-errors", near(info["rel_errs"], rels), row, rels, info["rel_errs"]),
        ("geometric:iterate", np.allclose(np.asarray(root["p"].value, dtype=float),
                                          [x * factor ** n, 0.5], rtol=1e-6, atol=0), row,
         [x * factor ** n, 0.5], root["p"].value),
    ]


# -- recorded runs -------------------------------------------------------------------

def coordinates(root):
    return np.concatenate([np.zeros(0)] + [
        np.asarray(v, dtype=float).ravel() for v in pr.filter_unique_values_from_prim(root)[1]])


class Recorder:
    def __init__(self, layout, method, runs):
        self.layout, self.method, self.runs, self.iterates = layout, method, runs, {}

    def solve(self, abs_tol, rel_tol, max_iter):
        got = core.observe(solver.solve, self.layout, abs_tol=abs_tol, rel_tol=rel_tol,
                           max_iter=max_iter, method=self.method, limit=120)
        if got[0] != "ok":
            return None
        root, info = got[1]
        with np.errstate(all="ignore"):
            norm = float(np.linalg.norm(residual(self.layout, root)))
        scale = 1e-11 * (1 + np.abs(coordinates(root)).max(initial=0)) ** 2
        return {"abs": [float(e) for e in info["abs_errs"]],
                "rel": [float(e) for e in info["rel_errs"]], "norm": norm, "scale": scale}

    def record(self, abs_tol, rel_tol, max_iter, rng=None):
        """A run and the ones limited to fewer iterations (later only some of them)"""
        run = self.solve(abs_tol, rel_tol, max_iter)
        if run is None:
            return None
        first = 0 if self.method == "newton" else 1
        limited = {}
        some = range(min(max_iter, len(run["abs"]) + 2))
        if self.iterates:
            some = rng.sample(some, min(2, len(some)))
        for m in some:
            got = self.solve(abs_tol, rel_tol, m)
            if got is None:
                return None
            limited[m] = got
            # what the tolerances are does not change the iterates
            if len(got["abs"]) == m:
                self.iterates.setdefault(m, got)
        checks = []
        for k, (a, e) in enumerate(zip(run["abs"], run["rel"])):
            at = self.iterates.get(k + first)
            if at is None:      # not known
                at = {"norm": a, "scale": 0.0}
            ratio = (math.nan if run["abs"][0] == 0 else a / run["abs"][0])
            bad = math.isnan(a) != math.isnan(at["norm"])
            rel_off = (0.0 if math.isnan(ratio) == math.isnan(e) and (math.isnan(e) or e == ratio)
                       else abs(e - ratio))
            off = math.inf if bad else (0.0 if math.isnan(a) or a == at["norm"]
                                        else abs(a - at["norm"]))
            checks.append({
                "normOff": key(off), "normTol": key(1e-9 * a + at["scale"]),
                "relOff": key(rel_off), "relTol": key(1e-12 * abs(e) + 1e-300)})
        last = []
        if self.method == "minimize" and run["abs"]:
            a = run["abs"][-1]
            last = [key(abs(a - run["norm"])), key(1e-9 * a + run["scale"])]

        def same(m):
            got, n = limited[m], min(m, len(run["abs"]))
            return [i < len(got["abs"]) and i < len(got["rel"])
                    and np.isclose(got["abs"][i], run["abs"][i], rtol=1e-9,
                                   atol=run["scale"], equal_nan=True)
                    and (np.isclose(got["rel"][i], run["rel"][i], rtol=1e-9, equal_nan=True,
                                    atol=run["scale"] / (run["abs"][0] or 1)))
                    for i in range(n)]
        self.runs.append({
            "method": self.method, "absTol": key(abs_tol), "relTol": key(rel_tol),
            "maxIter": max_iter, "abs": [key(a) for a in run["abs"]],
            "rel": [key(a) for a in run["rel"]], "checks": checks, "last": last,
            "limited": [{"maxIter": m, "len": len(limited[m]["abs"]),
                         "same": [bool(x) for x in same(m)]} for m in limited],
            "info": {"method": self.method, "abs_tol": abs_tol, "rel_tol": rel_tol,
                     "max_iter": max_iter, **run,
                     "limited": {m: limited[m]["abs"] for m in limited}}})
        return run


def recorded(job):
    """Runs of a design with tolerances of and around the errors it meets"""
    case, seed, method = job
    rng = random.Random(seed)
    keep = sorted(rng.sample(range(len(case["cons"])), min(len(case["cons"]), 6)))
    case = {**case, **{k: [case[k][i] for i in keep] for k in ("cons", "targets")}}
    nrng = np.random.default_rng(rng.randrange(2**32))
    n = len(case["pts"])
    base = np.array(case["pts"], dtype=float)
    if method == "newton" and case["linear"]:
        start = nrng.uniform(-5, 5, (n, 2))
    else:
        start = base + nrng.uniform(-1, 1, (n, 2)) * rng.choice([0.03, 0.2, 0.6])
    if rng.random() < 0.1:
        start = base
    layout = designs.make_layout(case, start)
    runs = []
    rec = Recorder(layout, method, runs)
    most = rng.choice([3, 5, 6]) if method == "newton" else rng.choice([4, 7])
    first = rec.record(*rng.choice([(0.0, 0.0), (1e-10, 1e-7), (-1.0, 0.0)]), most)
    if first is not None and first["abs"]:
        for _ in range(2):
            k = rng.randrange(len(first["abs"]))
            a, r = first["abs"][k], first["rel"][k]
            around = rng.choice([lambda v: v, lambda v: np.nextafter(v, 0), lambda v: 1.5 * v,
                                 lambda v: 0.7 * v])
            if rng.random() < 0.5:
                tols = (float(around(a)), 0.0)
            else:
                tols = (0.0, float(around(r)))
            if not any(math.isnan(t) for t in tols):
                rec.record(*tols, rng.choice([most, most - 1, 12]) if method == "newton" else most,
                           rng)
    info = {"pts": case["pts"], "prims": case["prims"], "cons": case["cons"],
            "targets": case["targets"], "start": start.tolist()}
    return [{**r, "info": {**r["info"], "design": info}} for r in runs], first is None


UNKNOWN = ["", "Newton", "newton ", "MINIMIZE", "lbfgs", "L-BFGS-B", "min", "newton_cg", None, 0]


def unknown_methods(check):
    layout = Layout()
    layout.add_prim(pr.Point(value=np.ones(2)), "p")
    layout.add_constraint(cr.Fix(), ("p",), (np.zeros(2),))
    for m in UNKNOWN:
        for lay in (layout, Layout()):
            got = core.observe(solver.solve, lay, method=m)
            check.expect("unknown-method", got[0] == "err", {"method": repr(m)}, "rejected", got[0])


def run(check):
    rng = check.rng
    res = tlc.run("Iteration", cfg="IterationAny", workers=8, coverage=True)
    check.tlc("iteration rules", res)
    res = tlc.run("Iteration", workers=8, coverage=True)
    check.tlc("geometric iterations", res)
    rows = [r for r in res.rows]
    rows = rng.sample(rows, min(check.pick(120, 4000), len(rows)))
    check.count("geometric iterations", replayed=len(rows))
    for out in core.parallel(replay_geometric, [(r, rng.randrange(2**32)) for r in rows], chunksize=4):
        check.traces += 1
        for clause, ok, info, expected, observed in out:
            check.expect(clause, ok, info, expected, core.jsonable(observed))

    cases = designs.analysed(check, "designs", designs.propose(rng, check.pick(45, 500)))
    jobs = [(c, rng.randrange(2**32), rng.choice(["newton", "newton", "minimize"]))
            for c in cases if c["agree"] and c["sigma"] > 1e-2]
    runs = []
    for (case, _s, method), (got, failed) in zip(jobs, core.parallel(recorded, jobs)):
        runs += got
        check.count("recorded runs", designs=1, failed=int(failed))
        if failed and case["linear"]:
            check.violation("solved", {k: case[k] for k in ("pts", "prims", "cons", "targets")},
                            "a solution", method)
    infos = [r.pop("info") for r in runs]
    runs = core.jsonable(runs)
    res = tlc.run("IterationTrace", data=runs, workers=8)
    check.tlc("recorded runs", res)
    check.count("recorded runs", runs=len(runs), limited=sum(len(r["limited"]) for r in runs),
                iterations=sum(len(r["abs"]) for r in runs),
                newton=sum(r["method"] == "newton" for r in runs),
                stopped_by_tolerance=sum(len(r["abs"]) < r["maxIter"] for r in runs))
    check.traces += len(runs)
    check.calls += sum(len(r["abs"]) + len(r["limited"]) for r in runs)
    for row in res.rows:
        info = infos[row["r"] - 1]
        check.violation(row["clause"], info, {"at": row["k"]}, None)
    unknown_methods(check)
    check.assumptions += [
        "the residual of an iterate is evaluated eagerly by the package itself (its meaning is C05)",
        "minimize may stop or go on when an error equals a tolerance",
    ]
