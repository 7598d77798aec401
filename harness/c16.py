"""C16 Solving returns geometry that satisfies every constraint"""
import random
import time

import numpy as np

from . import core, designs
from mpllayout import primitives as pr
from mpllayout import solver
from mpllayout.layout import Layout


def leaves(case, rename=lambda s: s):
    """Paths of all points, with their numbers"""
    return [("/".join([rename(path.split("/")[0])] + path.split("/")[1:]), ids[0])
            for sh, path, ids in designs.all_parts(case["prims"]) if sh == "P"]


def names_and_kinds(node):
    return [type(node).__name__, [[k, names_and_kinds(node[k])] for k in node.keys()]]


def snapshot(layout):
    def values(node, path=""):
        out = {path: np.array(node.value, dtype=float).tolist()}
        for k in node.keys():
            out.update(values(node[k], path + "/" + k))
        return out

    def listing(node, path=""):
        out = [(path, id(node), repr(node.value))]
        for k in node.keys():
            out += listing(node[k], path + "/" + k)
        return out
    return (values(layout.root_prim), names_and_kinds(layout.root_prim),
            sharing(layout.root_prim),
            listing(layout.root_constraint), listing(layout.root_prim_keys),
            listing(layout.root_param))


def sharing(root):
    entry, _values = pr.filter_unique_values_from_prim(root)
    groups = {}
    for path, n in entry.items():
        groups.setdefault(n, []).append(path)
    return sorted(sorted(g) for g in groups.values())


def residual(layout, root):
    flat = layout.flat_constraints()
    res = solver.assem_constraint_residual(root, *flat)
    return np.concatenate([np.zeros(0)] + [np.asarray(r, dtype=float).ravel() for r in res])


class Run:
    def __init__(self, case):
        self.case = case
        self.out = []       # (clause, ok, info, expected, observed)
        self.base = np.array(case["pts"], dtype=float)
        self.full = set(case["involved"]) <= set(case["determined"])

    def expect(self, clause, ok, info, expected=None, observed=None):
        self.out.append((clause, bool(ok), core.jsonable(info), core.jsonable(expected),
                         core.jsonable(observed)))
        return ok

    def solve(self, clause, layout, info, **kw):
        got = core.observe(solver.solve, layout, limit=120, **kw)
        if not self.expect(f"{clause}:solved", got[0] == "ok", info, "a solution", got):
            return None
        return got[1]

    def positions(self, root, rename=lambda s: s):
        """Coordinates by column, and whether equal points agree"""
        x = np.full(self.base.size, np.nan)
        same = True
        for path, i in leaves(self.case, rename):
            v = np.asarray(root[path].value, dtype=float)
            if v.shape != (2,):
                return x, False
            now = x[2 * i - 2:2 * i]
            if not np.isnan(now[0]) and not np.array_equal(now, v):
                same = False
            x[2 * i - 2:2 * i] = v
        return x, same

    def judge(self, clause, root, start, info, tol, layout, rename=lambda s: s, res_tol=None):
        """The solved geometry against what the specification determines"""
        x, same = self.positions(root, rename)
        if not self.expect(f"{clause}:sharing", same, info, "equal points move together", None):
            return x
        start = np.ravel(start)
        drawn = ~np.isnan(x)
        inv = np.zeros(x.size, bool)
        inv[self.case["involved"]] = True
        rest = drawn & ~inv
        off = np.abs(x - start)[rest]
        self.expect(f"{clause}:untouched", not off.size or off.max() <= 1e-9 * (1 + np.abs(start).max()),
                    info, start[rest], x[rest])
        if self.case["linear"] or self.full:
            det = np.zeros(x.size, bool)
            det[self.case["determined"]] = True
            off = np.abs(x - self.base.ravel())[det & drawn]
            self.expect(f"{clause}:determined", not off.size or off.max() <= tol, info,
                        self.base.ravel()[det], x[det])
        if self.case["linear"] and self.case["rows"]:
            r = np.array(self.case["rows"]) @ np.nan_to_num(x - self.base.ravel())
            self.expect(f"{clause}:satisfied", np.abs(r).max() <= 20 * tol, info, "zero", r)
        if self.case["linear"] or self.full:
            r = residual(layout, root)
            self.expect(f"{clause}:residual", not r.size or np.abs(r).max() <= (res_tol or tol), info,
                        "zero", r)
        return x


def perform(job):
    """All the solves of one design"""
    case, seed, minimise = job
    rng = random.Random(seed)
    nrng = np.random.default_rng(rng.randrange(2**32))
    run = Run(case)
    n = len(case["pts"])
    if case["linear"]:
        start = nrng.uniform(-20, 20, (n, 2)) * rng.choice([1, 1, 10])
        if rng.random() < 0.15:
            start = np.zeros((n, 2))
        elif rng.random() < 0.35:
            # some coordinates nearly right, others far off
            start = run.base + nrng.choice([-1, 1], (n, 2)) * 10 ** nrng.uniform(-5, 3, (n, 2))
    else:
        start = run.base + nrng.uniform(-1, 1, (n, 2)) * 0.02 * case["sigma"]
    # points may be given in any numeric type
    dtypes = None
    if n and rng.random() < 0.35:
        dtypes = [rng.choice([np.float64, np.float32, np.int64 if case["linear"] else np.float64])
                  for _ in range(n)]
        dtypes[rng.randrange(n)] = np.float64
        start = np.array([np.array(v, dtype=t).astype(float) for v, t in zip(start, dtypes)])
    info = {"pts": case["pts"], "prims": case["prims"], "cons": case["cons"],
            "targets": case["targets"], "start": start, "linear": case["linear"],
            "full": run.full, "dtypes": [t.__name__ for t in dtypes or ()]}
    tol = 1e-6
    # with the default number of iterations for the linear ones
    kw = {} if case["linear"] else {"max_iter": 30}

    layout = designs.make_layout(case, start, dtypes=dtypes)
    before = snapshot(layout)
    got = run.solve("newton", layout, info, **kw)
    if got is None:
        return run.out
    root, _ = got
    run.expect("layout-unchanged", snapshot(layout) == before, info, "the same layout", None)
    run.expect("structure", names_and_kinds(root) == before[1], info, before[1],
               names_and_kinds(root))
    run.expect("sharing", sharing(root) == before[2], info, before[2], sharing(root))
    # the equations of linear layouts are solved exactly, up to rounding
    fine = 1e-10 * (1 + np.abs(start).max(initial=0)) / min(1, case["sigma"]) \
        if case["linear"] and not case["steep"] else tol
    x = run.judge("newton", root, start, info, tol, layout, res_tol=fine)

    if case["linear"]:
        got = run.solve("one-step", layout, info, max_iter=1)
        if got is not None:
            run.judge("one-step", got[0], start, info, tol, layout)

    settled = case["linear"] or run.full
    if settled and case["cons"] and rng.random() < 0.6:
        # the solved geometry as the start of another layout
        again = Layout(root, layout.root_constraint, layout.root_prim_keys, layout.root_param)
        got = run.solve("again", again, info, **kw)
        if got is not None:
            y, _ = run.positions(got[0])
            run.expect("again:nothing-changes", np.nanmax(np.abs(y - x)) <= tol, info, x, y)

    # other names, another order
    names = [p["name"] for p in case["prims"]]
    fresh = [f"{rng.choice('abAZ09')}{i}{rng.choice(['', ' ', 'Line0'])}" for i in range(len(names))]
    rng.shuffle(fresh)
    table = dict(zip(names, fresh))
    rename = table.__getitem__
    order = list(range(len(case["cons"])))
    rng.shuffle(order)
    porder = list(range(len(names)))
    rng.shuffle(porder)
    if settled and len(case["cons"]) > 1 and rng.random() < 0.6:
        other = designs.make_layout(case, start, porder, order, rename,
                                    named=[k for k in order if rng.random() < 0.5],
                                    dtypes=dtypes)
        info2 = {**info, "order": order, "prim_order": porder, "names": table}
        got = run.solve("reordered", other, info2, **kw)
        if got is not None:
            run.judge("reordered", got[0], start, info2, tol, other, rename)

    # a start that satisfies everything
    got = None
    if rng.random() < 0.5:
        exact = designs.make_layout(case, run.base)
        method = rng.choice(["newton", "minimize"])
        got = run.solve("satisfied", exact, info, method=method)
    if got is not None:
        y, _ = run.positions(got[0])
        off = np.abs(y - run.base.ravel())
        run.expect("satisfied:nothing-changes", np.nanmax(off) <= 1e-8, {**info, "method": method},
                   run.base, y)

    if minimise:
        if not case["linear"]:
            start = run.base + nrng.uniform(-1, 1, (n, 2)) * 0.1 * case["sigma"]
            info = {**info, "start": start}
        layout = designs.make_layout(case, start)
        before = snapshot(layout)
        got = run.solve("minimize", layout, info, method="minimize", max_iter=4000)
        if got is not None:
            run.expect("minimize:layout-unchanged", snapshot(layout) == before, info)
            run.expect("minimize:structure", names_and_kinds(got[0]) == before[1], info)
            run.expect("minimize:sharing", sharing(got[0]) == before[2], info)
            run.judge("minimize", got[0], start, info, 5e-3, layout, res_tol=2e-3)

    # nothing to satisfy
    if rng.random() < 0.7:
        return run.out
    bare = designs.make_layout({**case, "cons": []}, start)
    before = snapshot(bare)
    method = rng.choice(["newton", "minimize"])
    got = run.solve("no-constraints", bare, {"prims": case["prims"], "method": method},
                    method=method)
    if got is not None:
        run.expect("no-constraints:same", (snapshot(Layout(got[0]))[:3]) == before[:3],
                   {"prims": case["prims"], "start": start, "method": method})
    return run.out


def run(check):
    rng = check.rng
    num = check.pick(110, 1500)
    cases = designs.analysed(check, "designs", designs.propose(rng, num))
    jobs = []
    for c in cases:
        if not c["agree"] or c["sigma"] < 1e-2:
            check.count("designs", ill_conditioned=1)
            continue
        full = set(c["involved"]) <= set(c["determined"])
        minimise = c["sigma"] > 0.2 and not c["steep"] and (c["linear"] or full)
        jobs.append((c, rng.randrange(2**32), minimise and rng.random() < 0.7))
        check.count("designs", designs=1, linear=int(c["linear"]), all_determined=int(full),
                    minimised=int(jobs[-1][2]), constraints=len(c["cons"]))
    check.sample({k: jobs[0][0][k] for k in ("pts", "prims", "cons")})
    for out in core.parallel(perform, jobs):
        for clause, ok, info, expected, observed in out:
            check.expect(clause, ok, info, expected, observed)
            if clause.endswith(":solved"):
                check.traces += 1
    check.assumptions += [
        "non-linear layouts are solved from near their design and judged when the "
        "specification finds all involved coordinates determined",
        "ill-conditioned designs are left out",
    ]
