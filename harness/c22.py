"""C22 Constraints are differentiable and trace-compatible"""
import json
import random

import jax
import jax.numpy as jnp
import numpy as np

from . import algebra, core, designs, geom, tlc
from mpllayout import constraints as cr
from mpllayout import primitives as pr
from mpllayout import solver

SHAPES = {"P": 1, "L": 2, "Q": 4}
#           name: (shapes, extra parameter)
MEASURES = {
    "Coordinate": ("P", ""), "XDistance": ("PP", ""), "YDistance": ("PP", ""),
    "DirectedDistance": ("PP", "dir"), "LineVector": ("L", ""), "UnitLineVector": ("L", ""),
    "Length": ("L", ""), "XLength": ("L", ""), "YLength": ("L", ""), "DirectedLength": ("L", "dir"),
    "Midpoint": ("L", ""), "MidpointDirectedDistance": ("LL", "dir"), "MidpointXDistance": ("LL", ""),
    "MidpointYDistance": ("LL", ""), "Angle": ("LL", ""), "PointOnLineDistance": ("PL", "bool"),
    "PointToLineDistance": ("PL", "bool"), "RelativePointOnLineDistance": ("PL", "bool"),
    "RectangleDim": ("Q", "dim"), "Width": ("Q", ""), "Height": ("Q", ""), "AspectRatio": ("Q", ""),
    "OuterMargin": ("QQ", "side"), "InnerMargin": ("QQ", "side"),
}
CONSTRAINTS = {
    "Fix": ("P", ""), "Vertical": ("L", ""), "Horizontal": ("L", ""), "Orthogonal": ("LL", ""),
    "Parallel": ("LL", ""), "RelativeLength": ("LL", "ratio"), "Coincident": ("PP", ""),
    "CoincidentLines": ("LL", "bool"),
    **{k: MEASURES[k] for k in ("XDistance", "YDistance", "DirectedDistance", "Length",
                                "DirectedLength", "XLength", "YLength", "MidpointXDistance",
                                "MidpointYDistance", "Angle", "PointOnLineDistance",
                                "PointToLineDistance", "RelativePointOnLineDistance", "Width",
                                "Height", "AspectRatio", "OuterMargin", "InnerMargin")},
}
# residuals are documented up to sign and order
UNSIGNED = {"Coincident", "CoincidentLines"}
SIDES = ["bottom", "right", "top", "left"]


# -- exact derivatives ------------------------------------------------------------------

def exact_case(rng, what, name):
    shapes, extra = (MEASURES if what == "measure" else CONSTRAINTS)[name]
    m = rng.choice([1, 2, 4])
    num = rng.randint(max(SHAPES[s] for s in shapes), 6)
    pts = [[rng.randint(-m, m), rng.randint(-m, m)] for _ in range(num)]
    ids = []
    for s in shapes:
        pick = rng.sample(range(1, num + 1), SHAPES[s])
        if s == "Q" and rng.random() < 0.5:     # upright
            x, y, w, h = rng.randint(-3, 3), rng.randint(-3, 3), rng.randint(1, 4), rng.randint(1, 4)
            for i, p in zip(pick, geom.boxq(x, y, w, h)):
                pts[i - 1] = list(p)
        ids.append(pick)
    if len(ids) == 2 and shapes[0] == shapes[1] and rng.random() < 0.15:
        ids[1] = list(ids[0])
    if rng.random() < 0.4:
        special(rng, shapes, pts, ids)
    params = {"": [], "dir": [rng.choice([[1, 0], [0, 1], [3, -2], [-1, -1], [2, 5]])],
              "bool": [rng.random() < 0.5], "ratio": [rng.choice([[1, 2], [3, 1], [1, 1], [5, 3]])]
              }.get(extra, [])
    side = {"side": rng.choice(SIDES), "dim": rng.choice(["width", "height"])}.get(extra, "")
    return {"what": what, "pts": pts, "c": {"name": name, "side": side, "sh": list(shapes), "ids": ids,
                                            "params": params}}


def special(rng, shapes, pts, ids):
    """Move the last primitive to where a quantity vanishes or is extreme"""
    at = lambda i: pts[i - 1]

    def put(i, p, u, k):
        pts[i - 1] = [p[0] + k * u[0], p[1] + k * u[1]]
    last = ids[-1]
    if shapes in ("PL", "LL"):
        a, b = last
        u = [at(b)[0] - at(a)[0], at(b)[1] - at(a)[1]]
        n = [-u[1], u[0]]
        # beside an end of the line, or on it
        first = [i for i in ids[0] if i not in last]
        if first:
            put(first[0], at(rng.choice(last)), rng.choice([n, n, u]), rng.choice([-1, 0, 1, 2]))
        if len(first) > 1:
            put(first[1], at(first[0]), rng.choice([n, u]), rng.choice([-1, 1]))
    elif shapes == "L":
        put(last[1], at(last[0]), rng.choice([[1, 0], [0, 1], [1, 1]]), rng.choice([-2, -1, 1, 3]))
    elif shapes == "PP" and ids[0][0] != ids[1][0]:
        put(last[0], at(ids[0][0]), rng.choice([[1, 0], [0, 1]]), rng.choice([0, 0, 1]))


def template(make, num):
    """Primitives as a function of the coordinates of num points (see make)"""
    marks = [pr.Point(value=np.array([2.0 * i, 2.0 * i + 1])) for i in range(num)]
    leaves, tree = jax.tree_util.tree_flatten(make(marks))
    idx = [np.asarray(v).astype(int) for v in leaves]

    def at(x):
        return jax.tree_util.tree_unflatten(tree, [x[i] for i in idx])
    return at


def arguments(c, num):
    """The arguments of a call through points; what is shared is one object"""
    def make(points):
        lines = {}

        def one(s, ids):
            if s == "P":
                return points[ids[0] - 1]
            if s == "L":
                return lines.setdefault(tuple(ids), pr.Line(prims=tuple(points[i - 1] for i in ids)))
            return pr.Quadrilateral(None, [points[i - 1] for i in ids])
        return tuple(one(s, ids) for s, ids in zip(c["sh"], c["ids"]))
    return template(make, num)


def params_of(case, rng):
    name, c = case["c"]["name"], case["c"]
    out = []
    for p in c["params"]:
        if isinstance(p, bool):
            out.append(p)
        elif name == "RelativeLength":
            out.append(geom.rat(p))
        else:
            out.append(np.array(p, dtype=float))
    if case["what"] == "constraint":
        if name == "Fix":
            out.append(np.array([rng.uniform(-2, 2), rng.uniform(-2, 2)]))
        elif name not in ("Vertical", "Horizontal", "Orthogonal", "Parallel", "Coincident",
                          "CoincidentLines", "RelativeLength"):
            out.append(rng.uniform(0.5, 2))
    return tuple(out)


def multiset(rows):
    """Rows up to order and sign"""
    out = []
    for r in rows:
        r = np.round(np.asarray(r, dtype=float), 6) + 0.0
        nz = r[r != 0]
        out.append(tuple(r if not nz.size or nz[0] > 0 else -r + 0.0))
    return sorted(out)


def exact(job):
    """Derivatives, by all the ways to get them, against the exact ones"""
    case, rows, seed = job
    rng = random.Random(seed)
    out = []

    def run(clause, ok, info, expected=None, observed=None):
        out.append((clause, bool(ok), core.jsonable(info), core.jsonable(expected),
                    core.jsonable(observed)))
        return ok
    c = case["c"]
    scale = rng.choice([1.0, 1.0, 0.25, 2.5, 2.0**-13, 2.0**-26, 2.0**10])
    # the derivatives do not depend on where the figure is
    shift = rng.choice([[0, 0], [0, 0], [0, 0], [1024, -300], [-5, 2**15]])
    x = scale * (np.array(case["pts"], dtype=float) + shift).ravel()
    params = params_of(case, rng)
    con = geom.construction(case["what"], c["name"], c["side"])
    want = np.array([[geom.real(g) for g in row] for row in rows["grad"]])
    # lengths grow with the scale and ratios and directions do not
    homogeneous = {"UnitLineVector": -1, "Angle": -1, "RelativePointOnLineDistance": -1, "AspectRatio": -1,
                   "Orthogonal": 1, "Parallel": 1}.get(c["name"], 0)
    want = want * scale ** homogeneous
    info = {**case, "scale": scale, "shift": shift, "params": params}
    prims_at = arguments(c, len(case["pts"]))

    def f(v):
        return jnp.ravel(con(prims_at(v), *params))

    def geometry(v):
        # derivatives by primitives, as the package makes trees that jax knows
        return jax.jacfwd(lambda prims: jnp.ravel(con(prims, *params)))(prims_at(v))
    eager = core.observe(lambda: np.asarray(f(x)))
    if not run("eager", eager[0] == "ok", info, "a value", eager):
        return out
    for way, g in (("jit", lambda: jax.jit(f)(x)),
                   ("jit-prims", lambda: jax.jit(lambda ps: con(ps, *params))(prims_at(x))),
                   ("jit-params", lambda: jitted_params(con, prims_at(x), params))):
        if way == "jit" and rng.random() < 0.5:
            continue
        got = core.observe(lambda: np.ravel(np.asarray(g())))
        run(f"{way}", got[0] == "ok" and got[1].shape == eager[1].shape
            and np.allclose(got[1], eager[1], rtol=1e-12, atol=1e-12), info, eager[1], got)
    way = rng.choice(["fwd", "rev", "jit-fwd", "fwd-jit", "prims"])
    if way == "prims":
        got = core.observe(lambda: by_points(c, geometry(x), len(case["pts"]), want.shape[0]))
    else:
        d = {"fwd": lambda: jax.jacfwd(f), "rev": lambda: jax.jacrev(f),
             "jit-fwd": lambda: jax.jit(jax.jacfwd(f)), "fwd-jit": lambda: jax.jacfwd(jax.jit(f))}[way]
        got = core.observe(lambda: np.asarray(d()(x)))
    info["way"] = way
    if not run("derivative:taken", got[0] == "ok" and got[1].shape == want.shape, info, want, got):
        return out
    run("derivative:finite", np.all(np.isfinite(got[1])), info, want, got[1])
    tol = 1e-9 * max(1.0, np.abs(want).max(initial=0), scale ** homogeneous)
    if c["name"] in UNSIGNED and case["what"] == "constraint":
        ok = multiset(got[1]) == multiset(want)
    else:
        ok = np.all(np.abs(got[1] - want) <= tol)
    run("derivative:exact", ok, info, want, got[1])
    run("derivative:uninvolved", c["name"] in UNSIGNED
        or np.abs(got[1][np.abs(want) == 0]).max(initial=0) <= tol, info, want, got[1])
    return out


def jitted_params(con, prims, params):
    """Compiled for any geometry and any numbers; flags are part of the program"""
    flags = {i: p for i, p in enumerate(params) if isinstance(p, bool) or p is None}
    rest = [p for i, p in enumerate(params) if i not in flags]

    def f(ps, rest):
        it = iter(rest)
        return con(ps, *[flags[i] if i in flags else next(it) for i in range(len(params))])
    return jax.jit(f)(prims, rest)


def by_points(c, tree, num, size):
    """Derivatives by primitives as a matrix; parts that are the same point add up"""
    jac = np.zeros((size, 2 * num))

    def add(i, node):
        jac[:, 2 * i - 2:2 * i] += np.asarray(node.value).reshape(size, 2)
    for s, ids, node in zip(c["sh"], c["ids"], tree):
        if s == "P":
            add(ids[0], node)
        elif s == "L":
            for k in range(2):
                add(ids[k], node[f"Point{k}"])
        else:
            for k in range(4):
                for e in range(2):
                    add(ids[(k + e) % 4], node[f"Line{k}/Point{e}"])
    return jac


# -- recorded evaluations ---------------------------------------------------------------

def record(f, jits, jacs, x, mentioned):
    """Evaluations of f around x, for the trace specification; None when f is not defined"""
    eager = np.asarray(f(x), dtype=float)
    if not np.all(np.isfinite(eager)):
        return None
    vals = [np.ravel(np.asarray(j(), dtype=float)) for j in jits]
    big = max(1e-6, np.abs(eager).max(initial=0))

    def fixed(v, unit):
        return [int(k) for k in np.clip(np.round(np.nan_to_num(v, nan=9e8) / unit), -1e9, 1e9)]
    jac = np.asarray(jacs(), dtype=float).reshape(eager.size, x.size)
    quotients = []
    for h in (2.0**-12, 2.0**-13):
        q = np.zeros((eager.size, x.size))
        for k in range(x.size):
            u, v = x.copy(), x.copy()
            u[k] += h
            v[k] -= h
            q[:, k] = (np.asarray(f(u), dtype=float) - np.asarray(f(v), dtype=float)) / (2 * h)
        quotients.append(q)
    finite = bool(np.all(np.isfinite(jac)))
    unit = max([1e-3, np.abs(quotients[1]).max(initial=0)] + ([np.abs(jac).max(initial=0)] if finite else []))
    unit = 1e-6 * unit
    cols = [{"mentioned": k in mentioned, "jac": fixed(jac[:, k], unit), "quo": fixed(quotients[1][:, k], unit),
             "ok": bool(np.all(np.isfinite(quotients[0][:, k])) and np.all(np.isfinite(quotients[1][:, k]))
                        and np.abs(quotients[0][:, k] - quotients[1][:, k]).max(initial=0) <= 30 * unit)}
            for k in range(x.size)]
    return {"eager": fixed(eager, 1e-9 * big), "jit": [fixed(v, 1e-9 * big) for v in vals],
            "finite": finite, "cols": cols}


def design_records(job):
    """Every constraint of a design, and all of them together, at and near the design"""
    case, seed = job
    rng = random.Random(seed)
    nrng = np.random.default_rng(rng.randrange(2**32))
    out = []
    base = np.array(case["pts"], dtype=float)
    start = base if rng.random() < 0.5 else base + nrng.uniform(-.3, .3, base.shape)
    layout = designs.make_layout(case, start)
    graph, values = pr.filter_unique_values_from_prim(layout.root_prim)
    from mpllayout import containers as cn
    flat = cn.flatten("", layout.root_prim)
    sizes = np.cumsum([0] + [v.size for v in values])
    x0 = np.concatenate([np.asarray(v, dtype=float) for v in values])
    where = [None] * len(x0)
    for path, ids in [(p, i) for sh, p, i in designs.all_parts(case["prims"]) if sh == "P"]:
        k = sizes[graph["/" + path]] if "/" + path in graph else sizes[graph[path]]
        where[k], where[k + 1] = 2 * ids[0] - 2, 2 * ids[0] - 1
    cons, paths, params = layout.flat_constraints()

    def root_at(x):
        return pr.build_prim_from_unique_values(
            flat, graph, [x[a:b] for a, b in zip(sizes[:-1], sizes[1:])])

    def add(what, f, jits, jacs, mentioned):
        got = core.observe(record, f, jits, jacs, x0, mentioned)
        out.append((what, got))
    # all together
    everything = {w for m in case["mentions"] for w in m}

    def together(x):
        return jnp.concatenate([jnp.zeros(0)] + [jnp.ravel(r) for r in
                               solver.assem_constraint_residual(root_at(x), cons, paths, params)])
    if case["cons"]:
        add({"constraint": "all"}, together,
            [lambda: jax.jit(together)(x0),
             lambda: np.concatenate([np.ravel(r) for r in jax.jit(
                 lambda root: solver.assem_constraint_residual(root, cons, paths, params))(root_at(x0))])],
            lambda: rng.choice([jax.jacfwd, jax.jacrev])(together)(x0),
            {k for k, w in enumerate(where) if w in everything})
    picks = rng.sample(range(len(case["cons"])), min(len(case["cons"]), 5))
    for n in sorted(set(picks) | {n for n, c in enumerate(case["cons"]) if c["name"] not in CONSTRAINTS}):
        c = case["cons"][n]
        con = designs.make_con(c)
        ps = designs.make_params(c, case["targets"][n])

        def one(x):
            root = root_at(x)
            return jnp.ravel(jnp.concatenate([jnp.zeros(0), jnp.ravel(con(tuple(root[p] for p in c["paths"]), *ps))]))
        prims = tuple(root_at(x0)[p] for p in c["paths"])
        add({"constraint": c["name"], "side": c["side"], "paths": c["paths"], "params": core.jsonable(ps)},
            one, [lambda: jax.jit(one)(x0), lambda: jitted_params(con, prims, ps)],
            lambda: rng.choice([jax.jacfwd, jax.jacrev])(one)(x0),
            {k for k, w in enumerate(where) if w in set(case["mentions"][n])})
    return [({**w, "pts": start.tolist(), "prims": case["prims"]}, g) for w, g in out]


def expression_records(job):
    """Constructions made of others"""
    e, call, seed = job
    rng = random.Random(seed)
    con = algebra.build(e, rng)
    ks = algebra.kinds(e)
    sizes, x0 = [], []

    def values(prim):
        return [prim] if isinstance(prim, pr.Point) else [q for k in prim.keys() for q in values(prim[k])]
    spec = []      # points of every argument
    for k, v in zip(ks, call["prims"]):
        pts = {"P": lambda: [v], "L": lambda: v, "Q": lambda: v}.get(k, lambda: None)()
        if pts is None:
            return []
        spec.append((k, len(x0) // 2, len(pts)))
        x0 += [c + rng.uniform(-.3, .3) for p in pts for c in p]
    x0 = np.array(x0)
    params = [algebra.param(p) for p in call["params"]]

    prims_at = template(lambda points: tuple(geom_at(k, points[i:i + m]) for k, i, m in spec),
                        len(x0) // 2)

    def f(x):
        return jnp.ravel(jnp.asarray(con(prims_at(x), *params), dtype=float))
    if not x0.size:
        return []
    got = core.observe(record, f, [lambda: jax.jit(f)(x0), lambda: jax.jit(lambda p: con(p, *params))(prims_at(x0))],
                       lambda: rng.choice([jax.jacfwd, jax.jacrev])(f)(x0), x0, set(range(x0.size)))
    return [({"e": e, "x": x0.tolist(), "params": call["params"]}, got)]


def geom_at(kind, points):
    if kind == "P":
        return points[0]
    if kind == "L":
        return pr.Line(prims=tuple(points))
    return pr.Quadrilateral(None, points)


def judge_records(check, part, results):
    data, infos = [], []
    for info, got in results:
        if not check.expect("evaluated", got[0] == "ok", info, "values and derivatives", got):
            continue
        if got[1] is None:
            check.count(part, undefined=1)
            continue
        data.append(got[1])
        infos.append(info)
    if not data:
        return
    res = tlc.run("DiffTrace", data=data, workers=8)
    check.tlc(part, res)
    for row in res.rows:
        check.traces += 1
        check.count(part, records=1)
        rec = data[row["n"] - 1]
        for clause in ("compiled", "finite", "derivative", "uninvolved"):
            bad = clause in row["broken"]
            check.expect(f"recorded:{clause}", not bad, infos[row["n"] - 1], "as evaluated", rec if bad else None)


def run(check):
    rng = check.rng
    per = check.pick(8, 100)
    cases = []
    for what, table in (("measure", MEASURES), ("constraint", CONSTRAINTS)):
        for name in table:
            cases += [exact_case(rng, what, name) for _ in range(per)]
    res = tlc.run("Gradient", data=cases, workers=8)
    check.tlc("exact derivatives", res)
    jobs = [(cases[r["n"] - 1], r, rng.randrange(2**32)) for r in res.rows]
    check.count("exact derivatives", cases=len(cases), defined=len(jobs))
    check.sample({"c": jobs[0][0]["c"], "pts": jobs[0][0]["pts"]})
    for out in core.parallel(exact, jobs, chunksize=4):
        check.traces += 1
        for clause, ok, info, expected, observed in out:
            check.expect(clause, ok, info, expected, observed)
    # recorded evaluations
    analysed = designs.analysed(check, "designs", designs.propose(rng, check.pick(30, 300)))
    results = [r for rs in core.parallel(design_records, [(c, rng.randrange(2**32)) for c in analysed])
               for r in rs]
    judge_records(check, "recorded constraints", results)
    calls = []
    while len(calls) < check.pick(40, 500):
        e = algebra.expr(rng, rng.choice([1, 1, 2, 3]), exact=rng.random() < 0.5)
        if len(algebra.kinds(e)) <= 8 and algebra.total(e) <= 30 and algebra.kinds(e):
            call = algebra.call_of(rng, e)
            calls.append((e, call, rng.randrange(2**32)))
    results = [r for rs in core.parallel(expression_records, calls, chunksize=2) for r in rs]
    judge_records(check, "recorded expressions", results)
    check.assumptions += [
        "boolean flags are part of a compiled program, not traced",
        "where residuals are not documented their derivatives are compared with difference quotients",
    ]
