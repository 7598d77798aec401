"""C14 Grid constraints describe exactly the dimensioned grid"""
import itertools

import numpy as np

from . import tlc, geom
from .core import observe
from mpllayout import constraints as cr


def magnitude(v):
    v = np.asarray(v, dtype=float).ravel()
    if v.size == 0:
        return 0.0
    return float(np.max(np.abs(v))) if np.all(np.isfinite(v)) else float("nan")


def check_rows(check, part, rows, grids):
    for n, row in enumerate(rows):
        g = row["grid"]
        shape = tuple(g["shape"])
        scale = check.rng.choice([1.0, 1.0, 0.5, 4.0])
        shift = check.rng.choice(geom.SHIFTS)
        tol = geom.vanishing(scale, shift)
        case = {"grid": g, "scale": scale, "shift": shift}
        if shape not in grids:
            got = observe(lambda: (cr.RectilinearGrid(shape=shape), cr.Grid(shape=shape)))
            if not check.expect("construct", got[0] == "ok", {"shape": shape}, "constraints", got):
                continue
            grids[shape] = got[1]
        rect, grid = grids[shape]
        quads = tuple(geom.quad(geom.transform("Q", q, scale, shift))
                      for r in g["quads"] for q in r)

        def call_grid():
            par = g["par"]
            vec = lambda ps, s: geom.vector([geom.rat(p) * s for p in ps], geom.FORMS[n % 5])
            return grid(quads, vec(par["ws"], 1), vec(par["hs"], 1),
                        vec(par["xs"], scale), vec(par["ys"], scale))

        if n % 3 == 0 or g["move"] != "param":
            got = observe(lambda: magnitude(rect(quads)))
            ok = got[0] == "ok" and (got[1] <= tol if row["rect"] else got[1] > 100 * tol)
            check.expect("rectilinear", ok, case, "zero" if row["rect"] else "non-zero", got)
        if row["verdict"] != "free":
            got = observe(lambda: magnitude(call_grid()))
            zero = row["verdict"] == "zero"
            ok = got[0] == "ok" and (got[1] <= tol if zero else got[1] > 100 * tol)
            check.expect("grid", ok, case, row["verdict"], got)
        check.count(part, grids=1)
        check.traces += 1


def random_grid(rng):
    shape = (rng.randint(1, 4), rng.randint(1, 4))
    if rng.random() < 0.08:     # two-digit numbers of rows and columns
        shape = rng.choice([(1, 12), (12, 1), (2, 11), (11, 2), (1, 21)])
    r, c = shape
    ws = [rng.randint(1, 5) for _ in range(c)]
    hs = [rng.randint(1, 5) for _ in range(r)]
    xs = [rng.randint(-2, 4) for _ in range(c - 1)]
    ys = [rng.randint(-2, 4) for _ in range(r - 1)]
    quads = []
    y = rng.randint(-5, 5)
    for i in range(r):
        x = 0
        quads.append([])
        for j in range(c):
            quads[-1].append(geom.boxq(x, y - hs[i], ws[j], hs[i]))
            x += ws[j] + (xs[j] if j < c - 1 else 0)
        y -= hs[i] + (ys[i] if i < r - 1 else 0)
    par = {"ws": [[w, ws[0]] for w in ws[1:]], "hs": [[h, hs[0]] for h in hs[1:]],
           "xs": [[v, 1] for v in xs], "ys": [[v, 1] for v in ys]}
    kind = rng.random()
    if kind < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            q = quads[rng.randrange(r)][rng.randrange(c)]
            q[rng.randrange(4)][rng.randrange(2)] += rng.choice([-3, -1, 1, 2])
    elif kind < 0.6:
        quads.reverse()
    elif kind < 0.7:
        quads = [row[::-1] for row in quads]
    elif kind < 0.8:
        f = rng.choice(["ws", "hs", "xs", "ys"])
        rng.shuffle(par[f])
    elif kind < 0.9:    # a sheared grid
        quads = [[[[p[0] + 2 * p[1], p[1]] for p in q] for q in row] for row in quads]
    return {"shape": list(shape), "quads": quads, "par": par, "move": "random"}


def run(check):
    grids = {}
    cfg = check.pick("GridCases", "GridCasesLarge")
    res = tlc.run("GridCases", cfg=cfg, constants={"Salt": check.seed % 7}, timeout=1500)
    check.tlc("enumerated", res)
    check.exhaustive.append("every displacement of one coordinate of one vertex, of one quadrilateral,"
                            " row line, column line or parameter, for the enumerated shapes")
    check_rows(check, "enumerated", res.rows, grids)
    check.sample(res.rows[0])
    data = [random_grid(check.rng) for _ in range(check.pick(250, 2500))]
    res = tlc.run("GridCases", constants={"FromData": "TRUE"}, data=data)
    check.tlc("random", res)
    check_rows(check, "random", res.rows, grids)
    check.sample(res.rows[-1])
    # entries of an array are numbered row-major
    if hasattr(cr, "idx_1d"):
        for shape in [(3,), (1, 4), (4, 1), (2, 3), (3, 2), (2, 3, 4), (1, 2, 3), (3, 1, 2, 2)]:
            for n, idx in enumerate(itertools.product(*map(range, shape))):
                got = observe(cr.idx_1d, idx, shape)
                check.expect("row-major", got[0] == "ok" and got[1] == n,
                             {"shape": shape, "index": idx}, n, got)
    check.assumptions.append(
        "where a sheared quadrilateral makes row or column sizes ambiguous no verdict is given")
