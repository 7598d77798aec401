"""
Designs: integer points, primitives drawn through them and constraints that hold,
analysed by spec/Solve.tla; and the real layouts made of them.
"""
import itertools

import numpy as np

from . import geom, tlc
from mpllayout import constraints as cr
from mpllayout import primitives as pr
from mpllayout.layout import Layout

QUADS = ("Frame", "XAxis", "YAxis", "TwinXAxis", "TwinYAxis")
ORDER = ["Frame", "XAxis", "XAxisLabel", "YAxis", "YAxisLabel", "TwinXAxis", "TwinXAxisLabel",
         "TwinYAxis", "TwinYAxisLabel"]
SIDES = ["bottom", "right", "top", "left"]


class Design:
    def __init__(self):
        self.pts = []
        self.prims = []     # {"name", "kind", "ids"}
        self.cons = []
        self.steep = False

    def point(self, p):
        self.pts.append([int(p[0]), int(p[1])])
        return len(self.pts)

    def prim(self, kind, ids, name=None):
        self.prims.append({"name": name or f"{kind.lower()}{len(self.prims)}", "kind": kind,
                           "ids": ids})
        return self.prims[-1]["name"]

    def con(self, name, args, side="", params=(), **extra):
        """args: [(shape, path, ids)]"""
        self.cons.append({
            "name": name, "side": side, "sh": [a[0] for a in args],
            "paths": [a[1] for a in args], "ids": [a[2] for a in args],
            "params": list(params), "shape": [0, 0], "axis": "", "twin": False, **extra})


def parts(kind, ids, path):
    """(shape, path, ids) of everything in a primitive"""
    out = [(kind, path, ids)]
    if kind == "L":
        out += [("P", f"{path}/Point{i}", [ids[i]]) for i in range(2)]
    elif kind in "QG":
        n = len(ids)
        for i in range(n):
            out += parts("L", [ids[i], ids[(i + 1) % n]], f"{path}/Line{i}")
    elif kind == "A":
        for name in ORDER:
            if name in ids:
                out += parts("Q" if name in QUADS else "P", ids[name], f"{path}/{name}")
    return out


def all_parts(prims):
    return list(itertools.chain(*(parts(p["kind"], p["ids"], p["name"]) for p in prims)))


def make_prim(kind, ids, points):
    if kind == "P":
        return points[ids[0]]
    if kind == "L":
        return pr.Line(prims=(points[ids[0]], points[ids[1]]))
    if kind == "G":
        return pr.Polygon(prims=[points[i] for i in ids])
    if kind == "Q":
        return pr.Quadrilateral(None, [points[i] for i in ids])
    return pr.Axes(
        prims=tuple(make_prim("Q" if n in QUADS else "P", ids[n], points)
                    for n in ORDER if n in ids),
        xaxis="XAxis" in ids, yaxis="YAxis" in ids, twinx="TwinXAxis" in ids,
        twiny="TwinYAxis" in ids)


def make_con(c):
    name = c["name"]
    if name in ("Grid", "RectilinearGrid"):
        return getattr(cr, name)(shape=tuple(c["shape"]))
    if name == "OuterMarginArray":
        return cr.OuterMarginArray(shape=(len(c["sh"]),), side=c["side"])
    if name == "PositionAxis":
        return cr.PositionAxis(axis=c["axis"], side=c["side"], twin=c["twin"])
    if name == "PositionAxisLabel":
        return cr.PositionAxisLabel(axis=c["axis"], twin=c["twin"])
    return geom.construction("constraint", name, c["side"])


def make_params(c, targets):
    out = [np.array(p, dtype=float) if isinstance(p, list) else p for p in c["params"]]
    for t in targets:
        v = [geom.real(x) for x in t]
        out.append(np.array(v) if c["name"] in ("Fix", "Grid") else v[0])
    if c["name"] in ("XAxisThickness", "YAxisThickness"):
        out.append(None)
    return tuple(out)


def make_layout(case, start, prim_order=None, con_order=None, rename=None, named=(),
                dtypes=None):
    """The real layout of an analysed design, with points at `start`"""
    rename = rename or (lambda s: s)
    points = {i + 1: pr.Point(value=np.array(v, dtype=dtypes[i] if dtypes else float))
              for i, v in enumerate(start)}
    layout = Layout()
    prims = case["prims"]
    for n in prim_order or range(len(prims)):
        p = prims[n]
        layout.add_prim(make_prim(p["kind"], p["ids"], points), rename(p["name"]))
    for n in con_order or range(len(case["cons"])):
        c = case["cons"][n]
        keys = tuple("/".join([rename(x.split("/")[0])] + x.split("/")[1:]) for x in c["paths"])
        layout.add_constraint(make_con(c), keys, make_params(c, case["targets"][n]),
                              **({"key": f"user {n}"} if n in named else {}))
    return layout


# -- generating --------------------------------------------------------------------

def box_ids(d, x, y, w, h):
    return [d.point(p) for p in geom.boxq(x, y, w, h)]


def pick(rng, d, shapes, distinct=True):
    """Random arguments of the given shapes"""
    have = all_parts(d.prims)
    out = []
    for s in shapes:
        options = [p for p in have if p[0] == s]
        if distinct:
            options = [p for p in options if p[2] not in [o[2] for o in out]]
        if not options:
            return None
        out.append(rng.choice(options))
    return out


RELATIONS = {"Coincident", "CoincidentLines", "Vertical", "Horizontal", "Orthogonal", "Parallel",
             "Collinear"}
LINEAR = [("Fix", "P", ""), ("XDistance", "PP", ""), ("YDistance", "PP", ""),
          ("DirectedDistance", "PP", "dir"), ("Coincident", "PP", ""), ("DirectedLength", "L", "dir"),
          ("XLength", "L", ""), ("YLength", "L", ""), ("Vertical", "L", ""), ("Horizontal", "L", ""),
          ("MidpointXDistance", "LL", ""), ("MidpointYDistance", "LL", ""),
          ("CoincidentLines", "LL", "bool")]
NONLINEAR = [("Length", "L", ""), ("RelativeLength", "LL", ""), ("Orthogonal", "LL", ""),
             ("Parallel", "LL", ""), ("Angle", "LL", ""), ("Collinear", "LL", ""),
             ("PointOnLineDistance", "PL", "bool"), ("PointToLineDistance", "PL", "bool"),
             ("RelativePointOnLineDistance", "PL", "bool")]
QLINEAR = [("Box", "Q", ""), ("Width", "Q", ""), ("Height", "Q", ""), ("OuterMargin", "QQ", "side"),
           ("InnerMargin", "QQ", "side"), ("CoincidentOutwardFaces", "QQ", "side")]
QNONLINEAR = [("AspectRatio", "Q", ""), ("AlignRow", "QQ", ""), ("AlignColumn", "QQ", "")]


def offer(rng, d, menu, num, steep=False):
    """
    Random constraints of a menu (they may or may not hold); with `steep`, directions are
    thousands of times longer than the geometry
    """
    for _ in range(num):
        name, shapes, extra = rng.choice(menu)
        args = pick(rng, d, shapes, distinct=name != "Coincident")
        if args is None:
            continue
        side, params = "", []
        if extra == "dir":
            params = [rng.choice([[1, 2], [-1, 1], [3, 0], [0, -2], [2, -3]])]
            if steep:
                d.steep = True
                params = [rng.choice([[4000, 0], [0, -20000], [3000, 7000], [-30000, 1]])]
        elif extra == "bool":
            params = [rng.random() < 0.5]
        elif extra == "side":
            side = rng.choice(SIDES)
        d.con(name, args, side, params)


def add_lines(rng, d, ids, num):
    for _ in range(num):
        a, b = rng.sample(ids, 2)
        if d.pts[a - 1] != d.pts[b - 1]:
            d.prim("L", [a, b])


def points_design(rng, linear):
    d = Design()
    m = rng.choice([2, 8]) if linear else rng.choice([2, 3, 4])
    ids = [d.point((rng.randint(-m, m), rng.randint(-m, m))) for _ in range(rng.randint(3, 6))]
    if rng.random() < 0.3:      # two different points at the same place
        ids.append(d.point(d.pts[ids[0] - 1]))
    for i in ids:
        if rng.random() < 0.6:
            d.prim("P", [i])
    add_lines(rng, d, ids, rng.randint(2, 5))
    if rng.random() < 0.4:
        d.prim("G", rng.sample(ids, 3))
    if not d.prims or rng.random() < 0.2:
        d.prim("P", [d.point((3, -2))])
    used = {i for p in all_parts(d.prims) if p[0] == "P" for i in p[2]}
    for i in ids:
        if i not in used:
            d.prim("P", [i])
    offer(rng, d, [LINEAR[0]], 1 if linear else 2)
    steep = linear and rng.random() < 0.3
    offer(rng, d, LINEAR, rng.randint(3, 12))
    if steep:
        offer(rng, d, [k for k in LINEAR if k[2] == "dir"], 3, steep=True)
    offer(rng, d, [k for k in LINEAR if k[0] in RELATIONS], 15)
    if not linear:
        offer(rng, d, NONLINEAR, rng.randint(4, 14))
        offer(rng, d, [k for k in NONLINEAR if k[0] in RELATIONS], 12)
    return d


def tiny_design(rng, linear):
    """One or two points"""
    d = Design()
    ids = [d.point((rng.randint(-9, 9), rng.randint(-9, 9))) for _ in range(rng.choice([1, 1, 2]))]
    for i in ids:
        d.prim("P", [i])
    for _ in range(rng.choice([0, 0, 1])):
        d.prim("P", [rng.choice(ids)])
    if len(ids) == 2 and d.pts[0] != d.pts[1] and rng.random() < 0.5:
        d.prim("L", ids)
    offer(rng, d, [LINEAR[0]], 1)
    if len(ids) == 2:
        offer(rng, d, LINEAR, rng.randint(0, 2))
    return d


def boxes_design(rng, linear):
    d = Design()
    x, y, w, h = rng.randint(-4, 4), rng.randint(-4, 4), rng.randint(6, 9), rng.randint(6, 9)
    first = box_ids(d, x, y, w, h)
    d.prim("Q", first)
    if rng.random() < 0.4:      # shares its left side with the right one of the first
        a, b = d.point((x + w + 2, y)), d.point((x + w + 2, y + h))
        d.prim("Q", [first[1], a, b, first[2]])
    for _ in range(rng.randint(1, 2)):
        if rng.random() < 0.4:
            x += w + rng.choice([0, 2])
            d.prim("Q", box_ids(d, x, y, 3, h))
            w = 3
        else:
            d.prim("Q", box_ids(d, x + 1, y + rng.randint(1, 2), rng.randint(2, 4),
                                rng.randint(2, 4)))
    if rng.random() < 0.3:
        d.prim("P", [rng.choice(first)])
    offer(rng, d, [LINEAR[0]], 1)
    quads = [p for p in all_parts(d.prims) if p[0] == "Q"]
    for q in quads:
        if rng.random() < 0.9:
            d.con("Box", [q])
        if rng.random() < 0.5:
            d.con("Width", [q])
            if not linear and rng.random() < 0.5:
                d.con("AspectRatio", [q])
            else:
                d.con("Height", [q])
    if rng.random() < 0.3 and len(quads) > 1:
        d.con("OuterMarginArray", quads, rng.choice(SIDES))
    offer(rng, d, QLINEAR[3:], rng.randint(2, 7))
    if not linear:
        offer(rng, d, QNONLINEAR[1:], rng.randint(2, 5))
    return d


def outside(q, s, t):
    x, y = q[0]
    w, h = q[1][0] - x, q[3][1] - y
    return {"bottom": geom.boxq(x, y - t, w, t), "top": geom.boxq(x, y + h, w, t),
            "left": geom.boxq(x - t, y, t, h), "right": geom.boxq(x + w, y, t, h)}[s]


OPP = {"bottom": "top", "top": "bottom", "left": "right", "right": "left"}


def axes_design(rng, linear):
    d = Design()
    frame = geom.boxq(rng.randint(-3, 3), rng.randint(-3, 3), rng.randint(3, 8), rng.randint(3, 8))
    ids = {"Frame": [d.point(p) for p in frame]}
    xs, ys = rng.choice(["bottom", "top"]), rng.choice(["left", "right"])
    tx, ty = rng.choice([(0, 0), (1, 2), (2, 1), (0, 1)])
    has = {"X": rng.random() < 0.8, "Y": rng.random() < 0.8}
    twin = {k: has[k] and rng.random() < 0.4 for k in has}
    for k, s, t in (("X", xs, tx), ("Y", ys, ty)):
        for on, pre, side in ((has[k], "", s), (twin[k], "Twin", OPP[s])):
            if on:
                q = outside(frame, side, t if not pre else 2)
                ids[f"{pre}{k}Axis"] = [d.point(p) for p in q]
                lab = (rng.choice([frame[0][0], frame[1][0], frame[0][0] + 1]), q[0][1] - 1) \
                    if k == "X" else (q[0][0] - 1, rng.choice([frame[0][1], frame[3][1] - 1]))
                ids[f"{pre}{k}AxisLabel"] = [d.point(lab)]
    name = d.prim("A", ids, "Axes")
    whole = ("A", name, ids)
    if rng.random() < 0.9:
        fig = geom.boxq(frame[0][0] - 4, frame[0][1] - 5, 16, 18)
        d.prim("Q", [d.point(p) for p in fig], "Figure")
        have = {p[1]: p for p in all_parts(d.prims)}
        d.con("Fix", [have["Figure/Line0/Point0"]])
        for n in ("Box", "Width", "Height"):
            d.con(n, [have["Figure"]])
        d.con("Box", [have["Axes/Frame"]])
        for s in SIDES:
            d.con("InnerMargin", [have["Axes/Frame"], have["Figure"]], s)
    have = {p[1]: p for p in all_parts(d.prims)}
    for k, s, t in (("X", xs, tx), ("Y", ys, ty)):
        if not has[k]:
            continue
        ax = k.lower()
        d.con("PositionAxis", [whole], s, axis=ax, twin=twin[k])
        for pre in ("", "Twin"):
            q = have.get(f"Axes/{pre}{k}Axis")
            if q is None:
                continue
            if pre == "" and t == 0:
                d.con(f"{k}AxisThickness", [q])
            elif rng.random() < 0.7:
                d.con("Height" if k == "X" else "Width", [q])
            if rng.random() < 0.4:
                d.con("Box", [q])
            if rng.random() < 0.7:
                p = have[f"Axes/{pre}{k}AxisLabel"]
                if linear:
                    d.con("XDistance" if k == "X" else "YDistance",
                          [have["Axes/Frame/Line0/Point0"], p])
                else:
                    d.con("PositionAxisLabel", [whole], axis=ax, twin=pre != "")
                if q is not None and rng.random() < 0.7:
                    d.con("YDistance" if k == "X" else "XDistance",
                          [have[f"{q[1]}/Line0/Point0"], p])
    return d


def grid_design(rng, linear):
    d = Design()
    r, c = rng.choice([(1, 2), (2, 1), (2, 2), (2, 3), (1, 3), (3, 1)])
    ws, hs = [rng.randint(2, 4) for _ in range(c)], [rng.randint(2, 4) for _ in range(r)]
    quads = []
    y = rng.randint(0, 3)
    for i in range(r):
        x = rng.randint(-3, 0) if i == 0 else quads[0][0][0]
        for j in range(c):
            quads.append(geom.boxq(x, y - hs[i], ws[j], hs[i]))
            x += ws[j] + 1 + j
        y -= hs[i] + 1
        if i == 0:
            quads = [list(q) for q in quads]
            x0 = quads[0][0][0]
            quads = [geom.boxq(q[0][0], q[0][1], q[1][0] - q[0][0], q[3][1] - q[0][1])
                     for q in quads]
            quads[0][0][0] = x0
    for q in quads:
        d.prim("Q", [d.point(p) for p in q])
    args = [p for p in all_parts(d.prims) if p[0] == "Q"]
    d.con("Fix", [[p for p in all_parts(d.prims) if p[0] == "P"][0]])
    for a in args:
        d.con("Box", [a])
    d.con("Width", [rng.choice(args)])
    d.con("Height", [rng.choice(args)])
    d.con(rng.choice(["Grid", "Grid", "RectilinearGrid"]), args, shape=[r, c])
    return d


def propose(rng, num):
    """Random designs with the offered constraints that hold"""
    out = []
    for n in range(num):
        linear = rng.random() < 0.5
        make = rng.choice([points_design, points_design, boxes_design, axes_design,
                           axes_design, grid_design])
        if make is grid_design:
            linear = False
        if rng.random() < 0.08:
            make, linear = tiny_design, True
        out.append(make(rng, linear))
    return out


def record(d):
    return {"pts": d.pts, "cons": d.cons}


def analysed(check, part, designs):
    """Keep the constraints that hold, and what they imply; by the specification"""
    res = tlc.run("Solve", data=[record(d) for d in designs], workers=8)
    check.tlc(part, res)
    for row in res.rows:
        d = designs[row["n"] - 1]
        d.cons = [c for c, ok in zip(d.cons, row["holds"]) if ok]
    res = tlc.run("Solve", constants={"Pass": 2}, data=[record(d) for d in designs], workers=8)
    check.tlc(part, res)
    cases = [None] * len(designs)
    for row in res.rows:
        d = designs[row["n"] - 1]
        width = 2 * len(d.pts)
        mat = np.zeros((len(row["rows"]), width))
        for i, r in enumerate(row["rows"]):
            for col, v in r:
                mat[i, col - 1] = v
        norms = np.linalg.norm(mat, axis=1)
        mat = mat[norms > 0] / norms[norms > 0, None]
        sv, vt = (np.linalg.svd(mat)[1:] if mat.size else (np.zeros(0), np.eye(width)))
        rank = row["rank"]
        # coordinates without a part in the null space
        free = np.abs(vt[rank:]).max(axis=0, initial=0)
        fixed = [c + 1 for c in range(width) if free[c] < 1e-7]
        cases[row["n"] - 1] = {
            "pts": d.pts, "prims": d.prims, "cons": d.cons, "steep": d.steep, "targets": row["targets"],
            "rows": mat.tolist(), "linear": row["linear"], "rank": rank,
            "determined": sorted(c - 1 for c in row["determined"]),
            "mentions": [sorted(c - 1 for c in m) for m in row["mentions"]],
            "involved": sorted(c - 1 for c in row["involved"]),
            # how far the determined coordinates are from being undetermined
            "sigma": float(sv[rank - 1]) if rank else 1.0,
            "agree": bool(rank == int(np.sum(sv > 1e-9)) and fixed == sorted(row["determined"])),
        }
    return cases
