"""Random families of figure geometry, and the real trees made of them"""
import numpy as np

from . import geom
from mpllayout import primitives as pr

ORDER = ["Frame", "XAxis", "XAxisLabel", "YAxis", "YAxisLabel", "TwinXAxis", "TwinXAxisLabel",
         "TwinYAxis", "TwinYAxisLabel"]
QUADS = {"Frame", "XAxis", "YAxis", "TwinXAxis", "TwinYAxis"}


def parts_of(flags):
    out = ["Frame"]
    for ax in "xy":
        if flags[ax + "axis"]:
            out += [f"{ax.upper()}Axis", f"{ax.upper()}AxisLabel"]
    for ax in "xy":
        if flags["twin" + ax]:
            out += [f"Twin{ax.upper()}Axis", f"Twin{ax.upper()}AxisLabel"]
    return out


def random_flags(rng):
    flags = {"xaxis": rng.random() < 0.8, "yaxis": rng.random() < 0.8}
    for ax in "xy":
        flags["twin" + ax] = flags[ax + "axis"] and rng.random() < 0.25
    return flags


def beside(f, side, t):
    (x, y), (x2, y2) = f[0], f[2]
    w, h = x2 - x, y2 - y
    return {"bottom": geom.boxq(x, y - t, w, t), "top": geom.boxq(x, y2, w, t),
            "left": geom.boxq(x - t, y, t, h), "right": geom.boxq(x2, y, t, h)}[side]


def touching(f, t):
    """Whether a rectangle has a face in common with a frame, from outside"""
    faces = [(0, 1, 3, 2), (3, 2, 0, 1), (0, 3, 1, 2), (1, 2, 0, 3)]
    return any(f[i] == t[k] and f[j] == t[m] for i, j, k, m in faces)


def random_axes(rng, flags, fig):
    x0, y0 = fig[0]
    w0, h0 = fig[2][0] - x0, fig[2][1] - y0
    # mostly inside of the figure
    w, h = rng.randint(2, max(3, w0)), rng.randint(2, max(3, h0))
    f = geom.boxq(x0 + rng.randint(-2, max(1, w0 - w)), y0 + rng.randint(-2, max(1, h0 - h)), w, h)
    a = {"Frame": f}
    for ax, sides in (("x", ["bottom", "top"]), ("y", ["left", "right"])):
        side = rng.choice(sides)
        for pre in ("", "Twin"):
            if not flags[("twin" if pre else "") + ax + ("" if pre else "axis")]:
                continue
            s = side if not pre else [t for t in sides if t != side][0]
            q = beside(f, s, rng.choice([0, 0, 1, 2, 5]))
            if rng.random() < 0.12:       # attached to no side
                gap = rng.choice([(1, 0), (0, 2), (3, -4), (-1, -1)])
                t = geom.boxq(*q[0], q[2][0] - q[0][0], rng.randint(1, 4)) if ax == "x" else \
                    geom.boxq(*q[0], rng.randint(1, 4), q[2][1] - q[0][1])
                t = [[p[0] + gap[0] * 2, p[1] + gap[1] * 2] for p in t]
                # not by accident on a side where it cannot have ticks
                if not touching(f, t):
                    q = t
            a[f"{pre}{ax.upper()}Axis"] = q
            a[f"{pre}{ax.upper()}AxisLabel"] = [x0 + rng.randint(-2, w0 + 2),
                                                y0 + rng.randint(-2, h0 + 2)]
    return a


def disturbed(rng, g):
    """
    A finer geometry with every coordinate moved a little: equal ones stay equal and the
    order stays, so that boxes and their contacts do
    """
    table = {}

    def move(p):
        return [table.setdefault((i, v), 500 * v + rng.choice([-1, 0, 0, 1, 2]))
                for i, v in enumerate(p)]

    def all_of(v):
        return move(v) if isinstance(v[0], int) else [move(p) for p in v]
    out = {"fig": all_of(g["fig"]),
           "axes": {k: {n: all_of(v) for n, v in a.items()} for k, a in g["axes"].items()}}
    for a in out["axes"].values():
        for n in ("XAxis", "YAxis"):
            if n in a and rng.random() < 0.2:       # not quite attached
                d = rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (2, -1)])
                t = [[p[0] + d[0], p[1] + d[1]] for p in a[n]]
                if not touching(a["Frame"], t):
                    a[n] = t
    return out


def random_family(rng, num):
    nested = rng.random() < 0.25
    names = rng.sample(["Axes", "Axes2", "MyAxesB", "Inset", "Left", "axes", "2Axes 3"],
                       rng.randint(1, 3))
    keys = [f"Sub/{n}" for n in names] if nested else names
    flags = [random_flags(rng) for _ in keys]
    geoms = []
    for _ in range(num):
        fig = geom.boxq(rng.randint(-20, 20), rng.randint(-20, 20), rng.randint(3, 14),
                        rng.randint(3, 14))
        if rng.random() < 0.15:
            fig = geom.boxq(0, 0, 8, 6)
        geoms.append({"fig": fig,
                      "axes": {k: random_axes(rng, f, fig) for k, f in zip(keys, flags)}})
    unit = rng.choice([1.0, 0.5, 0.25, 0.37, 2.54])
    if rng.random() < 0.4:
        # geometries that differ a little from each other
        unit /= 500
        geoms = [disturbed(rng, rng.choice(geoms[:1] + geoms)) for _ in geoms]
    requests = [list(keys), [rng.choice(keys)], rng.sample(keys, len(keys))]
    if rng.random() < 0.3:
        requests.append([])
    if len(keys) > 2:
        requests.append(rng.sample(keys, 2))
    requests = [r for i, r in enumerate(requests) if r not in requests[:i]]
    fig_key = rng.choice(["Figure", "Figure", "Page", "Sub/Figure" if nested else "fig"])
    return {"geoms": geoms, "requests": requests, "keys": [] if nested else names,
            "flags": flags, "axes": keys, "nested": nested, "fig_key": fig_key,
            "unit": unit, "shift": rng.choice([(0, 0), (0, 0), (1000, -3000)])}


def tree(rng, family, g, jitter=False):
    """The real primitive tree of a geometry"""
    move = lambda p: [(p[0] + family["shift"][0]) * family["unit"],
                      (p[1] + family["shift"][1]) * family["unit"]]

    def prim(name, v, noise=0.0):
        if name not in QUADS:
            return pr.Point(value=np.array(move(v)))
        return pr.Quadrilateral(None, [
            pr.Point(value=np.array(move(p)) + noise * np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)]))
            for p in v])
    root = pr.PrimitiveNode.from_tree(np.array([]), {})
    if family["nested"]:
        root.add_child("Sub", pr.PrimitiveNode.from_tree(np.array([]), {}))
    items = [(family["fig_key"], lambda: prim("Frame", g["fig"]))]
    for k, flags in zip(family["axes"], family["flags"]):
        items.append((k, lambda k=k, flags=flags: pr.Axes(
            prims=tuple(prim(n, g["axes"][k][n], 1e-12 if jitter and n != "Frame" else 0.0)
                        for n in ORDER if n in g["axes"][k]), **flags)))
    if rng.random() < 0.4:
        items.append(("Other", lambda: prim("P", [1, 2])))
    if not family["keys"]:
        rng.shuffle(items)      # otherwise the order of the axes matters
    for k, make in items:
        root.add_child(k, make())
    return root
