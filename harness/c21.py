"""C21 Layout drawings show every primitive at its coordinates"""
import itertools
import json
import math
import os
import random
from collections import Counter

import numpy as np
from matplotlib import pyplot as plt

from . import core, tlc
from mpllayout import primitives as pr
from mpllayout import ui

AXES = ("XAxis", "XAxisLabel", "YAxis", "YAxisLabel")
TWINS = ("TwinXAxis", "TwinXAxisLabel", "TwinYAxis", "TwinYAxisLabel")


# -- random geometry, as the specification sees it --------------------------------------

def pts(rng, n):
    out = [[rng.randint(-6, 6), rng.randint(-6, 6)] for _ in range(n)]
    for i in range(1, n):
        if rng.random() < 0.12:
            out[i] = list(rng.choice(out[:i]))
        elif rng.random() < 0.3:
            out[i][rng.randrange(2)] = out[i - 1][rng.randrange(2)]
    return out


def tree(rng, depth):
    kind = rng.choice("PLGQAN" if depth else "PLGQ")
    if kind in "PL":
        return {"k": kind, "pts": pts(rng, "PL".index(kind) + 1), "sub": []}
    if kind in "GQ":
        return {"k": "G", "quad": kind == "Q", "pts": pts(rng, 4 if kind == "Q" else rng.choice([2, 3, 4, 5, 6, rng.randint(7, 14)])),
                "sub": []}
    if kind == "A":
        flags = [rng.random() < 0.6, rng.random() < 0.6]
        flags += [flags[0] and rng.random() < 0.4, flags[1] and rng.random() < 0.4]
        names = ["Frame"] + [n for f, group in zip(flags, (AXES[:2], AXES[2:], TWINS[:2], TWINS[2:]))
                             for n in group if f]
        return {"k": "N", "flags": flags, "pts": [],
                "sub": [{"name": n, "t": {"k": "P", "pts": pts(rng, 1), "sub": []} if n.endswith("Label")
                         else {"k": "G", "quad": True, "pts": pts(rng, 4), "sub": []}} for n in names]}
    names = rng.sample(["A", "B2", "left", "Line0", "x y", "Point0", "Frame", "."], rng.randint(0, 3))
    return {"k": "N", "pts": [], "sub": [{"name": n, "t": tree(rng, depth - 1)} for n in names]}


def random_family(rng, num, depth):
    names = rng.sample(["Figure", "Axes", "p", "a long name", "Line0", "Ωmega", "$x$", "N" * 80,
                        " ", "_hidden", "0"], num)
    roots = [{"name": n, "t": tree(rng, depth)} for n in names]
    if num > 1 and rng.random() < 0.2:      # the same primitive twice
        roots[-1]["t"] = roots[0]["t"]
    return {"roots": roots}


def direction_families():
    """Lines in all directions on a grid, and no direction at all"""
    lines = [[[0, 0], [dx, dy]] for dx, dy in itertools.product(range(-4, 5), repeat=2)]
    return [{"roots": [{"name": "line", "t": {"k": "L", "pts": p, "sub": []}}]} for p in lines]


# -- the real geometry ------------------------------------------------------------------

def build(t, place, memo=None):
    """The real primitive; equal ones are the same object if there is a memo"""
    if memo is not None:
        key = json.dumps(t)
        if key not in memo:
            memo[key] = make(t, place, memo)
        return memo[key]
    return make(t, place, None)


def make(t, place, memo):
    def point(p):
        if memo is None:
            return pr.Point(value=place(p))
        return memo.setdefault(tuple(p), pr.Point(value=place(p)))
    if t["k"] == "P":
        return point(t["pts"][0])
    if t["k"] == "L":
        return pr.Line(prims=tuple(point(p) for p in t["pts"]))
    if t["k"] == "G":
        points = [point(p) for p in t["pts"]]
        return pr.Quadrilateral(None, points) if t["quad"] else pr.Polygon(None, points)
    if "flags" in t:
        x, y, tx, ty = t["flags"]
        return pr.Axes(prims=tuple(build(s["t"], place, memo) for s in t["sub"]),
                       xaxis=x, yaxis=y, twinx=tx, twiny=ty)
    return pr.PrimitiveNode.from_tree(np.array([]), {s["name"]: build(s["t"], place, memo) for s in t["sub"]})


def values(prim):
    return [(type(prim).__name__, np.array(prim.value, dtype=float).tolist())] \
        + [(k, v) for k in prim.keys() for v in values(prim[k])]


# -- what is in the axes ----------------------------------------------------------------

def ring(points):
    points = [tuple(map(float, p)) for p in points]
    while len(points) > 1 and points[-1] == points[0]:
        points.pop()
    return min(tuple(r[i:] + r[:i]) for r in (points, points[::-1]) for i in range(len(points)))


def seen(ax):
    """What can be seen in axes: shapes, as a multiset, labels, and anything else"""
    shapes, labels, odd = Counter(), [], []

    def visible(a):
        return a.get_visible() and (a.get_alpha() is None or a.get_alpha() > 0)
    for a in ax.lines:
        xy = [tuple(map(float, p)) for p in np.asarray(a.get_xydata())]
        marked = a.get_marker() not in (None, "", " ", "None", "none")
        if not visible(a):
            odd.append("unseen line")
        elif len(xy) == 1 and marked:
            shapes["marker", tuple(xy)] += 1
        elif len(xy) == 2 and not marked and a.get_linestyle() not in ("", " ", "None", "none"):
            shapes["segment", tuple(sorted(xy))] += 1
        else:
            odd.append(("line", xy))
    for a in ax.collections:
        off = [tuple(map(float, p)) for p in np.asarray(a.get_offsets())]
        for p in off:
            shapes["marker", (p,)] += 1
    for a in ax.patches:
        if not visible(a) or not getattr(a, "get_closed", lambda: True)():
            odd.append("unseen or open outline")
        shapes["outline", ring(a.get_xy())] += 1
    for a in ax.texts:
        text = a.get_text()
        if text:
            if not visible(a):
                odd.append("unseen label")
            at = a.xy if hasattr(a, "xy") else a.get_position()
            labels.append((text, tuple(map(float, at)), float(a.get_rotation())))
    return shapes, labels, odd


def same_label(want, got, place, scale):
    text, at, rotation = got
    if want["text"] != text:
        return False
    (x, y), (dx, dy) = want["place"], want["dir"]
    middle = place([x / 2, y / 2])
    if math.dist(middle, at) > 1e-6 * scale:
        return False
    if (dx, dy) == (0, 0):
        return True
    c, s = math.cos(math.radians(rotation)), math.sin(math.radians(rotation))
    return abs(c * dy - s * dx) <= 1e-4 * math.hypot(dx, dy) and c * dx + s * dy > 0


def match(wants, gots, place, scale):
    """Are the labels those wanted?  Those that need not be there come last"""
    gots = list(gots)
    for want in sorted(wants, key=lambda w: not w["must"]):
        found = [g for g in gots if same_label(want, g, place, scale)]
        if found:
            gots.remove(found[0])
        elif want["must"]:
            return False
    return not gots


def replay(job):
    family, row, seed = job
    rng = random.Random(seed)
    out = []

    def run(clause, ok, case, expected=None, observed=None):
        out.append((clause, bool(ok), core.jsonable(case), core.jsonable(expected),
                    core.jsonable(observed)))
        return ok
    scale = rng.choice([1.0, 0.5, 0.1, 0.37, 2.54, 1e-4])
    shift = (rng.choice([0.0, 0.3, -1.25]), rng.choice([0.0, 7.1]))

    def place(p):
        return np.array([shift[0] + scale * p[0], shift[1] + scale * p[1]])
    memo = {} if rng.random() < 0.5 else None
    prims = {r["name"]: build(r["t"], place, memo) for r in family["roots"]}
    before = {k: values(p) for k, p in prims.items()}
    calls = row["calls"]
    names = [r["name"] for r in family["roots"]]
    free = [c["depth"] == 99 for c in calls]
    case = {"roots": family["roots"], "calls": calls, "scale": scale, "shift": shift}
    everything = [c["root"] for c in calls] == list(range(1, len(names) + 1)) and all(free)
    fig = None
    if everything and rng.random() < 0.8:
        # all roots in turn
        root = pr.PrimitiveNode.from_tree(np.array([]), prims)
        if rng.random() < 0.5:
            case["by"] = "figure_prims"
            size = (rng.choice([2, 5.5]), rng.choice([3, 4]))
            major, minor = rng.choice([(1.0, 0.25), (2.0, 0.5)])
            default = rng.random() < 0.3
            got = core.observe(ui.figure_prims, root) if default else core.observe(
                ui.figure_prims, root, fig_size=size, major_tick_interval=major,
                minor_tick_interval=minor)
            if default:
                size, major, minor = (8, 8), 1.0, 0.125
            if not run("draws", got[0] == "ok", case, "a figure", got):
                return out
            fig, ax = got[1]
            if rng.random() < 0.3:
                # a later figure is another one
                other = core.observe(ui.figure_prims, pr.Line(), fig_size=(3, 2))
                run("another-figure", other[0] == "ok" and other[1][0] is not fig
                    and other[1][1] is not ax, case, "a new figure", other)
            figure_clauses(run, case, fig, ax, size, major, minor, row, place)
        else:
            case["by"] = "plot_prims"
            fig, ax = plt.subplots()
            if not run("draws", (got := core.observe(ui.plot_prims, ax, root))[0] == "ok", case, None, got):
                return out
    else:
        case["by"] = "plot_prim"
        fig, ax = plt.subplots()
        for c in calls:
            kwargs = {} if c["depth"] == 99 and rng.random() < 0.5 else {"max_label_depth": c["depth"]}
            kwargs.update(rng.choice([{}, {"color": "red"}]))
            name = names[c["root"] - 1]
            got = core.observe(ui.plot_prim, ax, prims[name], prim_key=name, **kwargs)
            if not run("draws", got[0] == "ok", {**case, "at": name}, None, got):
                return out
    judge(run, case, ax, row["artists"], place, scale)
    run("geometry-unchanged", {k: values(p) for k, p in prims.items()} == before, case)
    got = core.observe(fig.draw_without_rendering)
    if not any("$" in n for n in names):
        run("can-be-rendered", got[0] == "ok", case, None, got)
    plt.close(fig)
    return out


def judge(run, case, ax, artists, place, scale):
    shapes, labels, odd = seen(ax)
    want = Counter()
    for a in artists:
        if a["a"] == "label":
            continue
        at = [tuple(map(float, place(p))) for p in a["pts"]]
        want[a["a"], {"marker": tuple, "segment": lambda p: tuple(sorted(p)), "outline": ring}[a["a"]](at)] += 1
    for kind in ("marker", "segment", "outline"):
        mine = {k: n for k, n in want.items() if k[0] == kind}
        real = {k: n for k, n in shapes.items() if k[0] == kind}
        run(kind, mine == real, case, [f"missing {k}" for k in mine if mine[k] != real.get(k)],
            [f"extra {k}" for k in real if real[k] != mine.get(k)])
    run("nothing-else", not odd, case, [], odd)
    wants = [a for a in artists if a["a"] == "label"]
    run("label", match(wants, labels, place, scale), case,
        [(w["text"], w["place"], w["dir"]) for w in wants], labels)


def figure_clauses(run, case, fig, ax, size, major, minor, row, place):
    """A figure of its own: of the size asked for, undistorted, with the ticks asked for"""
    run("figure-size", np.allclose(fig.get_size_inches(), size), case, size, fig.get_size_inches())
    run("undistorted", ax.get_aspect() in (1, 1.0, "equal"), case, 1, ax.get_aspect())
    for n, axis in enumerate((ax.xaxis, ax.yaxis)):
        low, high = sorted(axis.get_view_interval())
        at = [float(place(p)[n]) for a in row["artists"] if a["a"] in ("marker", "segment")
              for p in a["pts"]]
        if at:
            run("in-view", low <= min(at) and max(at) <= high, case, [low, high], [min(at), max(at)])
        for step, ticks in ((major, axis.get_majorticklocs()), (minor, axis.get_minorticklocs())):
            ticks = [t for t in ticks if low <= t <= high]
            want = [k * step for k in range(math.ceil(low / step - 1e-6), math.floor(high / step + 1e-6) + 1)]
            if step == minor:     # a minor tick on a major one is left out
                want = [w for w in want if abs(w / major - round(w / major)) > 1e-6]
                ticks = [t for t in ticks if abs(t / major - round(t / major)) > 1e-6]
            run("ticks", len(ticks) == len(want) and np.allclose(sorted(ticks), want), case, want, ticks)


def one_of_each(job):
    """The functions that draw one primitive"""
    seed, = job
    rng = random.Random(seed)
    out = []

    def run(clause, ok, case, expected=None, observed=None):
        out.append((clause, bool(ok), core.jsonable(case), core.jsonable(expected),
                    core.jsonable(observed)))
        return ok
    t = tree(rng, 0)
    prim = build(t, np.array)
    fig, ax = plt.subplots()
    label = rng.choice([None, "name"])
    kwargs = rng.choice([{}, {"alpha": 0.5}, {"color": "C1", "alpha": 1.0}])
    plot = {"P": ui.plot_point, "L": ui.plot_line, "G": ui.plot_polygon}[t["k"]]
    case = {"tree": t, "label": label, "kwargs": kwargs, "by": plot.__name__}
    same = ui.make_plot(prim)
    got = core.observe(rng.choice([plot, same]), ax, prim, label=label, **kwargs)
    if run("draws", got[0] == "ok", case, None, got):
        artists = []
        degenerate = t["k"] == "L" and t["pts"][0] == t["pts"][1]
        if not degenerate:
            artists.append({"a": {"P": "marker", "L": "segment", "G": "outline"}[t["k"]], "pts": t["pts"]})
        if label:
            p, q = t["pts"][0], t["pts"][1 if t["k"] == "L" else 0]
            artists.append({"a": "label", "text": label, "place": [p[0] + q[0], p[1] + q[1]],
                            "dir": [q[0] - p[0], q[1] - p[1]], "must": not degenerate})
        judge(run, case, ax, artists, np.array, 1.0)
    if t["k"] == "L" and t["pts"][0] != t["pts"][1]:
        got = core.observe(ui.rotation_from_line, prim)
        (px, py), (qx, qy) = t["pts"]
        want = math.degrees(math.atan2(qy - py, qx - px))
        run("rotation", got[0] == "ok" and abs((float(got[1]) - want + 180) % 360 - 180) < 1e-3,
            case, want, got)
    plt.close(fig)
    return out


def run(check):
    os.environ["PYTHONWARNINGS"] = "ignore"
    rng = check.rng
    families = direction_families()
    total, replays = check.pick((150, 900), (600, 6000))
    families += [random_family(rng, rng.randint(1, 3), rng.randint(0, 3)) for _ in range(total)]

    def lean(t):
        return {"k": t["k"], "pts": t["pts"],
                "sub": [{"name": s["name"], "t": lean(s["t"])} for s in t["sub"]]}
    res = tlc.run("DrawMachine", workers=8, coverage=True,
                  data=[{"roots": [{"name": r["name"], "t": lean(r["t"])} for r in f["roots"]]}
                        for f in families])
    check.tlc("drawing", res)
    rows = res.rows
    dirs = [r for r in rows if r["fam"] <= 81 and len(r["calls"]) == 1 and r["calls"][0]["depth"] == 99]
    full = [r for r in rows if r["fam"] > 81 and all(c["depth"] == 99 for c in r["calls"])
            and [c["root"] for c in r["calls"]] == list(range(1, len(families[r["fam"] - 1]["roots"]) + 1))]
    rest = [r for r in rows if r["fam"] > 81]
    chosen = dirs + rng.sample(full, min(len(full), replays // 4)) + rng.sample(rest, min(len(rest), replays))
    jobs = [(families[r["fam"] - 1], r, rng.randrange(2**40)) for r in chosen]
    check.count("drawing", families=len(families), emitted=len(rows), replayed=len(jobs))
    check.sample({"roots": jobs[-1][0]["roots"], "calls": jobs[-1][1]["calls"]})
    singles = [(rng.randrange(2**40),) for _ in range(check.pick(300, 3000))]
    check.count("drawing", single=len(singles))
    for out in core.parallel(replay, jobs, chunksize=8) + core.parallel(one_of_each, singles, chunksize=8):
        check.traces += 1
        for clause, ok, info, expected, observed in out:
            check.expect(clause, ok, info, expected, observed)
    check.assumptions += [
        "lines without a direction may have a label or none",
        "rotations of labels are compared within 1e-4 rad",
    ]
