"""C20 Updating a layout from drawn axes changes only axis-thickness parameters"""
import json
import os
import random

import numpy as np
from matplotlib import pyplot as plt

from . import core, drawn, tlc
from .c16 import names_and_kinds
from mpllayout import constraints as cr
from mpllayout import constructions as con
from mpllayout import matplotlibutils as lm
from mpllayout import primitives as pr
from mpllayout import solver
from mpllayout.layout import Layout, update_layout_constraints

SIZES = (7, 19)
MARGIN = 3.0


# -- the real layout of a family --------------------------------------------------------

class BothThicknesses(con.CompoundConstruction):
    """A user's constraint on axes, made of the two axis-thickness ones"""

    @classmethod
    def init_children(cls):
        return (("for x", "y"), (cr.XAxisThickness(), cr.YAxisThickness()),
                (("arg0/XAxis",), ("arg0/YAxis",)), lambda params: ((None,), (None,)))

    @classmethod
    def init_signature(cls):
        return con.ConstructionSignature((pr.Axes,), (), 0)


CHILD = {"X": "for x", "Y": "y"}


def random_family(rng):
    keys = rng.sample(["Axes", "AxesB", "G/Inset", "G/H/Axes", "left axes"], rng.randint(1, 2))
    sides = {k: (rng.choice(["bottom", "top"]), rng.choice(["left", "right"])) for k in keys}
    # which axes rectangles have their thickness from the drawn axis
    thick = [(a, k) for k in keys for a in "XY" if rng.random() < 0.75]
    cons = [{"kind": a, "key": k} for a, k in thick]
    for k in keys:
        if {("X", k), ("Y", k)} <= set(thick) and rng.random() < 0.3:
            cons = [c for c in cons if c["key"] != k] + [{"kind": "XY", "key": k}]
    if cons and rng.random() < 0.2:
        cons.append(dict(rng.choice(cons)))     # said twice
    cons += [{"kind": "other", "key": "", "what": w} for w in others(keys, sides, thick)]
    rng.shuffle(cons)
    return {"keys": keys, "sides": sides, "cons": cons, "thick": thick}


def others(keys, sides, thick):
    """Constraints that determine all the rest"""
    out = [("Fix", ["Figure/Line0/Point0"], [[0.0, 0.0]]), ("Box", ["Figure"], []),
           ("Width", ["Figure"], [9.0]), ("Height", ["Figure"], [8.0])]
    for n, k in enumerate(keys):
        out += [("Box", [f"{k}/{part}"], []) for part in ("Frame", "XAxis", "YAxis")]
        for s, m in (("left", 1.5), ("bottom", 1.0 + n), ("right", MARGIN), ("top", MARGIN - n / 2)):
            out.append((f"InnerMargin:{s}", [f"{k}/Frame", "Figure"], [m]))
        out.append((f"PositionXAxis:{sides[k][0]}", [k], []))
        out.append((f"PositionYAxis:{sides[k][1]}", [k], []))
        if ("X", k) not in thick:
            out.append(("Height", [f"{k}/XAxis"], [0.25]))
        if ("Y", k) not in thick:
            out.append(("Width", [f"{k}/YAxis"], [0.125]))
    return out


def constraint(what):
    name, _, side = what.partition(":")
    return getattr(cr, name)(side=side) if side else getattr(cr, name)()


def thickness(kind, key):
    """Arguments for a new constraint"""
    if kind == "XY":
        return BothThicknesses(), (key,), ()
    cls = {"X": cr.XAxisThickness, "Y": cr.YAxisThickness}[kind]
    return cls(), (f"{key}/{kind}Axis",), (None,)


def make(rng, family):
    def point():
        return pr.Point(value=np.array([rng.uniform(-5, 5), rng.uniform(-5, 5)]))

    def quad():
        x, y, w, h = (rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(1, 3), rng.uniform(1, 3))
        return pr.Quadrilateral(None, [pr.Point(value=np.array(p)) for p in
                                       ((x, y), (x + w, y), (x + w, y + h), (x, y + h))])
    layout = Layout()
    layout.add_prim(quad(), "Figure")
    for k in family["keys"]:
        parent = ""
        for part in k.split("/")[:-1]:
            parent = f"{parent}/{part}".strip("/")
            if parent not in layout.root_prim:
                layout.add_prim(pr.PrimitiveNode.from_tree(np.array([]), {}), parent)
        layout.add_prim(pr.Axes(prims=(quad(), quad(), point(), quad(), point()),
                                xaxis=True, yaxis=True), k)
    for c in family["cons"]:
        if c["kind"] == "other":
            what, keys, params = c["what"]
            layout.add_constraint(constraint(what), tuple(keys),
                                  tuple(np.array(p) if isinstance(p, list) else p for p in params))
        else:
            layout.add_constraint(*thickness(c["kind"], c["key"]))
    return layout


def make_figure(rng, family):
    fig = plt.figure(figsize=(6, 5), dpi=rng.choice([60, 100]))
    axs = {}
    for n, k in enumerate(family["keys"]):
        ax = fig.add_axes((.2, .15 + .4 * n, .5, .3))
        ax.xaxis.set_ticks([0, .3, 1], labels=["0", "Ay" * rng.randint(1, 4), "end"])
        ax.yaxis.set_ticks([.1, .9], labels=["1" * rng.randint(1, 8), "2"])
        ax.xaxis.set_ticks_position(family["sides"][k][0])
        ax.yaxis.set_ticks_position(family["sides"][k][1])
        ax.set_xlabel("x label")
        ax.set_ylabel("y label")
        for a in "xy":
            ax.tick_params(axis=a, labelsize=SIZES[0])
            if rng.random() < 0.12:
                axis_of(ax, a.upper()).set_visible(False)
        axs[k] = ax
    axs["extra"] = fig.add_axes((.8, .8, .1, .1))
    items = list(axs.items())
    rng.shuffle(items)
    return fig, dict(items)


def axis_of(ax, a):
    return ax.xaxis if a == "X" else ax.yaxis


def measure(ax, a):
    """Thickness from matplotlib's extents of the tick labels (see C19)"""
    fig, axis = ax.figure, axis_of(ax, a)
    fig.draw_without_rendering()
    f = drawn.frame(fig, ax)
    boxes = [t["box"] for t in drawn.artists(fig, axis) if t["visible"] and t["kind"] != "label"
             and t["box"][0] < t["box"][2]]
    if not axis.get_visible() or not boxes:
        return 0.0
    return {"bottom": lambda: f[1] - min(b[1] for b in boxes),
            "top": lambda: max(b[3] for b in boxes) - f[3],
            "left": lambda: f[0] - min(b[0] for b in boxes),
            "right": lambda: max(b[2] for b in boxes) - f[2]}[axis.get_ticks_position()]() / 1e6


# -- what can be seen of a layout -------------------------------------------------------

def walk(node, path=""):
    yield path, node
    for k in node.keys():
        yield from walk(node[k], f"{path}/{k}")


def geometry(layout):
    return {p: np.array(n.value, dtype=float).tolist() for p, n in walk(layout.root_prim)}


def references(layout):
    return [(p, n.value) for p, n in walk(layout.root_prim_keys)]


def kinds(layout):
    return [(p, type(n).__name__, n.value.signature.value_size) for p, n in
            walk(layout.root_constraint) if p]


def values(layout):
    """Residual of every constraint, by name"""
    flat = layout.flat_constraints()
    res = solver.assem_constraint_residual(layout.root_prim, *flat)
    out, n = [], 0
    for k in layout.root_constraint.keys():
        num = sum(1 for _ in walk(layout.root_constraint[k]))
        out.append(np.concatenate([np.asarray(r, dtype=float).ravel() for r in res[n:n + num]]
                                  + [np.zeros(0)]))
        n += num
    return out if n == len(res) else None


def judge(run, case, layouts, want, figures, heights, base):
    """Every layout made so far against the specification"""
    for v, (lay, params) in enumerate(zip(layouts, want)):
        info = {**case, "layout": v}
        names = list(lay.root_constraint.keys())
        run("as-many-constraints", len(names) == len(params)
            and list(lay.root_prim_keys.keys()) == names and list(lay.root_param.keys()) == names,
            info, len(params), names)
        if len(names) != len(params):
            continue
        got = core.observe(values, lay)
        if not run("can-be-evaluated", got[0] == "ok" and got[1] is not None, info, "values", got):
            continue
        run("same-geometry", geometry(lay) == base["geometry"], info)
        num = len(base["kinds_first"])
        run("same-constraints", [k[1:] for k in kinds(lay)][:num] == base["kinds_first"], info)
        run("same-references", [r[1] for r in references(lay)][:len(base["references"])]
            == base["references"], info)
        for i, (name, p) in enumerate(zip(names, params)):
            if p["own"]:
                if i < len(base["values"]):
                    run("other-values", np.array_equal(got[1][i], base["values"][i]), info,
                        base["values"][i], got[1][i])
                    run("other-parameters", repr(params_of(lay, name)) == base["params"][i], info,
                        base["params"][i], repr(params_of(lay, name)))
                continue
            off, axes = [], []
            for t in p["axes"]:
                rect = lay.root_prim[f"{t['key']}/{t['axis']}Axis"]
                size = rect["Line1/Point1"].value[1] - rect["Line1/Point0"].value[1] \
                    if t["axis"] == "X" else \
                    rect["Line0/Point1"].value[0] - rect["Line0/Point0"].value[0]
                thick = 0.0 if t["fig"] == 0 else heights[t["fig"], t["key"], t["axis"], t["state"]]
                off.append(float(abs(size - thick)))
                axes.append(None if t["fig"] == 0 else
                            axis_of(figures[t["fig"] - 1][1][t["key"]], t["axis"]))
            r = np.abs(got[1][i])
            run("thickness", r.size > 0 and all(np.abs(r - o).min() <= 1e-5 for o in off)
                and abs(r.max() - max(off)) <= 1e-5, {**info, "constraint": p}, off, r)
            value = lay.root_param[name].value if len(axes) == 1 else \
                tuple(lay.root_param[f"{name}/{CHILD[t['axis']]}"].value[0] for t in p["axes"])
            run("carries-the-axis", len(value) == len(axes) and
                all(x is y for x, y in zip(value, axes)), {**info, "constraint": p}, repr(axes),
                repr(value))


def params_of(lay, name):
    return [core.jsonable(n.value) for _, n in walk(lay.root_param[name])]


def replay(job):
    family, row, prefix, seed = job
    rng = random.Random(seed)
    out = []

    def run(clause, ok, case, expected=None, observed=None):
        out.append((clause, bool(ok), core.jsonable(case), core.jsonable(expected),
                    core.jsonable(observed)))
        return ok
    layouts = [make(rng, family)]
    figures = [make_figure(rng, family) for _ in range(2)]
    first = layouts[0]
    base = {"geometry": geometry(first), "references": [r[1] for r in references(first)],
            "kinds_first": [k[1:] for k in kinds(first)], "values": values(first),
            "params": [repr(params_of(first, k)) for k in first.root_constraint.keys()]}
    heights = {}

    def look():
        for f, (_fig, axs) in enumerate(figures, 1):
            for k in family["keys"]:
                for a in "XY":
                    now = int(axis_of(axs[k], a).get_tick_params()["labelsize"] == SIZES[1])
                    if (f, k, a, now) not in heights:
                        heights[f, k, a, now] = measure(axs[k], a)
    look()
    case = {"cons": family["cons"], "sides": family["sides"]}
    for n, step in enumerate(row["h"]):
        info = {**case, "history": row["h"][:n + 1]}
        if step["op"] == "redraw":
            ax = figures[step["f"] - 1][1][step["key"]]
            axis = axis_of(ax, step["axis"])
            now = axis.get_tick_params()["labelsize"] == SIZES[1]
            ax.tick_params(axis=step["axis"].lower(), labelsize=SIZES[not now])
            look()
            if rng.random() < 0.5:
                ax.figure.draw_without_rendering()
        elif step["op"] == "update":
            axs = dict(figures[step["f"] - 1][1])
            got = core.observe(update_layout_constraints, layouts[step["v"] - 1], axs)
            if not run("updates", got[0] == "ok", info, "a layout", got):
                return out
            run("axes-unchanged", axs == figures[step["f"] - 1][1], info)
            layouts.append(got[1])
        else:
            lay = layouts[step["v"] - 1]
            if step["kind"] == "other":
                args = (cr.YDistance(), ("Figure/Line0/Point0", "Figure/Line0/Point1"), (0.0,))
            else:
                args = thickness(step["kind"], step["key"])
            got = core.observe(lay.add_constraint, *args)
            if not run("usable", got[0] == "ok", info, "accepted", got):
                return out
        judge(run, info, layouts, prefix[n], figures, heights, base)
    if rng.random() < 0.12 or row.get("solve"):
        close_loop(run, rng, case, row, layouts, figures, family)
    for fig, _ in figures:
        plt.close(fig)
    return out


def drawn_ones(params):
    return [t for p in params for t in p["axes"]]


def close_loop(run, rng, case, row, layouts, figures, family):
    """Draw, update, solve, draw, update, solve: rectangles as thick as the drawn axes"""
    f = rng.choice([1, 2])
    fig, axs = figures[f - 1]
    for n, lay in enumerate(layouts):
        params = row["layouts"][n]
        # a rectangle with a fixed and a drawn thickness cannot have both
        own = [(c["what"][1][0]) for c in family["cons"] if c["kind"] == "other"
               and c["what"][0] in ("Height", "Width")]
        if any(f"{t['key']}/{t['axis']}Axis" in own for t in drawn_ones(params)):
            continue
        named = {(t["axis"], t["key"]) for t in drawn_ones(params)}
        if not named or rng.random() < 0.4:
            continue
        info = {**case, "history": row["h"], "layout": n, "figure": f}
        now = lay
        for again in range(2):
            got = core.observe(update_layout_constraints, now, axs)
            if not run("loop:updates", got[0] == "ok", info, "a layout", got):
                return
            now = got[1]
            got = core.observe(solver.solve, now, limit=120)
            if not run("loop:solved", got[0] == "ok", info, "a solution", got):
                return
            root = got[1][0]
            got = core.observe(lm.update_subplots, root, "Figure", fig,
                               {k: axs[k] for k in family["keys"]})
            if not run("loop:drawn", got[0] == "ok", info, "a figure", got):
                return
            for a, k in named:
                rect = root[f"{k}/{a}Axis"]
                ends = (rect["Line0/Point0"].value, rect["Line1/Point1"].value)
                size = float((ends[1] - ends[0])[1 if a == "X" else 0])
                thick = measure(axs[k], a)
                run("loop:as-thick-as-drawn", abs(size - thick) <= 1e-4,
                    {**info, "axis": [a, k], "round": again}, thick, size)
            now = Layout(root, now.root_constraint, now.root_prim_keys, now.root_param)


def run(check):
    os.environ["PYTHONWARNINGS"] = "ignore"
    rng = check.rng
    families = [random_family(rng) for _ in range(check.pick(12, 30))]
    res = tlc.run("UpdateMachine", workers=8, coverage=True,
                  constants={"Depth": check.pick(3, 4)},
                  data=[{"keys": f["keys"], "cons": [{k: c[k] for k in ("kind", "key")}
                                                     for c in f["cons"]]} for f in families])
    check.tlc("update histories", res)
    table = {(r["fam"], json.dumps(r["h"])): r for r in res.rows}
    longest = max(len(r["h"]) for r in res.rows)
    ends = [r for r in res.rows if len(r["h"]) == longest
            and any(s["op"] == "update" for s in r["h"])]
    jobs = []
    for r in rng.sample(ends, min(check.pick(260, 4000), len(ends))):
        prefix = [table[r["fam"], json.dumps(r["h"][:n + 1])]["layouts"]
                  for n in range(len(r["h"]))]
        jobs.append((families[r["fam"] - 1], r, prefix, rng.randrange(2**40)))
    check.count("update histories", families=len(families), emitted=len(res.rows),
                replayed=len(jobs))
    check.sample({"cons": families[0]["cons"], "history": jobs[0][1]["h"]})
    for out in core.parallel(replay, jobs, chunksize=4):
        check.traces += 1
        for clause, ok, info, expected, observed in out:
            check.expect(clause, ok, info, expected, observed)
            if clause.startswith("loop:as"):
                check.count("update histories", loops=1)
    check.assumptions += [
        "tick positions are fixed, so that drawing at another size draws the same labels",
        "every drawn axes of a thickness constraint is among the given axes",
    ]
