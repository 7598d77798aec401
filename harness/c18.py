"""C18 Figures and axes appear where the geometry says"""
import json
import warnings

import numpy as np
from matplotlib import pyplot as plt

from . import figures, tlc
from .core import observe
from mpllayout import matplotlibutils as lm

TOL = 1e-9


def frac(r):
    return r[0] / r[1]


def label_at(axis, fig):
    """Where the label of an axis is, in fractions of the figure"""
    p = axis.label.get_transform().transform(axis.label.get_position())
    return np.array(p) / fig.dpi / fig.get_size_inches()


def watched(fn, *args, **kw):
    """Result of a call and whether it warned"""
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        got = observe(fn, *args, **kw)
    return got, [str(w.message) for w in log if issubclass(w.category, UserWarning)]


def close(a, b, tol=TOL):
    return bool(np.all(np.abs(np.asarray(a, dtype=float) - np.asarray(b, dtype=float)) <= tol))


def judge(check, case, fig, axs, want, unit, tol):
    size = np.array(want["size"], dtype=float) * unit
    check.expect("figure-size", close(fig.get_size_inches(), size), case, size,
                 fig.get_size_inches())
    check.expect("one-axes-per-key", list(axs) == want["order"] and len(fig.axes) == len(axs)
                 and all(any(a is b for b in fig.axes) for a in axs.values()), case,
                 want["order"], [list(axs), len(fig.axes)])
    if want["axes"] == []:
        return
    for k, w in want["axes"].items():
        ax = axs.get(k)
        if ax is None:
            continue
        info = {**case, "axes_key": k}
        box = ax.get_position()
        got = [box.x0, box.y0, box.x1, box.y1]
        exp = [frac(w["rect"][s]) for s in ("left", "bottom", "right", "top")]
        check.expect("axes-rectangle", close(got, exp, tol), info, exp, got)
        for name, axis in (("x", ax.xaxis), ("y", ax.yaxis)):
            lab = w[name + "label"]
            if lab != "auto":
                exp = [frac(lab[0]), frac(lab[1])]
                got = label_at(axis, fig)
                check.expect(f"{name}-label", close(got, exp, tol), info, exp, got)
            t = w[name + "ticks"]
            if t != "anywhere":
                got = axis.get_ticks_position()
                check.expect(f"{name}-ticks", got == t, info, t, got)


def customise(rng, ax, flags):
    """Settings of the user's an update has to cope with, where the geometry has the axis"""
    for axis, sides, given in ((ax.xaxis, ("bottom", "top"), flags["xaxis"]),
                               (ax.yaxis, ("left", "right"), flags["yaxis"])):
        if not given:
            continue
        kind = rng.choice(["", "", "", "both", "none", "split", *sides])
        if kind == "split":
            axis.set_tick_params(**{sides[0]: True, sides[1]: False, "label" + sides[0]: False,
                                    "label" + sides[1]: True})
        elif kind:
            axis.set_ticks_position(kind)


def obscured(rng, axs):
    """
    Hide some axes, or parts of them, or change what does not matter for their places;
    returns what makes them visible again
    """
    undo = []
    for ax in axs:
        kind = rng.choice(["", "", "", "hidden", "off", "hidden axis", "inverted", "log", "ghost"])
        if kind == "hidden":
            ax.set_visible(False)
            undo.append(lambda ax=ax: ax.set_visible(True))
        elif kind == "off":
            ax.set_axis_off()
            undo.append(ax.set_axis_on)
        elif kind == "hidden axis":
            axis = rng.choice([ax.xaxis, ax.yaxis])
            axis.set_visible(False)
            axis.label.set_visible(False)
            undo += [lambda axis=axis: axis.set_visible(True),
                     lambda axis=axis: axis.label.set_visible(True)]
        elif kind == "inverted":
            ax.invert_yaxis()
        elif kind == "log":
            ax.set_xlim(1, 1000)
            ax.set_xscale("log")
        elif kind == "ghost":
            ax.set_alpha(0.0)
            ax.set_zorder(-5)
    return undo


def replay(check, family, history, expected):
    rng = check.rng
    unit = family["unit"]
    fig = axs = None
    info = {"family": {k: family[k] for k in ("geoms", "axes", "flags", "fig_key", "unit",
                                              "shift", "nested")}}
    # large offsets cost digits
    tol = 1e-9 if family["shift"] == (0, 0) else 1e-7
    for n, step in enumerate(history):
        want = expected[n]
        g = family["geoms"][step["g"] - 1]
        jitter = rng.random() < 0.3
        root = figures.tree(rng, family, g, jitter)
        before = {k: np.array(v.value) for k, v in walk(root)}
        case = {**info, "history": history[:n + 1], "jitter": jitter}
        if step["op"] == "update":
            given = {k: axs[k] for k in step["keys"]}
            for k, ax in given.items():
                customise(rng, ax, family["flags"][family["axes"].index(k)])
            undo = obscured(rng, axs.values())
            got, warned = watched(lm.update_subplots, root, family["fig_key"], fig, given)
        elif step["op"] == "default":
            kw = {} if family["fig_key"] == "Figure" and rng.random() < 0.5 else \
                {"fig_key": family["fig_key"]}
            got, warned = watched(lm.subplots, root, **kw)
        else:
            got, warned = watched(lm.subplots, root, family["fig_key"], list(step["keys"]))
        if not check.expect("answers", got[0] == "ok", case, "a figure", got):
            break
        if step["op"] == "update":
            check.expect("same-objects", got[1][0] is fig and
                         all(got[1][1].get(k) is axs[k] for k in step["keys"]), case)
        else:
            fig, axs = got[1]
            for ax in axs.values():
                ax.xaxis.label.set_text("x")
                ax.yaxis.label.set_text("y label")
            undo = []
        for f in undo:
            f()
        # labels take their position when drawn
        drawn = observe(fig.draw_without_rendering)
        check.expect("can-be-drawn", drawn[0] == "ok", case, "a drawing", drawn)
        check.expect("warning", bool(warned) == want["warned"], case,
                     "a warning" if want["warned"] else "no warning", warned)
        judge(check, case, fig, axs, want["figure"], unit, tol)
        check.expect("geometry-unchanged", all(np.array_equal(v.value, before[k])
                                               for k, v in walk(root)), case)
        check.traces += 1
    if fig is not None:
        plt.close(fig)


def walk(node, path=""):
    yield path, node
    for k in node.keys():
        yield from walk(node[k], f"{path}/{k}")


def run(check):
    rng = check.rng
    families = [figures.random_family(rng, rng.randint(2, 3))
                for _ in range(check.pick(40, 400))]
    res = tlc.run("FigureMachine", workers=8, coverage=True, constants={"Depth": 3},
                  data=[{k: f[k] for k in ("geoms", "requests", "keys")} for f in families])
    check.tlc("figure histories", res)
    table = {}
    for row in res.rows:
        table[row["fam"], json.dumps(row["h"])] = row
    longest = max(len(r["h"]) for r in res.rows)
    ends = [r for r in res.rows if len(r["h"]) == longest]
    per = check.pick(330, 6000)
    chosen = rng.sample(ends, min(per, len(ends)))
    seen = {(r["fam"], r["h"][0]["op"]) for r in chosen}
    # every family, created in every way
    for r in ends:
        if (r["fam"], r["h"][0]["op"]) not in seen:
            seen.add((r["fam"], r["h"][0]["op"]))
            chosen.append(r)
    for r in chosen:
        expected = [table[r["fam"], json.dumps(r["h"][:n + 1])] for n in range(len(r["h"]))]
        replay(check, families[r["fam"] - 1], r["h"], expected)
    check.count("figure histories", families=len(families), emitted=len(res.rows),
                replayed=len(chosen),
                warned=sum(r["warned"] for r in chosen))
    check.sample(chosen[0])
    check.assumptions += ["figures and frames are upright boxes",
                          "the ticks of an axis attached to no side are not judged"]
