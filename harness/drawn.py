"""Random matplotlib axes, and what they draw"""
import warnings

import numpy as np
from matplotlib import pyplot as plt
from matplotlib import ticker

MICRO = 1e6


class Broken(Exception):
    pass


def _raise(*_args):
    raise Broken("no tick label")


def recipe(rng):
    """How to make a figure: the same recipe makes the same figure"""
    def axis(kind):
        return {
            "side": rng.choice(["bottom", "top"] if kind == "x" else ["left", "right"]),
            "limits": rng.choice([(0, 1), (-3, 7), (1e4, 5e6), (-2e-7, 3e-7), (0.999, 1.001),
                                  (5, -5)]),
            "scale": rng.choice(["linear"] * 4 + ["log"]),
            "labels": rng.choice(["on"] * 6 + ["off", "empty", "fixed", "fixed", "long"]),
            "size": rng.choice([5, 8, 10, 17]),
            "rotation": rng.choice([0, 0, 0, 30, 90, -45]),
            "pad": rng.choice([3.5, 3.5, 0, 12]),
            "direction": rng.choice(["out", "out", "in", "inout"]),
            "sci": rng.random() < 0.2,
            "text": rng.choice(["", "label", "a\nlong\nlabel", "$\\int x$"]),
            "label_visible": rng.random() < 0.7,
            "shown": rng.random() < 0.92,
            "outward": rng.choice([0, 0, 0, 10, 25]),
            "minor": rng.random() < 0.15,
            "broken": rng.random() < 0.06,
            "odd_side": rng.choice(["both", "none", "split"]) if rng.random() < 0.08 else "",
            "label_coords": rng.random() < 0.3,
        }
    out = {
        "size": [rng.choice([2, 3.5, 7, 10]), rng.choice([2, 3, 6.25])],
        "dpi": rng.choice([50, 72, 100, 217]),
        "rect": [rng.uniform(0, .5), rng.uniform(0, .5), rng.uniform(.2, .6), rng.uniform(.2, .6)],
        "x": axis("x"), "y": axis("y"),
        "aspect": rng.choice(["auto"] * 5 + ["equal"]),
        "other": rng.choice(["", "", "twinx", "twiny", "axes"]),
        "plot": rng.random() < 0.5,
        "drawn": rng.random() < 0.5,
        # measured once before something is changed
        "then": rng.choice([None, None, ("size", rng.choice([4, 13, 25])), ("pad", 20),
                            ("rotation", rng.choice([0, 45, 90])), ("text", "two\nlines"),
                            ("limits", (0, 123456)), ("dpi", 130), ("figure", (5, 4)),
                            ("rect", [.3, .25, .4, .35]), ("hide", None), ("bold", None)]),
    }
    # limits or position only settle when drawn
    if out["aspect"] == "equal":
        out["drawn"] = True
    return out


def setup(ax, kind, r):
    axis = ax.xaxis if kind == "x" else ax.yaxis
    which = dict(axis=kind)
    lo, hi = r["limits"]
    if r["scale"] == "log" and lo > 0:
        (ax.set_xscale if kind == "x" else ax.set_yscale)("log")
    (ax.set_xlim if kind == "x" else ax.set_ylim)(lo, hi)
    if r["sci"] and not (r["scale"] == "log" and lo > 0):
        ax.ticklabel_format(axis=kind, style="sci", scilimits=(0, 0))
    mid = (lo + hi) / 2
    if r["labels"] == "fixed":
        # one of them is out of view
        axis.set_ticks([lo, mid, hi + 5 * abs(hi - lo)],
                       labels=["low", "m", "far away and\nlong\nlabel"])
    if r["labels"] == "long":
        axis.set_ticks([mid], labels=["one long label"])
    if r["minor"]:
        axis.set_minor_locator(ticker.FixedLocator([lo + .3 * (hi - lo)]))
        axis.set_minor_formatter(ticker.FixedFormatter(["minor label"]))
    ax.tick_params(labelsize=r["size"], pad=r["pad"], direction=r["direction"],
                   labelrotation=r["rotation"], which="both", **which)
    axis.set_ticks_position(r["side"])
    if r["odd_side"] in ("both", "none"):
        axis.set_ticks_position(r["odd_side"])
    elif r["odd_side"] == "split":      # ticks on one side, their labels on the other
        names = ("bottom", "top") if kind == "x" else ("left", "right")
        ax.tick_params(**{names[0]: True, names[1]: False, "label" + names[0]: False,
                          "label" + names[1]: True}, **which)
    if r["labels"] == "off":
        axis.set_major_formatter(ticker.NullFormatter())
    if r["labels"] == "empty":
        axis.set_ticks([])
    if r["outward"]:
        ax.spines[r["side"]].set_position(("outward", r["outward"]))
    (ax.set_xlabel if kind == "x" else ax.set_ylabel)(r["text"])
    if r["label_coords"]:
        axis.set_label_coords(.3, .4, transform=ax.figure.transFigure)
    axis.label.set_visible(r["label_visible"])
    axis.set_visible(r["shown"])
    if r["broken"] and r["labels"] == "on":
        axis.set_major_formatter(ticker.FuncFormatter(_raise))


def figure(r):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return _figure(r)


def _figure(r):
    """Figure and its axes: the one to measure is the first"""
    fig = plt.figure(figsize=r["size"], dpi=r["dpi"])
    ax = fig.add_axes(r["rect"])
    if r["plot"]:
        ax.plot([1, 2, 3], [2, 1, 4])
    others = []
    if r["other"] == "axes":
        others.append(fig.add_axes((.6, .6, .3, .3)))
        others[0].set_xlabel("other")
    elif r["other"]:
        others.append(getattr(ax, r["other"])())
    setup(ax, "x", r["x"])
    setup(ax, "y", r["y"])
    if r["aspect"] == "equal" and not r["other"].startswith("twin") and r["x"]["scale"] == r["y"]["scale"] == "linear":
        ax.set_aspect("equal")
    return fig, [ax, *others]


def change(r, ax, kind):
    """What happens between two measurements"""
    what, v = r["then"]
    axis = ax.xaxis if kind == "x" else ax.yaxis
    lo, hi = axis.get_view_interval()
    if what in ("size", "pad", "rotation"):
        ax.tick_params(axis=kind, which="both",
                       **{{"size": "labelsize", "rotation": "labelrotation"}.get(what, what): v})
    elif what == "text":
        axis.set_ticks([(lo + hi) / 2], labels=[v])
    elif what == "limits":
        (ax.set_xlim if kind == "x" else ax.set_ylim)(*v)
    elif what == "dpi":
        ax.figure.set_dpi(v)
    elif what == "figure":
        ax.figure.set_size_inches(v)
    elif what == "rect":
        ax.set_position(v)
    elif what == "hide":
        for label in axis.get_ticklabels():
            label.set_visible(False)
    elif what == "bold":
        for label in axis.get_ticklabels():
            label.set_weight("bold")


def fails(r, kind):
    return any(r[k]["broken"] and r[k]["labels"] == "on" for k in "xy")


def micro(v):
    return int(round(max(-2000.0, min(2000.0, float(v))) * MICRO))


def inches(fig, bbox):
    return [micro(v / fig.dpi) for v in bbox.extents]


def artists(fig, axis):
    """What an axis draws, after drawing"""
    lo, hi = sorted(axis.get_view_interval())
    slack = 1e-9 * (hi - lo)
    ticks = []
    for minor in (False, True):
        locs = axis.get_ticklocs(minor=minor)
        for tick, loc in zip(axis.get_minor_ticks(len(locs)) if minor
                             else axis.get_major_ticks(len(locs)), locs):
            for text in (tick.label1, tick.label2):
                inside = lo - slack <= loc <= hi + slack
                ticks.append({"kind": "tick", "box": inches(fig, text.get_window_extent()),
                              "visible": bool(inside and text.get_visible() and tick.get_visible()
                                              and text.get_text() != "")})
    off = axis.get_offset_text()
    ticks.append({"kind": "offset", "box": inches(fig, off.get_window_extent()),
                  "visible": bool(off.get_visible() and off.get_text() != "")})
    ticks.append({"kind": "label", "box": inches(fig, axis.label.get_window_extent()),
                  "visible": bool(axis.label.get_visible())})
    return ticks


def frame(fig, ax):
    return inches(fig, ax.get_window_extent())


def state(ax, axis):
    """All that measuring must not change"""
    return {
        "label visible": bool(axis.label.get_visible()),
        "label text": axis.label.get_text(),
        "label size": float(axis.label.get_size()),
        "axis visible": bool(axis.get_visible()),
        "ticks position": axis.get_ticks_position(),
        "label position": axis.get_label_position(),
        "view": repr([float(v) for v in axis.get_view_interval()]),
        "axes visible": bool(ax.get_visible()),
        "axes position": repr([round(float(v), 12) for v in ax.get_position(original=True).bounds]),
        "figure size": repr([float(v) for v in ax.figure.get_size_inches()]),
        "figure dpi": repr(float(ax.figure.dpi)),
        "offset visible": bool(axis.get_offset_text().get_visible()),
        "tick params": repr(sorted(axis.get_tick_params().items(), key=str)),
        "children": len(ax.get_children()),
        "spines": repr([(k, s.get_visible()) for k, s in ax.spines.items()]),
        "other label": bool((ax.yaxis if axis is ax.xaxis else ax.xaxis).label.get_visible()),
    }
