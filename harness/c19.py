"""C19 Axis thickness is the drawn extent beside the frame, without side effects"""
import logging
import os
import random

import numpy as np
from matplotlib import pyplot as plt

from . import core, drawn, geom, tlc
from mpllayout import constraints as cr
from mpllayout import primitives as pr


def rectangle(rng, kind, size):
    x, y, other = rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(0.5, 3)
    w, h = (other, size) if kind == "x" else (size, other)
    return geom.quad(geom.boxq(x, y, w, h))


def con_of(rng, kind):
    return rng.choice([
        {"x": cr.XAxisThickness, "y": cr.YAxisThickness}[kind],
        lambda: cr.AxisThickness(axis=kind)])()


def record(job):
    logging.getLogger("matplotlib").setLevel(logging.ERROR)
    seed, = job
    rng = random.Random(seed)
    r = drawn.recipe(rng)
    kind = rng.choice("xy")
    fig, axes = drawn.figure(r)
    twin, taxes = drawn.figure(r)
    out = {"recipe": r, "axis": kind, "rects": [], "artists": [], "frame": [0, 0, 0, 0]}
    broken = drawn.fails(r, kind)
    n = 1 if len(axes) > 1 and rng.random() < 0.3 and r["other"] != "axes" else 0
    ax, tax = axes[n], taxes[n]
    axis, taxis = (ax.xaxis, tax.xaxis) if kind == "x" else (ax.yaxis, tax.yaxis)
    out["measured"] = n
    if r["then"]:
        core.observe(cr.get_axis_thickness, axis, axis.get_ticks_position())
        for a in (ax, tax):
            core.observe(drawn.change, r, a, kind)
    drawable = core.observe(twin.draw_without_rendering)[0] == "ok"
    if drawable:
        seen = core.observe(drawn.artists, twin, taxis)
        drawable = seen[0] == "ok"      # matplotlib cannot do some logarithmic limits
    if drawable:
        if r["drawn"]:
            fig.draw_without_rendering()
        out["artists"] = seen[1]
        out["frame"] = drawn.frame(twin, tax)
    out["shown"] = bool(taxis.get_visible())
    out["side"] = taxis.get_ticks_position()
    out["before"] = drawn.state(ax, axis)
    how = rng.randrange(2)
    if how:
        got = core.observe(cr.get_axis_thickness, axis, axis.get_ticks_position())
    else:
        got = core.observe({"x": cr.XAxisThickness, "y": cr.YAxisThickness}[kind].get_axis_thickness,
                           axis)
    out["after"] = drawn.state(ax, axis)
    out["ok"] = got[0] == "ok"
    out["got"] = core.jsonable(got[1])
    out["value"] = drawn.micro(got[1]) if got[0] == "ok" else 0
    nothing = not out["shown"] or not any(
        a["visible"] and a["kind"] != "label" for a in out["artists"])
    out["must"] = drawable and not broken and (
        nothing or (r[kind]["odd_side"] != "split"
                    and out["side"] in ("bottom", "top", "left", "right")))
    if out["must"]:
        for use in ("axis", "none"):
            size = rng.choice([0.0, got[1] if got[0] == "ok" else 1.0, rng.uniform(0, 2)])
            c = con_of(rng, kind)
            res = core.observe(lambda: np.asarray(c(
                (rectangle(rng, kind, float(size)),), axis if use == "axis" else None), dtype=float))
            ok = res[0] == "ok" and res[1].size > 0
            out["rects"].append({"size": drawn.micro(size), "axis": use, "ok": bool(ok),
                                 "res": drawn.micro(np.abs(res[1]).max()) if ok else 0})
        again = drawn.state(ax, axis)
        if out["after"] == out["before"]:
            out["after"] = again
    out["tol"] = 6
    plt.close(fig)
    plt.close(twin)
    return out


def run(check):
    rng = check.rng
    os.environ["PYTHONWARNINGS"] = "ignore"
    res = tlc.run("Thickness", workers=8, coverage=True)
    check.tlc("measuring", res)
    records = core.parallel(record, [(rng.randrange(2**40),) for _ in range(check.pick(700, 8000))],
                            chunksize=6)
    keep = ("rects", "artists", "frame", "shown", "side", "before", "after", "ok", "value", "must",
            "tol")
    res = tlc.run("ThicknessTrace", data=[{k: r[k] for k in keep} for r in records], workers=8)
    check.tlc("recorded measurements", res)
    check.traces += len(records)
    thick = 0
    for row in res.rows:
        r = records[row["r"] - 1]
        thick += row["true"] > 0
        check.expect(row["clause"], row["clause"] == "accepted", {
            "recipe": r["recipe"], "axis": r["axis"], "measured": r["measured"],
            "side": r["side"], "rects": r["rects"]},
            {"thickness": row["true"] / 1e6, "state": r["before"]},
            {"ok": r["ok"], "value": r["got"], "state": r["after"]})
    check.count("recorded measurements", records=len(records), positive=thick,
                judged=sum(r["must"] for r in records),
                failing=sum(not r["ok"] for r in records))
    check.sample(records[0])
    check.assumptions += [
        "matplotlib's own extents of the tick labels of a twin figure are trusted",
        "thickness is not judged when ticks are on both sides, on none or opposite to their labels",
    ]
