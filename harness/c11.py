"""C11 Quadrilateral measurements and margins follow the documented sides"""
from . import geom
from .core import observe
from .geom import NONE, QSIDES
from mpllayout import constructions as con

RANDOM = (
    [("measure", n, [""], "Q", NONE) for n in ("Width", "Height", "AspectRatio")]
    + [("measure", "RectangleDim", ["width", "height"], "Q", NONE)]
    + [("measure", n, QSIDES, "QQ", NONE) for n in ("OuterMargin", "InnerMargin") * 2]
)


def run(check):
    cache = geom.enumerated(check, ["Q", "QQ"], "measure", RANDOM, check.pick(2500, 8000),
                            check.pick(500, 4000))
    # Margin(outer, side) is the family the two named margins belong to
    rows = [r for r in check.last_rows if r["case"]["name"] in ("OuterMargin", "InnerMargin")]
    for row in check.rng.sample(rows, min(200, len(rows))):
        case = row["case"]
        got = observe(lambda: con.Margin(outer=case["name"] == "OuterMargin", side=case["side"])(
            geom.primitives(case)))
        ok, want = geom.judge(row, got[1], 1.0, (0, 0)) if got[0] == "ok" else (False, "a value")
        check.expect("measure:Margin", ok, case, want, got)
    # unknown names are rejected
    for bad in ("", "Left", "north", "width", None, 0, "left "):
        for cls in (con.OuterMargin, con.InnerMargin, con.Margin):
            got = observe(cls, side=bad)
            check.expect("unknown-side", got[0] == "err", {"class": cls.__name__, "side": bad},
                         "an error", got)
    for bad in ("", "Width", "length", "left", None, 0):
        got = observe(con.RectangleDim, dim=bad)
        check.expect("unknown-dim", got[0] == "err", {"dim": bad}, "an error", got)
