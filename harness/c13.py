"""C13 Quadrilateral constraints vanish exactly on their relation"""
from . import geom
from .core import observe
from .geom import NONE, QSIDES
from mpllayout import constraints as cr

RANDOM = (
    [("constraint", n, [""], "Q", NONE) for n in ("Width", "Height", "AspectRatio", "Box")]
    + [("constraint", n, QSIDES, "QQ", NONE) for n in
       ("OuterMargin", "InnerMargin", "CoincidentOutwardFaces")]
    + [("constraint", n, [""], "QQ", NONE) for n in ("AlignRow", "AlignColumn")]
    + [("constraint", "Align", ["row", "column"], "QQ", NONE)]
)


def run(check):
    geom.enumerated(check, ["Q", "QQ"], "constraint", RANDOM, check.pick(4500, 15000),
                    check.pick(500, 4000))
    geom.near_satisfied(check, check.pick(400, 3000))
    for bad in ("", "Left", "north", None, 0):
        for cls in (cr.OuterMargin, cr.InnerMargin, cr.CoincidentOutwardFaces):
            got = observe(cls, side=bad)
            check.expect("unknown-side", got[0] == "err", {"class": cls.__name__, "side": bad},
                         "an error", got)
