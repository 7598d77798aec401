"""C12 Point and line constraints vanish exactly on their relation"""
from . import geom
from .geom import NONE, BOOL, DIR

RANDOM = (
    [("constraint", n, [""], "P", NONE) for n in ("Fix",)]
    + [("constraint", n, [""], "PP", NONE) for n in ("XDistance", "YDistance", "Coincident")]
    + [("constraint", "DirectedDistance", [""], "PP", DIR)]
    + [("constraint", n, [""], "L", NONE) for n in
       ("Length", "XLength", "YLength", "Vertical", "Horizontal")]
    + [("constraint", "DirectedLength", [""], "L", DIR)]
    + [("constraint", n, [""], "LL", NONE) for n in
       ("MidpointXDistance", "MidpointYDistance", "Angle", "RelativeLength", "Orthogonal",
        "Parallel", "Collinear", "Collinear")]
    + [("constraint", "CoincidentLines", [""], "LL", BOOL)] * 2
    + [("constraint", n, [""], "PL", BOOL) for n in
       ("PointOnLineDistance", "PointToLineDistance", "RelativePointOnLineDistance")]
)


def run(check):
    geom.enumerated(check, ["P", "PP", "L", "LL", "LLc", "PL"], "constraint", RANDOM,
                    check.pick(4500, 25000), check.pick(500, 4000))
