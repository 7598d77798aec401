"""C10 Point and line measurements are exact for all geometry"""
from . import tlc, geom
from .geom import NONE, BOOL, DIR

FAMILIES = ["P", "PP", "L", "LL", "LLm", "PL"]
RANDOM = (
    [("measure", "Coordinate", [""], "P", NONE)]
    + [("measure", n, [""], "PP", NONE) for n in ("XDistance", "YDistance")]
    + [("measure", "DirectedDistance", [""], "PP", DIR)]
    + [("measure", n, [""], "L", NONE) for n in
       ("LineVector", "UnitLineVector", "Length", "XLength", "YLength", "Midpoint")]
    + [("measure", "DirectedLength", [""], "L", DIR)]
    + [("measure", n, [""], "LL", NONE) for n in
       ("MidpointXDistance", "MidpointYDistance", "Angle", "Angle")]
    + [("measure", "MidpointDirectedDistance", [""], "LL", DIR)]
    + [("measure", n, [""], "PL", BOOL) for n in
       ("PointOnLineDistance", "PointToLineDistance", "RelativePointOnLineDistance")]
)


def run(check):
    geom.enumerated(check, FAMILIES, "measure", RANDOM, check.pick(2500, 12000),
                    check.pick(600, 5000))
