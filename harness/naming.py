"""Histories of spec/LayoutMachine.tla performed on real layouts"""
import numpy as np

from . import layouts
from mpllayout import constraints as cr
from mpllayout import constructions as con
from mpllayout import primitives as pr

LINE = [[[0, 1], [2, 4]], [[1, 1], [5, -2]]]
POINTS = [[3, 2], [-1, 5]]


class Horizontal1(con.StaticCompoundConstruction):
    """A user constraint whose names continue those of Horizontal"""
    @classmethod
    def init_children(cls):
        return (("q",), (con.DirectedDistance(),), (("arg0", "arg1"),),
                lambda params: ((params[0],),))

    @classmethod
    def init_signature(cls):
        return con.ConstructionSignature((pr.Point, pr.Point), (np.ndarray,), 0)

    @classmethod
    def assem(cls, prims, direction):
        return np.array(())


H = {"op": "leaf", "name": "XLength", "side": ""}    # the value is not used
S = {"op": "constraint", "a": {"op": "leaf", "name": "Coordinate", "side": ""}}


def user(n):
    return {"op": "compound", "kinds": ["P", "P"], "np": 1, "own": "none", "kids": [
        {"key": "q", "e": {"op": "leaf", "name": "DirectedDistance", "side": ""},
         "args": [{"i": 1, "path": []}, {"i": 2, "path": []}],
         "params": [{"s": "param", "i": 1}] * n}]}


class Wrong1(Horizontal1):
    @classmethod
    def init_children(cls):
        return (("q",), (con.DirectedDistance(),), (("arg0", "arg1"),),
                lambda params: ((params[0], params[0]),))


Wrong1.__name__ = "Horizontal1"

TYPE_NAMES = {"H": lambda: type(cr.Horizontal()).__name__, "S": lambda: type(cr.Fix()).__name__,
              "U": lambda: "Horizontal1"}


def concrete(kind, why):
    """(expression, constraint, arguments, parameters, public name)"""
    if kind == "H":
        out = [H, cr.Horizontal(), [["l"]], [], "Horizontal"]
    elif kind == "S":
        out = [S, cr.Fix(), [["p0"]], [{"t": "vec", "v": [[1, 1], [2, 1]]}], "Fix"]
    else:
        c = Wrong1() if why == "nested" else Horizontal1()
        out = [user(2 if why == "nested" else 1), c, [["p0"], ["p1"]],
               [{"t": "dir", "v": [1, 0]}], "Horizontal1"]
    if why == "prim":
        out[2] = [["nobody"]] + out[2][1:]
    elif why == "kind":
        out[2] = out[2][:-1] + [["l"] if kind != "H" else ["p1"]]
    elif why == "params" or (why == "nested" and kind != "U"):
        out[3] = out[3] + [{"t": "num", "v": [1, 1]}]
    return out


def name_of(symbol):
    if symbol and symbol[0] in TYPE_NAMES and symbol[1:].isdigit():
        return TYPE_NAMES[symbol[0]]() + symbol[1:]
    return symbol


def start():
    rec = layouts.Recorder()
    rec.add_prim("l", "L", [[0, 1], [3, 1]])
    rec.add_prim("p0", "P", [2, 3])
    rec.add_prim("p1", "P", [4, -1])
    return rec


def perform(rng, history):
    rec = start()
    for op in history:
        if op["op"] == "rebuild":
            rec.rebuild(rng)
            continue
        e, c, args, params, public = concrete(op["kind"], op["why"])
        rec.add_con(e, c, args, params, name_of(op["name"]), prefixes=(public,))
    return rec


def random_history(rng, length):
    """Longer histories, with names that run into each other"""
    rec = start()
    pool = [f"{n}{i}" for n in ("Horizontal", TYPE_NAMES["S"](), "Horizontal1")
            for i in (0, 1, 2, 3, 9, 10, 11, 12)] + ["a", "Horizontal", "0"]
    bias = rng.choice(["H", "S", "U", "HU", "HHHHU", "HSU"])
    while len(rec.events) < length:
        r = rng.random()
        if r < 0.08:
            rec.rebuild(rng)
            continue
        kind = rng.choice(bias)
        why = rng.choice(["prim", "kind", "params", "nested"]) if rng.random() < 0.12 else ""
        e, c, args, params, public = concrete(kind, why)
        rec.add_con(e, c, args, params, rng.choice(pool) if rng.random() < 0.4 else "",
                    prefixes=(public,))
    return rec
