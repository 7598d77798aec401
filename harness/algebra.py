"""
Expressions of spec/Algebra.tla as real constructions, and their evaluation.
"""
import json
import zlib

import jax
import jax.numpy as jnp
import numpy as np

from . import geom, tlc
from .core import observe
from mpllayout import primitives as pr
from mpllayout import constructions as con
from mpllayout import solver
from mpllayout.containers import Node
from mpllayout.layout import Layout

#: primitives without a type of their own hold axes ("C"), or something that does ("D")
TYPES = {"C": pr.PrimitiveNode, "D": pr.PrimitiveNode, "P": pr.Point, "L": pr.Line, "Q": pr.Quadrilateral, "A": pr.Axes}
AXES_ORDER = ["Frame", "XAxis", "XAxisLabel", "YAxis", "YAxisLabel", "TwinXAxis",
              "TwinXAxisLabel", "TwinYAxis", "TwinYAxisLabel"]
AXES_QUADS = {"Frame", "XAxis", "YAxis", "TwinXAxis", "TwinYAxis"}

# -- types (mirrors of the specification's operators, checked by its TypeOk) ---

LEAVES = {
    "Coordinate": ("P", [], 2), "XDistance": ("PP", [], 1), "YDistance": ("PP", [], 1),
    "DirectedDistance": ("PP", ["dir"], 1), "LineVector": ("L", [], 2),
    "UnitLineVector": ("L", [], 2), "Midpoint": ("L", [], 2), "Length": ("L", [], 1),
    "XLength": ("L", [], 1), "YLength": ("L", [], 1), "DirectedLength": ("L", ["dir"], 1),
    "MidpointXDistance": ("LL", [], 1), "MidpointYDistance": ("LL", [], 1),
    "MidpointDirectedDistance": ("LL", ["dir"], 1), "Angle": ("LL", [], 1),
    "PointOnLineDistance": ("PL", ["bool"], 1), "PointToLineDistance": ("PL", ["bool"], 1),
    "RelativePointOnLineDistance": ("PL", ["bool"], 1), "AspectRatio": ("Q", [], 1),
    "Width": ("Q", [], (1,)), "Height": ("Q", [], (1,)), "RectangleDim": ("Q", [], (1,)),
    "OuterMargin": ("QQ", [], (1,)), "InnerMargin": ("QQ", [], (1,)),
}


def kinds(e):
    op = e["op"]
    if op == "leaf":
        return list(LEAVES[e["name"]][0])
    if op in ("scalar", "vector"):
        return []
    if op == "sum":
        return kinds(e["a"]) + kinds(e["b"])
    if op == "map":
        k = kinds(e["a"])
        return [k[0]] * (e["n"] - len(k) + 1) + k[1:]
    if op == "compound":
        return list(e["kinds"])
    return kinds(e["a"])


def tree_total(t):
    return t["n"] + sum(tree_total(c["t"]) for c in t["ch"])


def shape(e):
    op = e["op"]
    leaf = lambda n: {"n": n, "ch": []}
    if op == "leaf":
        n = LEAVES[e["name"]][2]
        if isinstance(n, tuple):
            return {"n": 0, "ch": [{"k": e["name"] + e["side"], "t": leaf(m)} for m in n]}
        return leaf(n)
    if op == "scalar":
        return leaf(1)
    if op == "vector":
        return e["tree"]
    if op == "map":
        return {"n": 0, "ch": [{"k": json.dumps(e["a"]) + str(i), "t": shape(e["a"])}
                               for i in range(e["n"] - len(kinds(e["a"])) + 1)]}
    if op == "compound":
        n = {"none": 0, "xs": len(e["kinds"]), "params": e["np"]}[e["own"]]
        return {"n": n, "ch": [{"k": c["key"], "t": shape(c["e"])} for c in e["kids"]]}
    return shape(e["a"])


def total(e):
    return tree_total(shape(e))


def param_kinds(e):
    op = e["op"]
    if op == "leaf":
        return [(k, 1) for k in LEAVES[e["name"]][1]]
    if op == "scalar":
        return [("num", 1)]
    if op == "vector":
        return [("target", tree_total(e["tree"]))]
    if op == "sum":
        return param_kinds(e["a"]) + param_kinds(e["b"])
    if op in ("muls", "divs"):
        return param_kinds(e["a"]) + param_kinds(e["s"])
    if op == "pows":
        return param_kinds(e["a"]) + [("exp", 1)]
    if op == "partial":
        k = param_kinds(e["a"])
        return k[:len(k) - len(e["ps"])]
    if op == "map":
        return param_kinds(e["a"]) * (e["n"] - len(kinds(e["a"])) + 1)
    if op == "constraint":
        return param_kinds(e["a"]) + [("target", total(e["a"]))]
    if op == "compound":
        return [("num", 1)] * e["np"]
    return param_kinds(e["a"])


# -- building ------------------------------------------------------------------

def prim(kind, v, dtype=float):
    if kind in "CD":
        return pr.PrimitiveNode(np.array(()), {
            k: prim({"C": "A", "D": "C"}[kind], x, dtype) for k, x in v.items()})
    if kind == "A":
        flags = {"xaxis": "XAxis" in v, "yaxis": "YAxis" in v,
                 "twinx": "TwinXAxis" in v, "twiny": "TwinYAxis" in v}
        return pr.Axes(prims=tuple(
            geom.BUILD["Q" if n in AXES_QUADS else "P"](v[n], dtype) for n in AXES_ORDER if n in v),
            **flags)
    return geom.BUILD[kind](v, dtype)


def param(p, form="float"):
    t, v = p["t"], p["v"]
    if t == "bool":
        return v
    if t == "dir":
        return geom.vector(v, form)
    if t == "vec":
        return geom.vector([geom.rat(x) for x in v], form)
    if t == "exp":
        return geom.number(geom.rat(v), form if form != "np" else "float")
    return geom.number(geom.rat(v), form)


def num_const(q, rng):
    v = geom.rat(q)
    if float(v).is_integer() and rng.random() < 0.5:
        return int(v)
    return float(v)


def first_x(kind, p):
    if kind == "P":
        return p.value[0]
    if kind == "L":
        return p["Point0"].value[0]
    if kind == "Q":
        return p["Line0"]["Point0"].value[0]
    if kind == "C":
        p = p["Axes 0"]
    elif kind == "D":
        p = p["arg1 arg0"]["Axes 0"]
    return p["Frame"]["Line0"]["Point0"].value[0]


def size_node(t):
    return Node(t["n"], {c["k"]: size_node(c["t"]) for c in t["ch"]})


def selector(s):
    if s["s"] == "param":
        return lambda ps: ps[s["i"] - 1]
    if s["s"] == "const":
        return lambda ps: param(s["p"])
    if s["s"] == "neg":
        return lambda ps: -ps[s["i"] - 1]
    return lambda ps: ps[s["i"] - 1] + ps[s["j"] - 1]


def compound(e, rng):
    """A user-defined construction, defined either way the package offers"""
    ks, own, np_ = e["kinds"], e["own"], e["np"]
    keys = tuple(c["key"] for c in e["kids"])
    constructions = tuple(build(c["e"], rng) for c in e["kids"])
    prim_keys = tuple(
        tuple("/".join([f"arg{a['i'] - 1}"] + a["path"]) for a in c["args"]) for c in e["kids"])
    sels = [[selector(s) for s in c["params"]] for c in e["kids"]]

    def split(params):
        return tuple(tuple(f(params) for f in fs) for fs in sels)

    size = {"none": 0, "xs": len(ks), "params": np_}[own]
    signature = con.ConstructionSignature(
        tuple(TYPES[k] for k in ks), np_ * (float,), size)

    def own_value(prims, params):
        if own == "xs":
            return jnp.array([first_x(k, p) for k, p in zip(ks, prims)], dtype=float)
        if own == "params":
            return jnp.array([jnp.asarray(p, dtype=float) for p in params], dtype=float)
        return np.array(())

    # equal expressions are built the same way (mapped elements are named by type)
    if zlib.crc32(json.dumps(e, sort_keys=True).encode()) % 2:
        class User(con.StaticCompoundConstruction):
            @classmethod
            def init_children(cls):
                return keys, constructions, prim_keys, split

            @classmethod
            def init_signature(cls):
                return signature

            @classmethod
            def assem(cls, prims, *params):
                return own_value(prims, params)

        return User()

    class UserNode(con.ConstructionNode):
        @classmethod
        def assem(cls, prims, *params):
            return own_value(prims, params)

    return UserNode(con.ConstructionValue(prim_keys, split, signature),
                    dict(zip(keys, constructions)))


#: constructions made before, which may be operands of any number of others
MADE = {}


def build(e, rng):
    """The real construction; operands may have been used before"""
    name = json.dumps(e, sort_keys=True)
    if name in MADE and rng.random() < 0.4:
        return MADE[name]
    c = make(e, rng)
    if len(MADE) < 20000:
        MADE[name] = c
    return c


def make(e, rng):
    """The real construction; functions and operators are chosen at random"""
    op = e["op"]
    alt = rng.random() < 0.5
    if op == "leaf":
        if e["name"] == "RectangleDim":
            return con.RectangleDim(dim=e["side"])
        return geom.construction("measure", e["name"], e["side"])
    if op == "scalar":
        return con.Scalar()
    if op == "vector":
        return con.Vector(size_node(e["tree"]))
    if op == "compound":
        return compound(e, rng)
    a = build(e["a"], rng)
    if op == "pos":
        return +a
    if op == "neg":
        return -a
    if op == "constraint":
        return con.transform_constraint(a)
    if op == "sum":
        b = build(e["b"], rng)
        return a + b if alt else con.transform_sum(a, b)
    if op == "mulc":
        c = num_const(e["c"], rng)
        if not alt:
            return con.transform_scalar_mul(a, c)
        return a * c if rng.random() < 0.5 else c * a
    if op == "divc":
        c = num_const(e["c"], rng)
        return a / c if alt else con.transform_scalar_div(a, c)
    if op == "powc":
        n = e["n"] if rng.random() < 0.5 else float(e["n"])
        return a ** n if alt else con.transform_scalar_pow(a, n)
    if op == "muls":
        s = build(e["s"], rng)
        # of two scalars it is not said which one is "the scalar": call the function
        if not alt or (kinds(e["a"]) == [] and total(e["a"]) == 1):
            return con.transform_scalar_mul(a, s)
        return s * a if rng.random() < 0.5 else a * s
    if op == "divs":
        s = build(e["s"], rng)
        return a / s if alt else con.transform_scalar_div(a, s)
    if op == "pows":
        s = build(e["s"], rng)
        return a ** s if alt else con.transform_scalar_pow(a, s)
    if op == "partial":
        return con.transform_partial(a, *(param(p) for p in e["ps"]))
    if op == "map":
        ks = kinds(e)
        types = [TYPES[k] for k in ks]
        return con.transform_map(a, types if alt else tuple(types))
    raise ValueError(op)


# -- evaluating ------------------------------------------------------------------

def evaluate(c, ks, prims, params, how, rng):
    """The value of a construction, computed in one of the ways the package offers"""
    if how == "call":
        return c(prims, *params)
    if how == "jit":
        return jax.jit(lambda ps: c(ps, *params))(prims)
    if how in ("tree", "jit-tree"):
        names = ["q", "arg0", "arg10", "b", "Line0", "a b", "arg2", "arg1", "z", "y", "x", "w",
                 "v", "u", "t", "s"]
        rng.shuffle(names)
        while len(names) < len(prims):
            names.append(f"n{len(names)}")
        keys = tuple(names[:len(prims)])
        root = c.root_prim(keys, prims)
        if how == "jit-tree":
            pk = c.root_prim_keys(keys)
            return jax.jit(lambda r: c.assem_from_tree(r, pk, c.root_params(tuple(params))))(root)
        return c.assem_from_tree(root, c.root_prim_keys(keys), c.root_params(tuple(params)))
    # as part of a layout, next to another constraint, with arguments that are parts
    # of larger primitives
    layout = Layout()
    keys = []
    for n, (k, p) in enumerate(zip(ks, prims)):
        name = f"p{n}"
        pick = rng.random()
        if k == "P" and pick < 0.5:
            layout.add_prim(pr.Line(prims=(pr.Point((0.25, 7.0)), p)), name)
            keys.append(f"{name}/Point1")
        elif k == "L" and pick < 0.5:
            layout.add_prim(
                pr.Polygon(prims=[pr.Point((9.0, 1.5)), p["Point0"], p["Point1"]]), name)
            keys.append(f"{name}/Line1")
        elif k == "Q" and pick < 0.5:
            layout.add_prim(pr.Axes(prims=(p,)), name)
            keys.append(f"{name}/Frame")
        else:
            layout.add_prim(p, name)
            keys.append(name)
    layout.add_prim(pr.Point((3.0, 4.0)), "other")
    layout.add_constraint(con.Coordinate(), ("other",), ())
    layout.add_constraint(c, tuple(keys), tuple(params), key="mine")
    layout.add_constraint(con.Coordinate(), ("other",), ())
    flat = layout.flat_constraints()
    if how == "jit-layout":
        res = jax.jit(lambda r: solver.assem_constraint_residual(r, *flat))(layout.root_prim)
    else:
        res = solver.assem_constraint_residual(layout.root_prim, *flat)
    values = np.concatenate([np.asarray(v, dtype=float).ravel() for v in res])
    assert values[:2].tolist() == [3.0, 4.0] and values[-2:].tolist() == [3.0, 4.0], \
        "neighbouring constraints changed"
    return values[2:-2]


def compare(value, got):
    got = np.asarray(got, dtype=float).ravel()
    want = [geom.real(v) for v in value]
    if got.size != len(want):
        return False, want
    tol = [1e-10 * max(1.0, geom.magnitude(v)) for v in value]
    big = max([1.0] + [geom.magnitude(v) for v in value])
    ok = all(abs(g - w) <= t + 1e-12 * big for g, w, t in zip(got, want, tol))
    return bool(ok and np.all(np.isfinite(got))), want


def declared(c):
    """Sum of the output sizes declared by a construction and its descendants"""
    return c.signature.value_size + sum(declared(k) for k in c.values())


def check_rows(check, part, rows, hows, clause):
    rng = check.rng
    for n, row in enumerate(rows):
        e = row["e"]
        how = hows[n % len(hows)]
        form = geom.FORMS[(n // len(hows)) % len(geom.FORMS)]
        case = {"e": e, "prims": row["prims"], "params": row["params"], "how": how, "form": form}
        got = observe(build, e, rng)
        if not check.expect(f"{clause}:construct", got[0] == "ok", case, "a construction", got):
            continue
        c = got[1]
        dtype = int if rng.random() < 0.2 else float
        case["dtype"] = dtype.__name__
        prims = tuple(prim(k, v, dtype) for k, v in zip(row["kinds"], row["prims"]))
        params = [param(p, form if p["t"] in ("vec", "dir") or form not in ("int", "npint") else "float")
                  if p["t"] != "num" else param(p, form) for p in row["params"]]
        got = observe(evaluate, c, row["kinds"], prims, params, how, rng)
        if got[0] != "ok":
            check.expect(f"{clause}:value", False, case, "a value", got)
            continue
        ok, want = compare(row["value"], got[1])
        check.expect(f"{clause}:value", ok, case, want, got[1])
        check.traces += 1
        check.count(part, calls=1, **{f"by_{how}": 1})
        yield row, c, prims, params


def evaluated(check, part, data, **kw):
    res = tlc.run("AlgebraCases", constants={"FromData": "TRUE"}, data=data, **kw)
    check.tlc(part, res)
    return res.rows


# -- random expressions --------------------------------------------------------------

NUMS = [[2, 1], [-3, 1], [1, 2], [-1, 1], [3, 2], [5, 1], [-2, 1], [1, 4]]
SAME = {  # leaves with equal output trees
    2: ["Coordinate", "LineVector", "Midpoint"],
    1: ["XDistance", "YDistance", "DirectedDistance", "XLength", "YLength", "DirectedLength",
        "MidpointXDistance", "MidpointYDistance", "MidpointDirectedDistance", "Length",
        "PointToLineDistance"],
}


def leaf(rng, name):
    side = ""
    if name in ("OuterMargin", "InnerMargin"):
        side = rng.choice(geom.QSIDES)
    if name == "RectangleDim":
        side = rng.choice(["width", "height"])
    return {"op": "leaf", "name": name, "side": side}


SIMPLE = ["Coordinate", "XDistance", "YDistance", "DirectedDistance", "LineVector", "Midpoint",
          "XLength", "YLength", "DirectedLength", "MidpointXDistance",
          "MidpointDirectedDistance", "Width", "Height", "RectangleDim", "OuterMargin",
          "InnerMargin"]
OTHERS = ["Length", "PointOnLineDistance", "PointToLineDistance", "RelativePointOnLineDistance",
          "UnitLineVector", "Angle"]


def scalar_expr(rng):
    s = {"op": "scalar"}
    return rng.choice([
        s, s, {"op": "mulc", "a": s, "c": rng.choice(NUMS)}, {"op": "neg", "a": s},
        {"op": "muls", "a": s, "s": s}, {"op": "divc", "a": s, "c": [2, 1]},
        {"op": "partial", "a": s, "ps": [{"t": "num", "v": rng.choice(NUMS)}]},
        {"op": "powc", "a": s, "n": 2}])


def param_value(rng, k):
    t, n = k
    if t == "num":
        return {"t": "num", "v": rng.choice(NUMS)}
    if t == "exp":
        return {"t": "exp", "v": [rng.randint(0, 2), 1]}
    if t == "bool":
        return {"t": "bool", "v": rng.random() < 0.5}
    if t == "dir":
        return {"t": "dir", "v": rng.choice([[1, -2], [0, 3], [-1, 1], [1, 0], [0, 1]])}
    if rng.random() < 0.4:
        return {"t": "num", "v": rng.choice(NUMS)}
    return {"t": "vec", "v": [rng.choice(NUMS) for _ in range(n)]}


def expr(rng, depth, compounds=True, exact=True, state=None):
    """A random well-typed expression"""
    state = state if state is not None else {"pow": 0}
    if depth == 0:
        r = rng.random()
        if compounds and r < 0.2:
            return user_compound(rng, 0)
        if r < 0.3:
            return {"op": "vector", "tree": size_tree(rng, 2)}
        if r < 0.35:
            return {"op": "scalar"}
        return leaf(rng, rng.choice(SIMPLE if exact or rng.random() < 0.6 else OTHERS))
    op = rng.choice(["neg", "pos", "mulc", "divc", "muls", "divs", "partial", "map", "constraint",
                     "constraint", "sum", "sum", "powc", "pows"])
    if op == "map" and depth > 3:
        op = "sum"
    if op in ("powc", "pows"):
        if state["pow"]:
            op = "muls"
        state["pow"] = 1
    a = expr(rng, depth - 1, compounds, exact, state)
    e = {"op": op, "a": a}
    if op in ("mulc", "divc"):
        e["c"] = rng.choice(NUMS)
    elif op in ("muls", "divs"):
        e["s"] = scalar_expr(rng)
    elif op == "powc":
        e["n"] = rng.choice([1, 2, 2])
    elif op == "pows":
        e["s"] = {"op": "scalar"}
    elif op == "partial":
        k = param_kinds(a)
        m = rng.randint(0, len(k))
        e["ps"] = [param_value(rng, x) for x in k[len(k) - m:]]
    elif op == "map":
        k = kinds(a)
        if not k or len(k) > 6:
            return {"op": "neg", "a": a}
        e["n"] = len(k) + rng.randint(0, 3 if len(k) < 4 else 1)
    elif op == "sum":
        if len(kinds(a)) > 6:
            return {"op": "neg", "a": a}
        sh = shape(a)
        if not sh["ch"] and sh["n"] in SAME and rng.random() < 0.5:
            b = leaf(rng, rng.choice(SAME[sh["n"]][:8]))
            if rng.random() < 0.5:
                b = {"op": "mulc", "a": b, "c": rng.choice(NUMS)}
        else:
            b = a
            if rng.random() < 0.3:
                b = {"op": "neg", "a": b}
            elif rng.random() < 0.3:
                b = {"op": "constraint", "a": b}
            elif rng.random() < 0.3:
                b = {"op": "muls", "a": b, "s": {"op": "scalar"}}
            elif sh["n"] + len(sh["ch"]) > 0 and rng.random() < 0.5 and not has_map(sh):
                b = {"op": "vector", "tree": sh}
        e["b"] = b
        if rng.random() < 0.5 and shape(b) == sh:
            e["a"], e["b"] = e["b"], e["a"]
    return e


def has_map(t):
    return any("{" in c["k"] or has_map(c["t"]) for c in t["ch"]) or any(
        c["k"] in LEAVES or c["k"][:11] in ("OuterMargin", "InnerMargin")
        or c["k"].startswith("RectangleDim") for c in t["ch"])


def size_tree(rng, depth):
    t = {"n": rng.choice([0, 1, 1, 2, 3]), "ch": []}
    if depth and rng.random() < 0.6:
        names = rng.sample(["b", "a", "Line10", "Line2", "x"], rng.randint(1, 3))
        t["ch"] = [{"k": k, "t": size_tree(rng, depth - 1)} for k in names]
    if tree_total(t) == 0:
        t["n"] = 1
    return t


PATHS = {
    "P": {"P": [[]]},
    "L": {"L": [[]], "P": [["Point0"], ["Point1"]]},
    "Q": {"Q": [[]], "L": [[f"Line{i}"] for i in range(4)],
          "P": [[f"Line{i}", f"Point{j}"] for i in range(4) for j in range(2)]},
    "A": {"A": [[]],
          "Q": [["Frame"], ["XAxis"], ["YAxis"]],
          "L": [[f, f"Line{i}"] for f in ("Frame", "XAxis", "YAxis") for i in range(4)],
          "P": [["XAxisLabel"], ["YAxisLabel"]] +
               [[f, f"Line{i}", f"Point{j}"] for f in ("Frame", "YAxis") for i in range(4)
                for j in range(2)]},
}


def below(key, paths):
    return {k: [[key] + p for p in ps] for k, ps in paths.items()}


PATHS["C"] = {"C": [[]], **below("Axes 0", PATHS["A"])}
PATHS["D"] = {"D": [[]], **below("arg1 arg0", PATHS["C"])}


def user_compound(rng, depth, wide=False, inner=None, huge=False):
    """
    A random user-defined construction; `wide` has more than ten arguments, `huge` more
    than a hundred
    """
    n = rng.randint(10, 13) if wide else rng.randint(1, 4)
    if huge:
        n, wide = rng.randint(101, 112), True
    ks = [rng.choice("PLQA" if not wide else "PPLQ") for _ in range(n)]
    if rng.random() < 0.3:
        ks[rng.randrange(n)] = rng.choice("CD")
    np_ = rng.randint(0, 3)
    kids = []
    names = rng.sample(["b", "a", "k10", "k2", "Zed", "c", "Line0", "x y"], rng.randint(0, 4))
    for name in names:
        for _ in range(8):
            e = None
            r = rng.random()
            if depth and r < 0.5:
                e = user_compound(rng, depth - 1)
            elif inner is not None and r < 0.7:
                e = inner(rng)
            else:
                e = leaf(rng, rng.choice(SIMPLE + OTHERS[:2]))
            need = kinds(e)
            args = []
            for k in need:
                options = [(i, path) for i, have in enumerate(ks) for path in PATHS[have].get(k, [])]
                if not options:
                    break
                i, path = rng.choice(options)
                if wide and rng.random() < 0.5:    # two-digit positions
                    high = [o for o in options if o[0] >= (99 if huge else 9)]
                    if high:
                        i, path = rng.choice(high)
                args.append({"i": i + 1, "path": path})
            if len(args) < len(need):
                continue
            params = []
            for t, m in param_kinds(e):
                if t == "num" and np_ and rng.random() < 0.85:
                    i, j = rng.randint(1, np_), rng.randint(1, np_)
                    params.append(rng.choice([{"s": "param", "i": i}, {"s": "param", "i": i},
                                              {"s": "neg", "i": i}, {"s": "plus", "i": i, "j": j}]))
                elif t == "target" and np_ and rng.random() < 0.5:
                    params.append({"s": "param", "i": rng.randint(1, np_)})
                else:
                    params.append({"s": "const", "p": param_value(rng, (t, m))})
            kids.append({"key": name, "e": e, "args": args, "params": params})
            break
    own = rng.choice(["none", "xs", "params"])
    e = {"op": "compound", "kinds": ks, "np": np_, "own": own, "kids": kids}
    if total(e) == 0:
        e["own"] = "xs"
    return e


def rand_prim(rng, kind):
    m = 6
    if kind == "A":
        parts = {"Frame": geom.rand_quad(rng, m), "XAxis": geom.rand_quad(rng, m),
                 "XAxisLabel": geom.rand_point(rng, m), "YAxis": geom.rand_quad(rng, m),
                 "YAxisLabel": geom.rand_point(rng, m)}
        return parts
    if kind == "C":
        return {"Axes 0": rand_prim(rng, "A")}
    if kind == "D":
        return {"arg1 arg0": rand_prim(rng, "C"), "other": rand_prim(rng, "C")}
    if kind == "L":   # no half turns between lines
        while True:
            p = geom.rand_point(rng, m)
            l = [p, [p[0] + rng.randint(0, 4), p[1] + rng.randint(-3, 4)]]
            if l[0] != l[1] and not (l[0][0] == l[1][0] and l[1][1] < l[0][1]):
                return l
    return geom.RAND[kind](rng, m)


def inverse_calls(rng, num):
    """Divisions by, and negative powers of, values that are not zero"""
    def nonzero(name):
        while True:
            sh = LEAVES[name][0]
            ps = [rand_prim(rng, k) for k in sh]
            p = ps[0]
            if name == "Coordinate":
                parts = p
            else:
                q = p[:2]
                parts = [q[1][0] - q[0][0]] + ([q[1][1] - q[0][1]] if name == "LineVector" else [])
            if 0 not in parts:
                return ps

    out = []
    for i in range(num):
        name = rng.choice(["Coordinate", "LineVector", "XLength", "Width", "Length"])
        e = leaf(rng, name)
        prims = nonzero(name)
        if rng.random() < 0.4:
            e = rng.choice([{"op": "neg", "a": e}, {"op": "mulc", "a": e, "c": rng.choice(NUMS)},
                            {"op": "divc", "a": e, "c": rng.choice(NUMS)}])
        n = rng.choice([-1, -1, -2, 0, 1])
        params = []
        if rng.random() < 0.5:
            e = {"op": "powc", "a": e, "n": n}
        else:
            e = {"op": "pows", "a": e, "s": {"op": "scalar"}}
            params = [{"t": "exp", "v": [n, 1]}]
        if rng.random() < 0.5:
            e = {"op": "divs", "a": e, "s": {"op": "scalar"}}
            params.append({"t": "num", "v": rng.choice([[2, 1], [-4, 1], [3, 1]])})
        out.append({"e": e, "prims": prims, "params": params})
    return out


def misfits(rng, num):
    """Calls, most of them with a target of the wrong size or a sum that can't be formed"""
    out = []
    while len(out) < num:
        e = expr(rng, rng.choice([0, 0, 1, 1, 2]))
        r = rng.random()
        if r < 0.25:
            b = expr(rng, rng.choice([0, 1, 2]))
            if total(e) == total(b) or rng.random() < 0.05:
                continue
            e = {"op": "sum", "a": e, "b": b}
            if rng.random() < 0.3:
                e = {"op": rng.choice(["neg", "constraint"]), "a": e}
            if len(kinds(e)) > 24:
                continue
            call = call_of(rng, e)
        else:
            if r < 0.7:
                e = {"op": "constraint", "a": e}
                if rng.random() < 0.4:
                    e = rng.choice([
                        {"op": "neg", "a": e}, {"op": "muls", "a": e, "s": {"op": "scalar"}},
                        {"op": "map", "a": e, "n": len(kinds(e)) + 1} if kinds(e) else {"op": "pos", "a": e}])
            elif r < 0.85:
                e = {"op": "constraint", "a": {"op": "constraint", "a": e}}
            if not usable({"e": e, "prims": kinds(e)}):
                continue
            call = call_of(rng, e)
            where = [i for i, k in enumerate(param_kinds(e)) if k[0] == "target"]
            if not where:
                continue
            i = rng.choice(where)
            n = param_kinds(e)[i][1]
            m = rng.choice([max(n - 1, 0), n + 1, n + 1, 2 * n, n, 1])
            call["params"][i] = {"t": "vec", "v": [rng.choice(NUMS) for _ in range(m)]}
            if rng.random() < 0.25:      # the same, frozen
                call["e"] = {"op": "partial", "a": e, "ps": call["params"][i:]}
                call["params"] = call["params"][:i]
        if usable(call):
            out.append(call)
    return out


def call_of(rng, e):
    ks = kinds(e)
    return {"e": e, "prims": [rand_prim(rng, k) for k in ks],
            "params": [param_value(rng, k) for k in param_kinds(e)]}


def subexpressions(e):
    yield e
    for f in ("a", "b"):
        if f in e:
            yield from subexpressions(e[f])
    for k in e.get("kids", ()):
        yield from subexpressions(k["e"])


def usable(call):
    """Sizes are moderate; powers of angles are outside the exact reals"""
    e = call["e"]
    for x in subexpressions(e):
        if x["op"] in ("powc", "pows") and any(
                y.get("name") == "Angle" for y in subexpressions(x)):
            return False
    return len(call["prims"]) <= 24 and total(e) <= 60
