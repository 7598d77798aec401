"""C07 Constructions reject wrong primitives and parameters"""
import numpy as np

from . import algebra, geom, tlc
from .core import observe
from mpllayout import primitives as pr
from mpllayout import constructions as con
from mpllayout import constraints as cr
from mpllayout.layout import Layout


class MyPoint(pr.Point):
    """User-defined sub-kinds are as good as the kinds they derive from"""


class MyLine(pr.Line):
    pass


class MyQuad(pr.Quadrilateral):
    pass


def sub_kind(rng, cls):
    """A kind derived once or more often from a kind"""
    further = cls
    for _ in range(rng.choice([0, 0, 1, 1, 2, 5])):
        further = type("Further" + cls.__name__, (further,), {})
    return further


def primitive(rng, kind, n):
    """A generic, non-degenerate primitive of a kind; no half turns between lines"""
    x, y = 3 * n + rng.randint(-1, 1), 2 - n * n
    pts = [(x, y), (x + 2 + rng.randint(0, 2), y + rng.randint(0, 1)), (x + 3, y + 3), (x - 1, y + 2)]
    P = lambda i: pr.Point(pts[i])
    if kind == "N":
        return pr.PrimitiveNode(np.array(()), {"Point0": P(0), "Point1": P(1)})
    if kind in ("P", "P'"):
        return (pr.Point if kind == "P" else sub_kind(rng, MyPoint))(pts[0])
    if kind in ("L", "L'"):
        return (pr.Line if kind == "L" else sub_kind(rng, MyLine))(prims=(P(0), P(1)))
    if kind == "G":
        return pr.Polygon(prims=[P(i) for i in range(4)], size=4)
    if kind in ("Q", "Q'"):
        return (pr.Quadrilateral if kind == "Q" else sub_kind(rng, MyQuad))(None, [P(i) for i in range(4)])
    assert kind == "A"
    prims = []
    for m in range(5):
        q = primitive(rng, "Q", n + m)
        prims += [q] if m == 0 else [q, pr.Point((m, n))]
    return pr.Axes(prims=tuple(prims), xaxis=True, yaxis=True, twinx=True, twiny=True)


def instance(c, rng):
    """The configured construction of a catalogue entry"""
    if c["mod"] == "algebra":
        return algebra.build(c["e"], rng)
    mod = con if c["mod"] == "con" else cr
    cls, name, conf = getattr(mod, c["name"]), c["name"], c["conf"]
    twin = bool(conf) and conf[-1] == "twin"
    if name in ("OuterMargin", "InnerMargin", "CoincidentOutwardFaces"):
        return cls(side=conf[0])
    if name == "Margin":
        return cls(outer=conf[0] == "outer", side=conf[1])
    if name == "RectangleDim":
        return cls(dim=conf[0])
    if name == "AxisThickness":
        return cls(axis=conf[0])
    if name == "Align":
        return cls(row=conf[0] == "row")
    if name == "OuterMarginArray":
        return cls(side=conf[0], shape=(int(conf[1]),))
    if name in ("RectilinearGrid", "Grid"):
        return cls(shape=(int(conf[0]), int(conf[1])))
    if name == "PositionAxis":
        return cls(axis=conf[0], side=conf[1], twin=twin)
    if name in ("PositionXAxis", "PositionYAxis"):
        return cls(side=conf[0], twin=twin)
    if name == "PositionAxisLabel":
        return cls(axis=conf[0], twin=twin)
    if name in ("PositionXAxisLabel", "PositionYAxisLabel"):
        return cls(twin=twin)
    return cls()


def parameter(rng, k):
    if k == "dir":
        return np.array([1.0, rng.choice([-2.0, 0.0, 3.0])])
    if k == "vec2":
        return np.array([0.5, 2.0])
    if k == "bool":
        return rng.random() < 0.5
    if k == "none":
        return None
    if k.startswith("arr"):
        return np.array([1.0 + i for i in range(int(k[3:]))])
    if k == "exp":
        return 2.0
    if k == "target":
        return 1.5
    return rng.choice([1.0, 2.0, -1.5])


def sizes(c, prims, params):
    """(declared, returned) output size of a construction and of all its parts"""
    out = [(c.signature.value_size, int(np.size(c.assem_atleast_1d(prims, *params))))]
    keys = tuple(f"arg{n}" for n in range(len(prims)))
    root = pr.PrimitiveNode(np.array(()), dict(zip(keys, prims)))
    for kid, pk, ps in zip(c.values(), c.child_prim_keys(keys), c.child_params(tuple(params))):
        out += sizes(kid, tuple(root[k] for k in pk), ps)
    return out


def keys_of(layout):
    return [list(r.keys()) for r in (layout.root_constraint, layout.root_prim_keys,
                                     layout.root_param)]


def check_row(check, row, c, clause, n):
    rng = check.rng
    call, ok = row["call"], row["ok"]
    doc = call["c"]
    prims = tuple(primitive(rng, k, i) for i, k in enumerate(call["kinds"]))
    ps = [parameter(rng, k) for k in doc["ps"][:call["np"]]]
    ps += [1.0] * (call["np"] - len(ps))
    case = {"construction": doc["name"], "conf": doc["conf"], "module": doc["mod"],
            "e": doc["e"], "kinds": call["kinds"], "num_params": call["np"],
            "documented": [doc["kinds"], doc["ps"]]}
    got = observe(lambda: np.asarray(c(prims, *ps), dtype=float))
    check.expect(f"{clause}:call", got[0] == ("ok" if ok else "err"), case,
                 "a value" if ok else "an error", got)
    if ok and got[0] == "ok":
        size = observe(sizes, c, prims, tuple(ps))
        good = size[0] == "ok" and all(a == b for a, b in size[1]) and \
            got[1].size == sum(a for a, _ in size[1]) == algebra.declared(c)
        check.expect(f"{clause}:size", good, case, "returned sizes as declared", size)
    if n % 2 == 0 or ok:
        layout = Layout()
        names = [f"p{i}" for i in range(len(prims))]
        for name, p in zip(names, prims):
            layout.add_prim(p, name)
        layout.add_prim(pr.Point((1.0, 1.0)), "other")
        layout.add_constraint(con.Coordinate(), ("other",), ())
        before = keys_of(layout)
        got = observe(layout.add_constraint, c, tuple(names), tuple(ps), "c")
        check.expect(f"{clause}:layout", got[0] == ("ok" if ok else "err"), case,
                     "added" if ok else "rejected", got)
        after = keys_of(layout)
        want = [b + ["c"] for b in before] if ok else before
        check.expect(f"{clause}:layout-content", after == want, case, want, after)
    check.traces += 1


def user_functions(check):
    """User-defined compounds whose children get arguments they do not take"""
    rng = check.rng
    for kid, keys, ps, ok in [
        (con.Length(), ("arg0",), (), True),
        (con.Length(), ("arg0/Point0",), (), False),      # a point, not a line
        (con.Length(), ("arg0",), (1.0,), False),         # takes no parameter
        (con.Length(), ("arg0/Point7",), (), False),      # no such part
        (con.DirectedLength(), ("arg0",), (np.array([1.0, 0.0]),), True),
        (con.DirectedLength(), ("arg0",), (), False),
        (con.XDistance(), ("arg0/Point0", "arg0/Point1"), (), True),
        (con.XDistance(), ("arg0/Point0", "arg0"), (), False),
    ]:
        for depth in (0, 1, 2):
            def wrap(c, keys, ps):
                class User(con.StaticCompoundConstruction):
                    @classmethod
                    def init_children(cls):
                        return ("kid",), (c,), (keys,), lambda params: (ps,)

                    @classmethod
                    def init_signature(cls):
                        return con.ConstructionSignature((pr.Line,), (), 0)
                return User()
            c = wrap(kid, keys, ps)
            for _ in range(depth):
                c = wrap(c, ("arg0",), ())
            line = primitive(rng, "L", 1)
            case = {"child": type(kid).__name__, "keys": keys, "params": len(ps), "depth": depth}
            got = observe(lambda: np.asarray(c((line,))))
            check.expect("nested:call", got[0] == ("ok" if ok else "err"), case, ok, got)
            layout = Layout()
            layout.add_prim(line, "l")
            got = observe(layout.add_constraint, c, ("l",), (), "c")
            if got[0] == "ok" and not ok:
                # kinds and parts of nested arguments may be noticed on evaluation
                from mpllayout import solver
                got = observe(lambda: solver.assem_constraint_residual(
                    layout.root_prim, *layout.flat_constraints()))
            check.expect("nested:layout", got[0] == ("ok" if ok else "err"), case, ok, got)
            check.traces += 1
    # arrays of the wrong length are wrong numbers of parameters further down
    for shape in [(1, 2), (2, 3), (3, 2), (2, 2)]:
        quads = tuple(primitive(rng, "Q", i) for i in range(shape[0] * shape[1]))
        lens = (shape[1] - 1, shape[0] - 1, shape[1] - 1, shape[0] - 1)
        for i in range(-1, 4):
            for d in (1, -1):
                ls = [l + (d if i == j else 0) for j, l in enumerate(lens)]
                if min(ls) < 0:
                    continue
                got = observe(lambda: np.asarray(
                    cr.Grid(shape=shape)(quads, *(np.ones(l) for l in ls))))
                check.expect("grid-arrays", got[0] == ("ok" if i < 0 else "err"),
                             {"shape": shape, "lengths": ls}, "accepted iff " + str(lens), got)


def run(check):
    rng = check.rng
    res = tlc.run("Signatures")
    check.tlc("catalogue", res)
    check.exhaustive.append("every construction and constraint, every single change of an argument")
    made = {}
    rows = res.rows
    if not check.thorough:
        rows = [r for r in rows if r["ok"] or len(r["call"]["kinds"]) < 7 or rng.random() < 0.4]
    rng.shuffle(rows)
    for n, row in enumerate(rows):
        c = row["call"]["c"]
        key = (c["mod"], c["name"], str(c["conf"]))
        if key not in made:
            made[key] = observe(instance, c, rng)
            check.expect("construct", made[key][0] == "ok", {"construction": key},
                         "a construction", made[key])
        if made[key][0] == "ok":
            check_row(check, row, made[key][1], "library", n)
            check.count("catalogue", calls=1)
    check.sample(rows[0]["call"])
    data = []
    while len(data) < check.pick(40, 300):
        if len(data) % 3 == 2:
            e = algebra.user_compound(rng, depth=rng.choice([1, 2]), wide=rng.random() < 0.3,
                                      inner=lambda r: algebra.expr(r, 1, compounds=False))
        else:
            e = algebra.expr(rng, rng.choice([1, 1, 2, 3]))
        if algebra.total(e) <= 40 and len(algebra.kinds(e)) <= 16 and not {"C", "D"} & set(algebra.kinds(e)):
            data.append({"e": e})
    res = tlc.run("Signatures", constants={"FromData": "TRUE"}, data=data)
    check.tlc("derived", res)
    made = {}
    rows = res.rows if check.thorough else [
        r for r in res.rows if r["ok"] or rng.random() < 0.5]
    for n, row in enumerate(rows):
        key = row["call"]["c"]["name"]
        if key not in made:
            made[key] = observe(instance, row["call"]["c"], rng)
            check.expect("derived:construct", made[key][0] == "ok", {"e": row["call"]["c"]["e"]},
                         "a construction", made[key])
        if made[key][0] == "ok":
            check_row(check, row, made[key][1], "derived", n)
            check.count("derived", calls=1)
    check.sample(rows[-1]["call"])
    user_functions(check)
    check.assumptions.append("parameter types are not checked, only their number, as documented")
