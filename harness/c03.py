"""C03 A primitive is well formed or it is rejected"""
import jax.numpy as jnp
import numpy as np

from . import tlc
from .c07 import MyLine, MyPoint, MyQuad
from .core import observe
from mpllayout import primitives as pr


class U0(pr.StaticPrimitive):
    """Three numbers"""
    signature = (3, ())

    @classmethod
    def init_children(cls, prims):
        return tuple(f"c{i + 1}" for i in range(len(prims))), prims

    @classmethod
    def default_value(cls):
        return np.array([1.0, 2.0, 3.0])

    @classmethod
    def default_prims(cls):
        return ()


class U1(U0):
    """A circle: centre and radius"""
    signature = (1, (pr.Point,))


class U2(U0):
    """Pairs of a point and a line"""
    signature = (0, (pr.Point, pr.Line, ...))


class U3(U0):
    """Alternatives"""
    signature = (0, {(pr.Point,), (pr.Line, pr.Quadrilateral)})


CLASSES = {"P": pr.Point, "L": pr.Line, "G": pr.Polygon, "Q": pr.Quadrilateral, "A": pr.Axes,
           "N": pr.PrimitiveNode, "P'": MyPoint, "L'": MyLine, "Q'": MyQuad,
           "U0": U0, "U1": U1, "U2": U2, "U3": U3}


def part(kind, n, rng):
    """The object supplied as a part"""
    P = lambda i: pr.Point((n + 0.25 * i, 3.0 * i - n * n + rng.random()))
    if kind in ("P", "P'"):
        return CLASSES[kind]((float(n), rng.random()))
    if kind in ("L", "L'"):
        return CLASSES[kind](prims=(P(0), P(1)))
    if kind == "G":
        return pr.Polygon(prims=[P(i) for i in range(4)])
    if kind in ("Q", "Q'"):
        return CLASSES[kind](None, [P(i) for i in range(4)])
    if kind == "A":
        return pr.Axes(prims=(part("Q", n, rng),))
    if kind == "N":
        return pr.PrimitiveNode(np.array(()), {"a": P(0)})
    return rng.choice([1.0, "Point", (0.0, 1.0), np.array([0.0, 1.0]), pr.Point, {}])


def value(shape, form, rng):
    if not shape:
        return None
    v = np.array([rng.uniform(-9, 9) for _ in range(int(np.prod(shape)))])
    if v.size > 2 and rng.random() < 0.4:       # trailing zeros count
        v[rng.choice([1, 2]):] = rng.choice([0.0, 0.0, v[0]])
    v = v.reshape(shape)
    if form == "list":
        return v.tolist()
    if form == "tuple":
        return tuple(v.tolist()) if len(shape) == 1 else tuple(map(tuple, v.tolist()))
    if form == "jnp":
        return jnp.asarray(v)
    return v


def construct(q, val, parts, container):
    kind, flags = q["kind"], q["flags"]
    prims = None if q["dflt"] else container(parts)
    if kind == "N":
        return pr.PrimitiveNode(np.asarray(val, dtype=float),
                                {f"c{i + 1}": p for i, p in enumerate(parts)})
    if kind == "Q":
        return pr.Quadrilateral(val, prims)
    if kind == "G":
        if q["dflt"]:
            return pr.Polygon(val, size=q["size"])
        return pr.Polygon(val, prims)
    if kind == "A":
        return pr.Axes(val, prims, xaxis=flags["x"], yaxis=flags["y"], twinx=flags["tx"],
                       twiny=flags["ty"])
    return CLASSES[kind](val, prims)


def values_in(p):
    """All coordinates in a primitive, depth first"""
    return [np.array(p.value).tolist()] + [v for c in p.values() for v in values_in(c)] \
        if isinstance(p, pr.PrimitiveNode) else []


def wrong_part(prim, row, objs, snapshot):
    """The first thing about the parts of a primitive that is not as specified"""
    by_id = {}
    children = {(): []}
    for p in row["parts"]:
        path = tuple(p["path"])
        children[path[:-1]].append(path[-1])
        if p["id"] == 0:
            children[path] = []
    for p in row["parts"]:
        got = observe(lambda: prim["/".join(p["path"])])
        if got[0] != "ok":
            return [p["path"], "missing"]
        node = got[1]
        if p["id"] == 0:
            if type(node) is not CLASSES[p["kind"]]:
                return [p["path"], type(node).__name__]
        elif p["id"] < 1000:
            if node is not objs[p["id"]]:
                return [p["path"], "not the object that was supplied"]
            if values_in(node) != snapshot[p["id"]]:
                return [p["path"], "geometry changed"]
        else:
            if not isinstance(node, pr.Point) or np.shape(node.value) != (2,):
                return [p["path"], "not a point"]
            if by_id.setdefault(p["id"], node) is not node:
                return [p["path"], "not the same point"]
    if len({id(v) for v in by_id.values()}) != len(by_id):
        return ["", "points coincide"]
    for path, names in children.items():
        node = prim["/".join(path)] if path else prim
        if list(node.keys()) != names or len(node) != len(names):
            return [path, list(node.keys())]
        if path and np.size(node.value) != 0:
            return [path, "value"]
    return None


def sides_ok(q):
    """A default quadrilateral is a box with sides bottom, right, top, left"""
    ends = [[q[f"Line{i}"][f"Point{j}"].value for j in (0, 1)] for i in range(4)]
    xs = [p[0] for s in ends for p in s]
    ys = [p[1] for s in ends for p in s]
    return (all(p[1] == min(ys) for p in ends[0]) and all(p[0] == max(xs) for p in ends[1])
            and all(p[1] == max(ys) for p in ends[2]) and all(p[0] == min(xs) for p in ends[3])
            and max(xs) > min(xs) and max(ys) > min(ys))


def check_rows(check, part_name, rows):
    rng = check.rng
    for n, row in enumerate(rows):
        q = row["req"]
        forms = ["list", "tuple", "np", "jnp"]
        for form in ([forms[n % 4]] if len(rows) > 3000 or len(q["shape"]) != 1 else forms[n % 2::2]):
            objs = {}
            for p in q["parts"]:
                if p["id"] not in objs:
                    objs[p["id"]] = part(p["k"], p["id"], rng)
            parts = [objs[p["id"]] for p in q["parts"]]
            snapshot = {i: values_in(o) for i, o in objs.items()}
            val = value(q["shape"], form, rng)
            container = rng.choice([list, tuple]) if q["kind"] in ("G", "Q") else tuple
            case = {"request": q, "form": form}
            got = observe(construct, q, val, parts, container)
            if not row["ok"]:
                check.expect("rejected", got[0] == "err", case, "an error",
                             (got[0], got[1] if got[0] == "err" else list(got[1].keys())))
                continue
            if not check.expect("accepted", got[0] == "ok", case, "a primitive", got):
                continue
            prim = got[1]
            bad = wrong_part(prim, row, objs, snapshot)
            check.expect("parts", bad is None, case, row["parts"], bad)
            check.expect("kind", type(prim) is CLASSES[q["kind"]], case, q["kind"], type(prim).__name__)
            ok = np.shape(prim.value) == (row["size"],) and (
                val is None or np.asarray(prim.value).tolist() == np.asarray(val).tolist())
            check.expect("value", ok, case, val, prim.value)
            if q["dflt"] and q["kind"] in ("Q", "A") and bad is None:
                quads = [prim] if q["kind"] == "Q" else [
                    c for c in prim.values() if isinstance(c, pr.Quadrilateral)]
                check.expect("default-sides", all(sides_ok(x) for x in quads), case)
            check.traces += 1
            check.count(part_name, constructed=1)


def random_request(rng):
    flags = {"x": False, "y": False, "tx": False, "ty": False}
    kind = rng.choice(["G", "G", "Q", "A", "A", "N", "U2", "L"])
    if kind == "A":
        flags["x"], flags["y"] = rng.random() < 0.7, rng.random() < 0.7
        flags["tx"] = flags["x"] and rng.random() < 0.6
        flags["ty"] = flags["y"] and rng.random() < 0.6
        ks = ["Q"] + ["Q", "P"] * sum(flags.values())
    else:
        n = rng.choice([1, 2, 3, 5, 8, 13, 40])
        ks = {"G": ["P"] * n, "Q": ["P"] * 4, "L": ["P"] * 2, "U2": ["P", "L"] * n,
              "N": [rng.choice("PLGQAN") for _ in range(n)]}[kind]
    sub = {"P": "P'", "L": "L'", "Q": "Q'"}
    ks = [sub[k] if k in sub and rng.random() < 0.2 else k for k in ks]
    if rng.random() < 0.5:
        i = rng.randrange(len(ks))
        what = rng.random()
        if what < 0.4:
            ks[i] = rng.choice(["N", "P", "L", "G", "Q", "A", "X", "P'", "L'", "Q'"])
        elif what < 0.7:
            del ks[i]
        else:
            ks.insert(i, rng.choice(["P", "L", "Q", "X", "A"]))
    parts = [{"k": k, "id": i + 1} for i, k in enumerate(ks)]
    if parts and rng.random() < 0.3:     # one object at two places
        i, j = rng.randrange(len(parts)), rng.randrange(len(parts))
        if parts[i]["k"] == parts[j]["k"]:
            parts[i]["id"] = parts[j]["id"]
    return {"kind": kind, "shape": [0], "parts": parts, "dflt": False, "flags": flags, "size": 4}


def run(check):
    res = tlc.run("Primitives", constants={"MaxPoly": check.pick(6, 12)})
    check.tlc("enumerated", res)
    check.exhaustive.append("every kind and axes flag combination, every single change of a part,"
                            " every value shape")
    check_rows(check, "enumerated", res.rows)
    check.sample(res.rows[len(res.rows) // 2]["req"])
    data = [random_request(check.rng) for _ in range(check.pick(300, 3000))]
    res = tlc.run("Primitives", constants={"FromData": "TRUE"}, data=data)
    check.tlc("random", res)
    check_rows(check, "random", res.rows)
    check.sample(res.rows[0]["req"])
    check.assumptions.append("a twin is requested together with its axis; parts are passed as a"
                             " sequence of the documented type")
