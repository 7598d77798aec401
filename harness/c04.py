"""C04 Positions share an unknown exactly when they are the same point"""
import itertools

import jax.numpy as jnp
import numpy as np

from . import tlc, trees
from .c07 import MyPoint
from .core import observe
from mpllayout import containers as cn
from mpllayout import primitives as pr

KINDS = {"P": pr.Point, "P'": MyPoint, "L": pr.Line, "G": pr.Polygon, "Q": pr.Quadrilateral,
         "A": pr.Axes, "N": pr.PrimitiveNode}
KIND_OF = {v: k for k, v in KINDS.items()}


def build(tree, points):
    """The real geometry of a specification tree; equal ids are one object"""
    kind = tree["kind"]
    if kind in ("P", "P'"):
        return points[tree["id"]]
    kids = [build(c["t"], points) for c in tree["ch"]]
    if kind == "L":
        return pr.Line(prims=tuple(kids))
    if kind in ("G", "Q"):
        corners = [points[c["t"]["ch"][0]["t"]["id"]] for c in tree["ch"]]
        return pr.Polygon(prims=corners) if kind == "G" else pr.Quadrilateral(None, corners)
    if kind == "A":
        names = [c["k"] for c in tree["ch"]]
        return pr.Axes(prims=tuple(kids), xaxis="XAxis" in names, yaxis="YAxis" in names,
                       twinx="TwinXAxis" in names, twiny="TwinYAxis" in names)
    return pr.PrimitiveNode(np.array(()), dict(zip([c["k"] for c in tree["ch"]], kids)))


def ints(v):
    v = np.asarray(v, dtype=float).ravel()
    return [int(x) if float(x).is_integer() else str(x) for x in v]


def listing(root):
    out = []

    def visit(path, n):
        keys = list(n.keys())
        kind = KIND_OF.get(type(n), type(n).__name__)
        out.append({"p": path, "kind": kind, "keys": keys, "v": ints(n.value)})
        for k in keys:
            visit(path + [k], n[k])

    visit([], root)
    return out


def extract(root):
    """Entries and values of the unknowns, paths as lists of names"""
    entry, values = pr.filter_unique_values_from_prim(root)
    return entry, values


def logged(entry, values):
    paths = [[k for k in key.split("/")[1:]] for key in entry]
    return ([{"p": p, "e": int(e)} for p, e in zip(paths, entry.values())],
            [ints(v) for v in values])


def rebuild(root, entry, new):
    return pr.build_prim_from_unique_values(cn.flatten("", root), entry, new)


def slices(values):
    """The values as parts of one long vector"""
    whole = np.concatenate([np.asarray(v, dtype=float) for v in values])
    bounds = np.cumsum([0] + [np.size(v) for v in values])
    return [whole[a:b] for a, b in zip(bounds, bounds[1:])]


def point_entries(root):
    """(path, entry, id of the object) of every point"""
    entry, values = extract(root)
    out = []
    for key, n in cn.iter_flat("", root):
        if isinstance(n, pr.Point):
            out.append((key, entry[key]))
    return out, entry, values


def flat_ids(tree, path=""):
    out = [(path, tree["kind"], tree["id"])]
    for c in tree["ch"]:
        out += flat_ids(c["t"], f"{path}/{c['k']}")
    return out


def check_enumerated(check, rows):
    rng = check.rng
    for row in rows:
        tree = row["tree"]
        # different points may well have the same coordinates
        same = rng.random() < 0.5
        points = {i: pr.Point((4.0, 5.0) if same else (10.0 * i, 1.0 - 3 * i)) for i in range(1, 4)}
        case = {"tree": [x for x in flat_ids(tree) if x[1] != "L"], "equal_coordinates": same}
        root = build(tree, points)
        before = listing(root)
        got = observe(extract, root)
        if not check.expect("extract", got[0] == "ok", case, "unknowns", got):
            continue
        entry, values = got[1]
        flat = flat_ids(tree)
        pts = [(p, i) for p, k, i in flat if k == "P"]
        ok = list(entry) == [p for p, _, _ in flat] and all(
            (entry[p] == entry[q]) == (i == j)
            for (p, i), (q, j) in itertools.combinations(pts, 2)) and all(
            np.array_equal(values[entry[p]], points[i].value) for p, i in pts) and \
            sum(np.size(v) for v in values) == 2 * len({i for _, i in pts}) and all(
            np.size(values[entry[p]]) == 0 for p, k, _ in flat if k != "P")
        if not check.expect("entries", ok, case, "same entry iff same point", entry):
            continue
        new = [np.array([100.0 + n, -float(n)]) if np.size(v) else np.array(()) for n, v in
               enumerate(values)]
        if rng.random() < 0.5:
            new = slices(new)
        got = observe(rebuild, root, entry, new)
        if not check.expect("rebuild", got[0] == "ok", case, "a geometry", got):
            continue
        other = got[1]
        want = [dict(x, v=ints(new[entry["/".join([""] + x["p"])]]) if x["kind"] == "P" else [])
                for x in before]
        check.expect("rebuilt", listing(other) == want, case, want, listing(other))
        check.expect("original", listing(root) == before, case, before, listing(root))
        again = observe(extract, other)
        ok = again[0] == "ok" and list(again[1][0]) == list(entry) and all(
            (again[1][0][p] == again[1][0][q]) == (i == j)
            for (p, i), (q, j) in itertools.combinations(pts, 2))
        check.expect("rebuilt-sharing", ok, case, entry, again)
        check.traces += 1
        check.count("enumerated", geometries=1)


class Recorder:
    """A random history of one process that builds and rebuilds geometries"""

    def __init__(self, rng, num_regs):
        self.rng = rng
        self.roots = [pr.PrimitiveNode(np.array(()), {}) for _ in range(num_regs)]
        self.objects = [{} for _ in range(num_regs)]     # id -> point object
        self.next_id = 1
        self.events = []
        self.names = 0
        self.arrays = [np.array([3.0, 4.0]), np.array([3, 4])]

    def point(self, reg):
        """A known point of the register or a new one"""
        rng, objs = self.rng, self.objects[reg]
        if objs and rng.random() < 0.5:
            return rng.choice(list(objs))
        i, self.next_id = self.next_id, self.next_id + 1
        what = rng.random()
        if what < 0.3:             # the same array, or equal coordinates, is not the same point
            v = rng.choice(self.arrays)
        elif what < 0.45:
            v = (3.0, 4.0)
        elif what < 0.55:
            v = jnp.array([3.0, float(i)])
        else:
            v = [float(rng.randint(-50, 50)), float(rng.randint(-50, 50))]
        objs[i] = (MyPoint if rng.random() < 0.15 else pr.Point)(v)
        return i

    def tree(self, reg, depth):
        rng = self.rng
        P = lambda: self.point_tree(reg)
        kind = rng.choice("PPLLLGQAN" if depth else "PPLLGQ")
        if kind == "P":
            return P()
        if kind == "L":
            return self.line(P(), P())
        if kind in "GQ":
            n = 4 if kind == "Q" else rng.randint(1, 7)
            return self.poly(kind, [P() for _ in range(n)])
        if kind == "A":
            x, y = rng.random() < 0.7, rng.random() < 0.7
            tx, ty = x and rng.random() < 0.5, y and rng.random() < 0.5
            names = ["Frame"] + ["XAxis", "XAxisLabel"] * x + ["YAxis", "YAxisLabel"] * y + \
                ["TwinXAxis", "TwinXAxisLabel"] * tx + ["TwinYAxis", "TwinYAxisLabel"] * ty
            return {"id": 0, "kind": "A", "ch": [
                {"k": k, "t": P() if "Label" in k else self.poly("Q", [P() for _ in range(4)])}
                for k in names]}
        return {"id": 0, "kind": "N", "ch": [
            {"k": k, "t": self.tree(reg, depth - 1)}
            for k in rng.sample(["a", "b", "Line0", "Point1", "z"], rng.randint(1, 3))]}

    def point_tree(self, reg):
        i = self.point(reg)
        return {"id": i, "kind": KIND_OF[type(self.objects[reg][i])], "ch": []}

    def line(self, a, b):
        return {"id": 0, "kind": "L", "ch": [{"k": "Point0", "t": a}, {"k": "Point1", "t": b}]}

    def poly(self, kind, ps):
        return {"id": 0, "kind": kind, "ch": [
            {"k": f"Line{n}", "t": self.line(p, ps[(n + 1) % len(ps)])} for n, p in enumerate(ps)]}

    def log(self, ev):
        ev["lists"] = [listing(r) for r in self.roots]
        self.events.append(ev)

    def step(self):
        rng = self.rng
        reg = rng.randrange(len(self.roots))
        op = rng.choice(["add", "add", "add", "extract", "rebuild", "rebuild", "poke"])
        root = self.roots[reg]
        if op == "add":
            if len(listing(root)) > 90:
                return
            known = [x["p"] for x in listing(root) if x["kind"] == "N"]
            path = rng.choice(known) + [f"p{self.names}"]
            self.names += 1
            if rng.random() < 0.1:
                path = ["missing"] + path
            t = self.tree(reg, 2)
            got = observe(root.add_child, "/".join(path), build(t, self.objects[reg]))
            ids = {i for _, k, i in flat_ids(t) if k in ("P", "P'")}
            self.log({"op": "add", "reg": reg + 1, "path": path, "sub": t, "ok": got[0] == "ok",
                      "points": [{"id": i, "v": ints(self.objects[reg][i].value)} for i in ids]})
            return
        if op == "poke":
            # a point that is moved in place moves in its own geometry only
            here = {id(n.value) for _, n in cn.iter_flat("", root) if isinstance(n, pr.Point)}
            ids = [i for i, o in self.objects[reg].items() if id(o.value) in here]
            if ids:
                i = rng.choice(ids)
                v = [rng.randint(-99, 99), rng.randint(-99, 99)]
                self.objects[reg][i].value[:] = v
                self.log({"op": "poke", "reg": reg + 1, "id": i, "v": v, "ok": True})
            return
        got = observe(extract, root)
        if got[0] != "ok":
            self.log({"op": "extract", "reg": reg + 1, "ok": False, "entries": [], "values": []})
            return
        entry, values = got[1]
        entries, vals = logged(entry, values)
        ev = {"op": op, "reg": reg + 1, "ok": True, "entries": entries, "values": vals}
        if op == "rebuild":
            to = rng.randrange(len(self.roots))
            new = [np.array([float(rng.randint(-999, 999)), float(rng.randint(-999, 999))])
                   if np.size(v) else np.array(()) for v in values]
            keep = rng.choice([0, 0, 0.5, 1])       # values that happen to stay the same
            new = [np.array(v) if rng.random() < keep else n for v, n in zip(values, new)]
            if rng.random() < 0.4:
                new = slices(new)
            got = observe(rebuild, root, entry, new)
            ev.update({"to": to + 1, "new": [ints(v) for v in new], "ok": got[0] == "ok"})
            if got[0] == "ok":
                # the points of the result, under the ids of the register it came from
                paths = {}
                for key, n in cn.iter_flat("", root):
                    if isinstance(n, pr.Point):
                        paths.setdefault(id(n.value), key)
                olds = dict(self.objects[reg])
                objs = {}
                for i, o in olds.items():
                    key = paths.get(id(o.value))
                    if key is not None:
                        objs[i] = got[1][key[1:]]
                self.roots[to] = got[1]
                self.objects[to] = objs
        self.log(ev)


def run(check):
    rng = check.rng
    quick = {"Pool": 3, "MaxPrims": 2, "QuadPool": 2}
    res = tlc.run("SharingCases", constants=quick, workers=8, timeout=800)
    check.tlc("enumerated", res)
    rows = res.rows
    if not check.thorough:
        rows = rng.sample(rows, min(len(rows), 2500))
    check.exhaustive.append("all geometries of two primitives over a pool of three points"
                            + ("" if check.thorough else " (specification; sampled in the code)"))
    check_enumerated(check, rows)
    traces = []
    for _ in range(check.pick(60, 500)):
        rec = Recorder(rng, 3)
        for _ in range(check.pick(14, 22)):
            rec.step()
        if rec.events:
            traces.append({"regs": 3, "events": rec.events})
    res = tlc.run("SharingTrace", data=traces, workers=8, timeout=800)
    check.tlc("recorded", res)
    check.traces += len(traces)
    check.calls += sum(len(t["events"]) for t in traces)
    if res.distinct < len(traces):
        raise tlc.MachineryError("traces were not consumed")
    for row in res.rows:
        evs = traces[row["tid"] - 1]["events"]
        ev = evs[row["l"] - 1]
        check.violation("trace-" + row["clause"],
                        {"trace": row["tid"], "event": row["l"],
                         "call": {k: v for k, v in ev.items() if k not in ("lists",)}},
                        row["expected"], ev["lists"])
    check.sample({"recorded": [{k: e.get(k) for k in ("op", "reg", "to", "path")}
                               for e in traces[0]["events"]]})
    check.assumptions.append("coordinates are integers; only points have coordinates")
