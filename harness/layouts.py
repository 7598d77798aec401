"""
Recorded histories of real layouts, validated by spec/LayoutTrace.tla.
"""
import json

import numpy as np

from . import algebra, geom, tlc
from .core import observe
from mpllayout import constraints as cr
from mpllayout import constructions as con
from mpllayout import solver
from mpllayout import primitives as pr
from mpllayout.containers import ItemCounter
from mpllayout.layout import Layout

# constraints of the library with the value of constraint(leaf)
LIBRARY = {
    "Coordinate": ["Fix"], "DirectedDistance": ["DirectedDistance"], "XDistance": ["XDistance"],
    "YDistance": ["YDistance"], "Length": ["Length"], "DirectedLength": ["DirectedLength"],
    "XLength": ["XLength"], "YLength": ["YLength"], "MidpointXDistance": ["MidpointXDistance"],
    "MidpointYDistance": ["MidpointYDistance"],
    "MidpointDirectedDistance": ["MidpointDirectedDistance"],
    "PointOnLineDistance": ["PointOnLineDistance"], "Width": ["Width"], "Height": ["Height"],
    "AspectRatio": ["AspectRatio"], "OuterMargin": ["OuterMargin"],
    "InnerMargin": ["InnerMargin"],
}


def build_constraint(e, rng):
    """The real constraint of an expression, by the library where it has one"""
    if e["op"] == "constraint" and e["a"]["op"] == "leaf" and rng.random() < 0.7:
        leaf = e["a"]
        for name in LIBRARY.get(leaf["name"], []):
            cls = getattr(cr, name, None)
            if cls is not None:
                return cls(side=leaf["side"]) if leaf["name"].endswith("Margin") else cls()
    return algebra.build(e, rng)


def key_paths(node):
    return [[k, key_paths(node[k])] for k in node.keys()]


def same_param(a, b):
    if a is b:
        return True
    try:
        return bool(np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float)))
    except Exception:
        return False


def same_params(a, b):
    try:
        return len(a) == len(b) and all(same_param(x, y) for x, y in zip(a, b))
    except TypeError:
        return False


class Recorder:
    """A real layout and the record of what was done to it"""

    def __init__(self, rng=None):
        self.layout = Layout()
        if rng is not None and rng.random() < 0.5:
            # from empty trees of the user, whose own values mean nothing
            value = lambda: rng.choice([None, (), 0, np.array(())])
            self.layout = Layout(
                root_prim=pr.PrimitiveNode(np.array(()), {}),
                root_constraint=cr.ConstraintNode.from_tree(value(), {}),
                root_prim_keys=con.PrimKeysNode(value(), {}),
                root_param=con.ParamsNode(value(), {}))
        self.events = []
        self.attempts = []      # (id, key, constraint, params)
        self.values = {}        # event number: residual
        self.prims = {}

    def observe_layout(self, event):
        lay = self.layout
        event["primkeys"] = list(lay.root_prim.keys())
        event["keys"] = list(lay.root_constraint.keys())
        event["keykeys"] = list(lay.root_prim_keys.keys())
        event["parkeys"] = list(lay.root_param.keys())
        stored = []
        for k in event["keys"]:
            tries = [a for a in self.attempts if a[1] == k]
            c = lay.root_constraint[k]
            ids = [a[0] for a in tries if a[2] is c]
            args, params = [], []
            if k in event["keykeys"]:
                try:
                    args = [str(x).split("/") for x in lay.root_prim_keys[k].value]
                except TypeError:
                    args = []
            if k in event["parkeys"]:
                v = lay.root_param[k].value
                params = [a[0] for a in tries if same_params(a[3], v)]
            stored.append({"ids": ids, "args": args, "params": params})
        event["stored"] = stored
        paths = [key_paths(n) for n in (lay.root_constraint, lay.root_prim_keys, lay.root_param)]
        event["nested"] = paths[0] == paths[1] == paths[2]
        self.events.append(event)

    def add_prim(self, name, kind, v):
        got = observe(self.layout.add_prim, algebra.prim(kind, v), name)
        if got[0] == "ok":
            self.prims[name] = (kind, v)
        self.observe_layout({"op": "prim", "name": name, "kind": kind, "v": v,
                             "ok": got[0] == "ok"})

    def add_prims(self, new):
        """Several at once, in a given order"""
        real = {name: algebra.prim(kind, v) for name, kind, v in new}
        got = observe(self.layout.add_prims, real)
        if got[0] == "ok":
            self.prims.update({name: (kind, v) for name, kind, v in new})
        self.observe_layout({"op": "prims", "ok": got[0] == "ok",
                             "new": [{"name": n, "kind": k, "v": v} for n, k, v in new]})

    def add_con(self, e, c, args, params, key="", prefixes=(), form="float"):
        n = len(self.attempts)
        real = tuple(algebra.param(p, form) for p in params)
        before = list(self.layout.root_constraint.keys())
        prim_keys = tuple("/".join(a) for a in args)
        if key:
            self.attempts.append((n, key, c, real))
            got = observe(self.layout.add_constraint, c, prim_keys, real, key)
        else:
            got = observe(self.layout.add_constraint, c, prim_keys, real)
        new = [k for k in self.layout.root_constraint.keys() if k not in before]
        name = new[-1] if new else ""
        if not key:
            self.attempts.append((n, name, c, real))
        self.observe_layout({
            "op": "con", "e": e, "args": args, "params": params, "key": key, "got": name,
            "prefixes": [type(c).__name__, *prefixes], "id": n, "ok": got[0] == "ok"})
        return got

    def rebuild(self, rng=None):
        lay = self.layout
        args = (lay.root_prim, lay.root_constraint, lay.root_prim_keys, lay.root_param)
        if rng is not None and rng.random() < 0.5:
            got = observe(Layout, root_param=args[3], root_prim=args[0], root_prim_keys=args[2],
                          root_constraint=args[1], constraint_counter=ItemCounter())
        else:
            got = observe(Layout, *args)
        if got[0] == "ok":
            self.layout = got[1]
        self.observe_layout({"op": "rebuild", "ok": got[0] == "ok"})

    def evaluate(self):
        def residual():
            flat = self.layout.flat_constraints()
            res = solver.assem_constraint_residual(self.layout.root_prim, *flat)
            return np.concatenate([np.asarray(v, dtype=float).ravel() for v in res]
                                  or [np.zeros(0)])
        got = observe(residual)
        self.values[len(self.events) + 1] = got[1]
        self.observe_layout({"op": "eval", "ok": got[0] == "ok"})

    def trace(self):
        return {"events": self.events}


def validate(check, part, recorders, clauses=None, chunk=400):
    """Let TLC judge the recorded histories"""
    for i in range(0, len(recorders), chunk):
        batch = recorders[i:i + chunk]
        res = tlc.run("LayoutTrace", data=[r.trace() for r in batch], workers=8)
        check.tlc(part, res)
        bad = set()
        for row in res.rows:
            rec = batch[row["tid"] - 1]
            l = row["l"]
            if row["clause"] == "ok":
                got = rec.values.get(l)
                ok, want = (algebra.compare(row["value"], got)
                            if got is not None and not isinstance(got, str) else (False, None))
                check.expect("value", ok, {"history": rec.events[:l]}, want, got)
                check.count(part, evaluations=1)
            else:
                bad.add(row["tid"])
                if clauses is None or row["clause"] in clauses:
                    check.violation(row["clause"], {"history": rec.events[:l], "event": l},
                                    row["expected"] if row["clause"] != "outcome"
                                    else row["okspec"], rec.events[l - 1])
        check.traces += len(batch)
        check.calls += sum(len(r.events) for r in batch)
        check.count(part, histories=len(batch), events=sum(len(r.events) for r in batch))
        for r in batch[:1]:
            check.sample([{k: e.get(k) for k in ("op", "key", "got", "ok", "name", "args")}
                          for e in r.events])


# -- random histories -----------------------------------------------------------------

KINDS = "PLQAPLQACD"
NAMES = ["a", "b10", "b2", "SumConstruction0", "SumConstruction1", "User0", "Map0", "Box0",
         "Coordinate0", "z", "0", "User1", "UserNode0"]
PRIMS = ["", "p", "Axes1", "Axes10", "q 1", "Line0", "Frame", "r", "s", "arg0", "arg1"]


def paths_of(rec, kind):
    return [[name] + path for name, (k, _v) in rec.prims.items()
            for path in algebra.PATHS[k].get(kind, [])]


def some_expr(rng, deep):
    r = rng.random()
    if r < 0.3:
        name = rng.choice(sorted(LIBRARY))
        return {"op": "constraint", "a": algebra.leaf(rng, name)}
    if r < 0.65:
        return algebra.user_compound(rng, rng.randint(0, deep), wide=rng.random() < 0.35,
                                     inner=lambda g: algebra.expr(g, g.randint(0, 1)))
    return algebra.expr(rng, rng.randint(0, deep))


def compounds(e):
    out = []
    if e["op"] == "compound":
        if e["kids"]:
            out.append(e)
        for k in e["kids"]:
            out += compounds(k["e"])
    else:
        for f in ("a", "b"):
            if f in e:
                out += compounds(e[f])
    return out


SEPARATORS = ["", "_", ",", " ", "-", ".", ":", "|", "/".replace("/", "\\")]


def confusable_history(rng):
    """
    One constraint added for every pair of primitives, whose names make the same text when
    they are joined in different ways
    """
    rec = Recorder(rng)
    s = rng.choice(SEPARATORS)
    a, b = rng.sample(["a", "b", "Point", "1", "p0", "arg0", "arg1"], 2)
    names = [a, a + s + a, b, a + s + b, b + s + a]
    rng.shuffle(names)
    kind = rng.choice("PL")
    for name in dict.fromkeys(names):
        rec.add_prim(name, kind, algebra.rand_prim(rng, kind))
    two = {"P": ["XDistance", "YDistance", "DirectedDistance"],
           "L": ["MidpointXDistance", "MidpointYDistance"]}[kind]
    e = algebra.leaf(rng, rng.choice(two))
    if rng.random() < 0.5:
        e = {"op": "constraint", "a": e}
    c = build_constraint(e, rng)
    pairs = [(p, q) for p in rec.prims for q in rec.prims if p != q]
    rng.shuffle(pairs)
    for pair in pairs[:20]:
        params = [algebra.param_value(rng, k) for k in algebra.param_kinds(e)]
        rec.add_con(e, c, [[n] for n in pair], params)
        if rng.random() < 0.1:
            rec.rebuild(rng)
    rec.evaluate()
    return rec


def random_history(rng, length, deep=2, evals=2):
    rec = Recorder(rng)
    first = [(name, kind, algebra.rand_prim(rng, kind))
             for name in rng.sample(PRIMS, rng.randint(2, 4)) for kind in rng.choice(KINDS)]
    if rng.random() < 0.3:
        rec.add_prims(first)
    else:
        for args in first:
            rec.add_prim(*args)
    made = []       # constraints already made, to be added again
    while len(rec.events) < length:
        r = rng.random()
        if r < 0.08:
            kind = rng.choice(KINDS)
            rec.add_prim(rng.choice(PRIMS), kind, algebra.rand_prim(rng, kind))
            continue
        if r < 0.14:
            rec.rebuild(rng)
            continue
        if made and rng.random() < 0.15:
            e, c = rng.choice(made)
        else:
            e, c = some_expr(rng, deep), None
        need = algebra.kinds(e)
        if algebra.total(e) > 40 or len(need) > 16:
            continue
        why = ""
        if c is None and rng.random() < 0.2 and compounds(e):
            e = json.loads(json.dumps(e))
            kid = rng.choice(rng.choice(compounds(e))["kids"])
            if kid["params"] and rng.random() < 0.5:
                kid["params"].pop()
            else:
                kid["params"].append({"s": "const", "p": {"t": "num", "v": [1, 2]}})
            why = "nested"
        if c is None:
            got = observe(build_constraint, e, rng)
            if got[0] != "ok":
                continue    # constructing is the subject of C07-C09
            c = got[1]
            if not why:
                made.append((e, c))
        args = []
        for k in need:
            options = paths_of(rec, k)
            if not options:
                break
            args.append(rng.choice(options))
        if len(args) < len(need):
            continue
        params = [algebra.param_value(rng, k) for k in algebra.param_kinds(e)]
        key = "" if rng.random() < 0.6 else rng.choice(NAMES)
        if not why and rng.random() < 0.4:
            why = rng.choice(["prim", "part", "kind", "nargs", "params", "name", "name"])
            if why in ("prim", "part", "kind") and not args:
                why = "nargs"
            n = rng.randrange(len(args)) if args else 0
            if why == "kind" and need[n] in "CD":
                why = "part"    # any primitive has the common type of primitives
            if why == "prim":
                args[n] = ["nobody"] + args[n][1:]
            elif why == "part":
                args[n] = args[n] + [rng.choice(["Point7", "Line9", "none"])]
            elif why == "kind":
                others = [p for k in "PLQACD" if k != need[n] for p in paths_of(rec, k)]
                args[n] = rng.choice(others or [["nobody"]])
            elif why == "nargs":
                if args and rng.random() < 0.5:
                    args.pop(n)
                else:
                    args.append(rng.choice(paths_of(rec, rng.choice("PL")) or [["p"]]))
            elif why == "params":
                if params and rng.random() < 0.5:
                    params.pop()
                else:
                    params.append({"t": "num", "v": [3, 2]})
            elif why == "name":
                used = list(rec.layout.root_constraint.keys())
                if used:
                    key = rng.choice(used)
        rec.add_con(e, c, args, params, key, form=rng.choice(["float", "float", "int", "np"]))
        if rng.random() < evals / length:
            rec.evaluate()
    rec.evaluate()
    return rec
