"""C02 Flattening, copying and mapping a tree lose nothing"""
import itertools

import jax
import numpy as np

from . import tlc, trees
from .core import observe
from .c01 import validate
from mpllayout import containers as cn

VOCABULARIES = [
    {"b": "b", "a": "a", "k10": "k10", "k2": "k2"},
    {"b": "Line2", "a": "Line10", "k10": "Line1", "k2": "Line0"},
    {"b": "z", "a": "a b", "k10": "0", "k2": "Z"},
    {"b": "", "a": " ", "k10": "a", "k2": "b"},
]


#: values that are false, have no truth value or no equality
ODD = [None, 0, (), "", np.zeros(2), False, np.array(()), {}, float("nan"), [], np.ones((2, 2))]


def values_of(root):
    out = [root.value]
    for k in root.keys():
        out += values_of(root[k])
    return out


def strip(flat, kinds=True):
    return [{k: x[k] for k in (("p", "id", "kind", "keys") if kinds else ("p", "id", "keys"))}
            for x in flat]


def rename(flat, vocab):
    return [dict(x, p=[vocab[k] for k in x["p"]], keys=[vocab[k] for k in x["keys"]])
            for x in flat]


def retree(t, vocab, kinds):
    return {"id": t["id"], "kind": kinds.get(t["kind"], t["kind"]),
            "ch": [{"k": vocab[c["k"]], "t": retree(c["t"], vocab, kinds)} for c in t["ch"]]}


def list_paths(root):
    return [key for key, _ in cn.iter_flat("", root)]


def check_tree(check, tree, row, vocab, jit, array_values):
    """Compare every whole-tree operation with what the specification gives"""
    case = {"tree": tree, "values": "arrays" if array_values else "ints"}
    if array_values:
        val = lambda i: np.array([float(i), i + 0.5])
        ident = trees.ident_array
        root = trees.build(tree, value=val)
        full = lambda v: np.asarray(v).tolist()
        want_full = lambda i: [float(i), i + 0.5]
    else:
        ident = lambda v: v
        root = trees.build(tree)
        full = lambda v: v
        want_full = lambda i: i
    kind_by_path = {}

    def kinds_walk(t, p):
        kind_by_path[tuple(p)] = t["kind"]
        for c in t["ch"]:
            kinds_walk(c["t"], p + [c["k"]])

    kinds_walk(tree, [])
    flat = [dict(x, kind=kind_by_path[tuple(x["p"])]) for x in rename(row["flat"], vocab)]
    objects = {}

    def walk(n, p):
        objects[tuple(p)] = n
        for k in n.keys():
            walk(n[k], p + [k])

    walk(root, [])
    before = trees.listing(root, ident)
    check.expect("build", before == flat, case, flat, before)

    # depth-first listing under full paths, each node object once
    for rk in ("", "root"):
        got = observe(lambda: [(k, id(n)) for k, n in cn.iter_flat(rk, root)])
        want = [("/".join([rk] + x["p"]), id(objects[tuple(x["p"])])) for x in flat]
        check.expect("iter_flat", got == ("ok", want), case, [w[0] for w in want],
                     got if got[0] != "ok" else [g[0] for g in got[1]])
        got = observe(lambda: [
            (k, trees.KIND_OF.get(t, str(t)), full(v), list(c))
            for k, t, v, c in cn.flatten(rk, root)])
        want = [("/".join([rk] + x["p"]), x["kind"], want_full(x["id"]), x["keys"]) for x in flat]
        check.expect("flatten", got == ("ok", want), case, want, got)

    def same_tree(other, what, fresh=True):
        got = observe(trees.listing, other, ident)
        check.expect(what, got == ("ok", flat), case, flat, got)
        if fresh and got[0] == "ok":
            ids = {id(n) for n in objects.values()} | {id(n.children) for n in objects.values()}
            new = []
            walk_ids(other, new)
            shared = [i for i in new if i in ids]
            check.expect(what + "-independent", not shared, case, "no shared node", len(shared))
            fulls = []
            walk_values(other, fulls)
            check.expect(what + "-values", [full(v) for v in fulls] ==
                         [want_full(x["id"]) for x in flat], case)

    def walk_ids(n, out):
        out.append(id(n))
        out.append(id(n.children))
        for k in n.keys():
            walk_ids(n[k], out)

    def walk_values(n, out):
        out.append(n.value)
        for k in n.keys():
            walk_values(n[k], out)

    got = observe(lambda: cn.unflatten(cn.flatten("", root)))
    if check.expect("unflatten", got[0] == "ok" and len(got[1][1]) == 0, case, "no leftover", got):
        same_tree(got[1][0], "unflatten")
    # with unrelated structures behind, those are handed back untouched
    got = observe(lambda: cn.unflatten(cn.flatten("", root) + [("x", cn.Node, 1, [])]))
    check.expect("unflatten-leftover", got[0] == "ok" and len(got[1][1]) == 1
                 and got[1][1][0][0] == "x", case, 1, got)
    got = observe(root.copy)
    if check.expect("copy", got[0] == "ok", case, "a copy", got):
        same_tree(got[1], "copy")
    if all(x["kind"] in trees.PYTREE_KINDS for x in flat):
        def round_trip():
            leaves, structure = jax.tree_util.tree_flatten(root)
            return jax.tree_util.tree_unflatten(structure, leaves), leaves
        got = observe(round_trip)
        if check.expect("pytree", got[0] == "ok", case, "a tree", got):
            same_tree(got[1][0], "pytree")
            check.expect("pytree-leaves", len(got[1][1]) == len(flat), case,
                         len(flat), len(got[1][1]))
        got = observe(lambda: jax.tree_util.tree_map(lambda v: v, root))
        if check.expect("pytree-map", got[0] == "ok", case, "a tree", got):
            same_tree(got[1], "pytree-map")
        if jit:
            got = observe(lambda: jax.jit(lambda t: t)(root))
            if check.expect("jit", got[0] == "ok", case, "a tree", got):
                same_tree(got[1], "jit", fresh=False)

    # mapping: exactly one call per value
    calls = []

    def inc(v):
        calls.append(ident(v))
        return ident(v) + 100

    got = observe(lambda: strip(trees.listing(cn.map(inc, root)), kinds=False))
    want = strip(rename(row["mapped"], vocab), kinds=False)
    check.expect("map", got == ("ok", want), case, want, got)
    # whatever the values are, also for copies and rebuilt trees
    odd = [ODD[x["id"] % len(ODD)] for x in flat]
    root2 = trees.build(tree, value=lambda i: ODD[i % len(ODD)])
    seen = []
    got = observe(lambda: values_of(cn.map(lambda v: seen.append(v) or len(seen), root2)))
    check.expect("map-odd-values", got[0] == "ok" and sorted(got[1]) == list(range(1, len(flat) + 1))
                 and len(seen) == len(flat) and all(any(s is v for s in seen) for v in odd),
                 case, len(flat), [got, len(seen)])
    for what, op in (("copy", lambda: root2.copy()),
                     ("unflatten", lambda: cn.unflatten(cn.flatten("", root2))[0]),
                     ("map", lambda: cn.map(lambda v: v, root2))):
        got = observe(lambda: values_of(op()))
        check.expect(f"{what}-odd-values", got[0] == "ok" and len(got[1]) == len(odd) and
                     all(repr(a) == repr(b) for a, b in zip(got[1], odd)), case, odd, got)
    check.expect("map-calls", sorted(calls) == sorted(x["id"] for x in flat), case,
                 sorted(x["id"] for x in flat), sorted(calls))
    # accumulation (concatenation shows the order)
    got = observe(lambda: strip(trees.listing(
        cn.accumulate(lambda x, y: x + y, cn.map(lambda v: [ident(v)], root), [])), kinds=False))
    want = strip(rename(row["acc"], vocab), kinds=False)
    check.expect("accumulate", got == ("ok", want), case, want, got)
    got = observe(lambda: strip(trees.listing(
        cn.accumulate(lambda x, y: x + y, cn.map(ident, root), 0)), kinds=False))
    want = [dict(x, id=sum(x["id"])) for x in strip(rename(row["acc"], vocab), kinds=False)]
    check.expect("accumulate-sum", got == ("ok", want), case, want, got)
    got = observe(root.node_height)
    check.expect("height", got == ("ok", row["height"]), case, row["height"], got)
    after = trees.listing(root, ident)
    check.expect("unchanged", after == before, case, before, after)
    check.traces += 1


NAMES = ["x", "b", "a", "Line0", "Line1", "Line10", "Line2", "Z", "k"] + [f"c{i}" for i in range(12)]


def random_tree(rng, kinds, size):
    ids = itertools.count()

    def grow(budget):
        t = {"id": next(ids), "kind": rng.choice(kinds), "ch": []}
        budget -= 1
        names = rng.sample(NAMES, min(len(NAMES), rng.choice([1, 2, 3, 5, 12])))
        for n in names:
            if budget <= 0:
                break
            m = rng.randint(1, max(1, budget // 2))
            c, used = grow(m)
            t["ch"].append({"k": n, "t": c})
            budget -= used
        return t, count(t)

    def count(t):
        return 1 + sum(count(c["t"]) for c in t["ch"])

    return grow(size)[0]


def listed(root):
    got = observe(trees.listing, root)
    return got[1] if got[0] == "ok" else []


def random_trace(rng, num):
    """Copies, rebuilt trees and mutations on three registers"""
    kinds = ["N", "S", "K", "P", "R"]
    n0 = itertools.count(1000)
    regs = [random_tree(rng, kinds, rng.randint(1, 8)) for _ in range(3)]
    init = [dict(t) for t in regs]
    real = [trees.build(t) for t in regs]
    events = []
    for _ in range(num):
        r = rng.randrange(3)
        known = [x["p"] for x in trees.listing(real[r])]
        base = rng.choice(known)
        op = rng.choice(["add", "set", "copy", "copysub", "roundtrip", "add", "set"])
        ev = {"op": op, "reg": r + 1, "path": base, "to": rng.randrange(3) + 1}
        if op == "add":
            ev["path"] = base + [rng.choice(NAMES)]
        elif op == "set":
            ev["path"] = base or [rng.choice(NAMES)]
        if op in ("add", "set"):
            ev["sub"] = {"id": next(n0), "kind": rng.choice(kinds), "ch": []}
            child = trees.build(ev["sub"])
            text = "/".join(ev["path"])
            if op == "add":
                got = observe(real[r].add_child, text, child)
            else:
                got = observe(real[r].__setitem__, text, child)
        elif op == "copy":
            got = observe(real[r].copy)
        elif op == "copysub":
            got = observe(lambda: (real[r]["/".join(base)] if base else real[r]).copy())
        else:
            got = observe(lambda: cn.unflatten(cn.flatten("", real[r]))[0])
        ev["ok"] = got[0] == "ok"
        if op in ("copy", "copysub", "roundtrip") and ev["ok"]:
            real[ev["to"] - 1] = got[1]
        ev["flats"] = [listed(t) for t in real]
        ev["heights"] = [t.node_height() if len(f) else -1 for t, f in zip(real, ev["flats"])]
        events.append(ev)
        if not all(0 < len(f) < 500 for f in ev["flats"]):
            break               # cannot be right
    return {"init": init, "events": events}


def run(check):
    # exhaustive small trees
    for kinds, names, size in (
        ('{"N"}', '{"b", "a", "k10", "k2"}', 4),
        ('{"N"}', '{"b", "a", "k10"}', check.pick(5, 6)),
        ('{"N", "P"}', '{"b", "a", "k10"}', check.pick(3, 4)),
    ):
        res = tlc.run("TreeShapes", constants={"Kinds": kinds, "Names": names, "MaxSize": size})
        check.tlc(f"shapes-{kinds}-{size}", res)
        rows = res.rows
        if size >= 5 and not check.thorough:
            rows = check.rng.sample(rows, 200)
        else:
            check.exhaustive.append(f"all trees with at most {size} nodes, kinds {kinds}")
        for i, row in enumerate(rows):
            vocab = VOCABULARIES[i % len(VOCABULARIES)]
            swap = [{}, {"N": "P"}, {"N": "S"}, {"N": "K", "P": "R"}, {"N": "T", "P": "Q"}][i % 5]
            tree = retree(row["tree"], vocab, swap)
            check_tree(check, tree, row, vocab, jit=i % check.pick(25, 10) == 0,
                       array_values=i % 2 == 0)
            if i == 40:
                check.sample({"tree": tree, "flat": row["flat"]})
    # larger random trees, evaluated by the specification
    data = [random_tree(check.rng, check.rng.choice([list(trees.KINDS), trees.PYTREE_KINDS]),
                        check.rng.randint(5, 30))
            for _ in range(check.pick(60, 600))]
    res = tlc.run("TreeShapes", constants={"FromData": "TRUE"}, data=data)
    check.tlc("random-trees", res)
    identity = {n: n for n in NAMES}
    for i, row in enumerate(res.rows):
        check_tree(check, row["tree"], row, identity, jit=i % 12 == 0, array_values=i % 2 == 0)
    # histories with copies
    traces = [random_trace(check.rng, check.pick(20, 40)) for _ in range(check.pick(40, 300))]
    validate(check, "copy-histories", traces)
    check.sample({"recorded": [{k: v for k, v in e.items() if k in ("op", "reg", "to", "path", "ok")}
                               for e in traces[0]["events"][:6]]})
