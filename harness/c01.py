"""C01 Slash-separated paths address an ordered nested map"""
import itertools

from . import tlc, trees
from .core import observe
from mpllayout import containers as cn

# The specification's names a, b stand for any two names; each is replayed with
# several vocabularies (prefixes of each other, digits, names used by mpllayout).
VOCABULARIES = [
    {"a": "a", "b": "b", "c": "c"},
    {"a": "Axes1", "b": "Axes10", "c": "Axes"},
    {"a": "0", "b": "-1", "c": "1"},
    {"a": "b.a", "b": "a b", "c": "é"},
    {"a": "", "b": "x", "c": " "},
]


def sub(shape, ident, kind, names):
    leaf = {"id": ident, "kind": kind, "ch": []}
    if shape == "branch":
        first = names[0]
        leaf["ch"] = [{"k": first, "t": {"id": ident + 1, "kind": kind, "ch": []}}]
    return leaf


def replay_graph(check, names, depth, kinds):
    res = tlc.run("TreeMachine", constants={
        "MaxOps": check.pick(3, 4) if depth == 3 else check.pick(3, 3),
        "MaxDepth": depth,
        "MaxNodes": check.pick(7, 8),
        "Names": "{%s}" % ", ".join(f'"{n}"' for n in names),
    })
    check.tlc(f"graph-{len(names)}names-depth{depth}", res)
    # one incoming transition per state gives a shortest history to every state
    key = lambda flat, m, n: repr((flat, m, n))
    history = {}
    by_state = {}
    for row in res.rows:
        s, t = key(row["s"], row["m"], row["n"]), key(row["t"], row["tm"], row["tn"])
        if not history:
            history[s] = []
        if t not in history and s in history:
            history[t] = history[s] + [(row["op"], row["m"])]
        by_state.setdefault(s, []).append(row)
    first = min(names)
    probes = [list(p) for d in range(1, depth + 2) for p in itertools.product(names, repeat=d)]
    done = 0
    for sk, rows in by_state.items():
        hist = history.get(sk)
        if hist is None:
            raise tlc.MachineryError("state without history")
        vocab = VOCABULARIES[done % len(VOCABULARIES)]
        kind = kinds[done % len(kinds)]
        done += 1
        ren = lambda path: [vocab[k] for k in path]

        def perform(root, op, ident):
            path = "/".join(ren(op["path"]))
            c = (root[path] if op["shape"] == "same" else
                 trees.build(sub(op["shape"], ident, kind, [first]), vocab))
            if op["name"] == "add":
                root.add_child(path, c)
            else:
                root[path] = c

        def state():
            root = trees.node(kind, 0, {})
            for op, ident in hist:
                out = observe(perform, root, op, ident)
                if out[0] != "ok":
                    return None, out
            return root, None

        def expected(flat):
            return [{"p": ren(x["p"]), "id": x["id"], "kind": kind, "keys": ren(x["keys"])}
                    for x in flat]

        case0 = {"history": [dict(o, id=i) for o, i in hist], "kind": kind, "names": vocab}
        root, err = state()
        if root is None:
            check.violation("accepted-operation-fails", case0, "ok", err)
            continue
        # lookups and membership in this state
        flat = expected(rows[0]["s"])
        want = {tuple(x["p"]): x["id"] for x in flat}
        for probe in probes:
            path = ren(probe)
            here = tuple(path) in want
            text = "/".join(path)
            got = observe(lambda: (text in root))
            check.expect("membership", got == ("ok", here), dict(case0, path=text), here, got)
            got = observe(lambda: root[text].value)
            ok = got == ("ok", want[tuple(path)]) if here else got[0] == "err"
            check.expect("lookup", ok, dict(case0, path=text), want.get(tuple(path), "error"), got)
            got = observe(lambda: root.get_child(text).value)
            ok = got == ("ok", want[tuple(path)]) if here else got[0] == "err"
            check.expect("lookup", ok, dict(case0, path=text), want.get(tuple(path), "error"), got)
        # a doubled, leading or trailing slash stands for a part with the empty name
        for probe in probes[:len(names) + len(names) ** 2]:
            text = "/".join(ren(probe))
            for odd in (text + "/", "/" + text, text.replace("/", "//"), text + "//", "/", ""):
                here = tuple(odd.split("/")) in want
                got = observe(lambda: (odd in root))
                check.expect("membership", got == ("ok", here), dict(case0, path=odd), here, got)
                for call in (lambda: root[odd].value, lambda: root.get_child(odd).value):
                    got = observe(call)
                    ok = got == ("ok", want[tuple(odd.split("/"))]) if here else got[0] == "err"
                    check.expect("lookup", ok, dict(case0, path=odd), here, got)
        for x in flat:
            got = observe(lambda: trees.observe_lists(root["/".join(x["p"])] if x["p"] else root))
            check.expect("children-listing", got[0] == "ok" and trees.lists_ok(got[1], x["keys"]),
                         dict(case0, at=x["p"]), x["keys"], got)
        # every operation the specification allows or rejects in this state
        for row in rows:
            op = row["op"]
            root, err = state()
            got = observe(perform, root, op, row["m"])
            case = dict(case0, op=op)
            check.expect("outcome", (got[0] == "ok") == op["ok"] and got[0] != "hang",
                         case, op["ok"], got)
            got = observe(trees.listing, root)
            check.expect("tree-after", got == ("ok", expected(row["t"])), case,
                         expected(row["t"]), got)
            check.traces += 1
        if done <= 2:
            check.sample({"history": case0["history"], "ops_tried": len(rows)})
    check.exhaustive.append(f"all histories over names {names} to depth {depth} within the bounds")


NAMES = ["x", "y", "z", "Line0", "Line1", "Line10", "a", "ab", "A", "0", "1", ""]


def random_trace(rng, kind, num):
    ids = itertools.count(1)

    def subtree(d):
        t = {"id": next(ids), "kind": kind, "ch": []}
        if d > 0 and rng.random() < 0.5:
            for k in rng.sample(NAMES, rng.randint(1, 3)):
                t["ch"].append({"k": k, "t": subtree(d - 1)})
        return t

    init = {"id": 0, "kind": kind, "ch": []}
    root = trees.build(init)
    events = []

    def paths():
        return [x["p"] for x in trees.listing(root)]

    for _ in range(num):
        known = paths()
        r = rng.random()
        base = rng.choice(known)
        if r < 0.45:                      # below an existing node, perhaps occupied
            path = base + [rng.choice(NAMES)]
        elif r < 0.75 and len(known) > 1:
            path = rng.choice(known[1:])
        else:                             # a missing parent somewhere
            path = base + [rng.choice(NAMES) for _ in range(rng.randint(1, 3))]
        text = "/".join(path)
        op = rng.choice(["add", "add", "set", "look", "look"])
        ev = {"op": op, "reg": 1, "path": path}
        if op == "look":
            got = observe(lambda: root[text].value)
            ev["ok"] = got[0] == "ok"
            ev["found"] = got[1] if got[0] == "ok" else -1
            isin = observe(lambda: text in root)
            ev["contains"] = isin[1] if isin[0] == "ok" else "raises"
            if not isinstance(ev["contains"], bool):
                ev["contains"] = not ev["ok"]      # anything else is wrong
        else:
            s = subtree(2)
            ev["sub"] = s
            child = trees.build(s)
            if op == "add":
                got = observe(root.add_child, text, child)
            else:
                got = observe(root.__setitem__, text, child)
            ev["ok"] = got[0] == "ok"
        ev["flats"] = [trees.listing(root)]
        ev["heights"] = [root.node_height()]
        events.append(ev)
    return {"init": [init], "events": events}


def validate(check, name, traces):
    res = tlc.run("TreeTrace", data=traces, workers=8)
    check.tlc(name, res)
    check.traces += len(traces)
    check.calls += sum(len(t["events"]) for t in traces)
    if res.distinct < len(traces):
        raise tlc.MachineryError("traces were not consumed")
    for row in res.rows:
        ev = traces[row["tid"] - 1]["events"][row["l"] - 1]
        brief = {k: v for k, v in ev.items() if k not in ("flats", "heights")}
        check.violation("trace-" + row["clause"],
                        {"trace": row["tid"], "event": row["l"], "call": brief,
                         "before": traces[row["tid"] - 1]["events"][row["l"] - 2]["flats"]
                         if row["l"] > 1 else []},
                        row["expected"], ev["flats"])


def run(check):
    replay_graph(check, ["a", "b"], 3, ["N", "P", "K", "S"])
    replay_graph(check, ["a", "b", "c"], 2, ["N", "R", "P"])
    traces = [
        random_trace(check.rng, check.rng.choice("NPKRS"), check.pick(25, 60))
        for _ in range(check.pick(60, 400))
    ]
    validate(check, "recorded-histories", traces)
    check.sample({"recorded": [
        {k: v for k, v in e.items() if k in ("op", "path", "ok")}
        for e in traces[0]["events"][:6]]})
