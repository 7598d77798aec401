"""The item counter against spec/CounterMachine.tla"""
from . import tlc
from .core import observe
from mpllayout.containers import ItemCounter, Node

CATS = ["A", "A1", "B", "", "A1 0", "SumConstruction"]


def item_of(cat, by_class):
    return type(cat, (), {})() if by_class else (cat, object())


def counter(by_class):
    return ItemCounter() if by_class else ItemCounter(categorize=lambda item: item[0])


def record(rng, history, by_class):
    ctr = counter(by_class)
    events = []
    for step in history:
        cat, bad = step["cat"], list(step["bad"])
        item = item_of(cat, by_class)
        if not bad and rng.random() < 0.5:
            got = observe(ctr.add_item, item, limit=20)
        elif rng.random() < 0.5:
            got = observe(ctr.add_item_until_valid, item, lambda k, b=bad: k not in b, limit=20)
        else:
            # the refused names are spread over several trees
            trees = [{} for _ in range(rng.randint(1, 3))]
            for b in bad:
                for t in rng.sample(trees, rng.randint(1, len(trees))):
                    t[b] = Node(0, {"A7": Node(1, {})})
            got = observe(ctr.add_item_to_nodes, item, *(Node(None, t) for t in trees), limit=20)
        asked = {c: observe(lambda c=c: c in ctr) for c in set(CATS) | {cat, "A0"}}
        events.append({
            "cat": cat, "bad": bad, "got": str(got[1]),
            "asked": sorted(asked), "yes": sorted(c for c, a in asked.items() if a[1] is True),
            "no": sorted(c for c, a in asked.items() if a[1] is False),
            "counts": dict(ctr.category_counts)})
    return {"events": events, "by_class": by_class}


def run(check):
    res = tlc.run("CounterMachine", constants={"Depth": str(check.pick(4, 5))}, workers=8,
                  coverage=True)
    check.tlc("counter histories", res)
    rng = check.rng
    rows = rng.sample(res.rows, min(check.pick(2500, 20000), len(res.rows)))
    traces = [record(rng, r, i % 2 == 0) for i, r in enumerate(rows)]
    for _ in range(check.pick(150, 1500)):
        names = [f"{c}{i}" for c in CATS for i in range(12)]
        history = [{"cat": rng.choice(CATS),
                    "bad": rng.sample(names, rng.choice([0, 0, 3, 30]))}
                   for _ in range(rng.randint(5, 30))]
        if rng.random() < 0.2:
            # a long run of names in use
            c = rng.choice(CATS)
            history.append({"cat": c, "bad": [f"{c}{i}" for i in range(rng.choice([60, 150, 350]))]})
        by_class = rng.random() < 0.5
        traces.append(record(rng, history, by_class))
    for i in range(0, len(traces), 2000):
        batch = traces[i:i + 2000]
        res = tlc.run("CounterTrace", data=batch, workers=8)
        check.tlc("counter traces", res)
        for row in res.rows:
            t = batch[row["tid"] - 1]
            check.violation(row["clause"], {"events": t["events"][:row["l"]],
                                            "by_class": t["by_class"]},
                            row["expected"], t["events"][row["l"] - 1])
        check.count("counter traces", histories=len(batch),
                    events=sum(len(t["events"]) for t in batch))
        check.traces += len(batch)
