"""C09 Construction arithmetic means what the formulas say"""
import numpy as np

from . import algebra, tlc
from .core import observe
from mpllayout import constructions as con


def run(check):
    rng = check.rng
    consts = {"Salt": check.seed % 7}
    if check.thorough:
        consts["Pairs"] = "TRUE"
    res = tlc.run("AlgebraCases", constants=consts, timeout=2400, heap="12g",
                  workers=1)
    check.tlc("two-transforms", res)
    rows = res.rows
    check.count("two-transforms", cases_specified=len(rows))
    rng.shuffle(rows)
    limit = check.pick(1800, 12000)
    if len(rows) <= limit:
        check.exhaustive.append("all compositions of two transforms over the enumerated leaves")
    # one of every top-level pair of operations first
    first, seen, rest = [], {}, []
    for r in rows:
        key = (r["e"]["op"], r["e"].get("a", {}).get("op"), r["e"].get("b", {}).get("op"))
        seen[key] = seen.get(key, 0) + 1
        (first if seen[key] <= check.pick(25, 80) else rest).append(r)
    rows = (first + rest)[:limit]
    for _ in algebra.check_rows(check, "two-transforms", rows,
                                ["call", "call", "tree", "layout"], "arithmetic"):
        pass
    check.sample({k: rows[0][k] for k in ("e", "prims", "params")})

    data = []
    while len(data) < check.pick(350, 2500):
        call = algebra.call_of(rng, algebra.expr(rng, rng.choice([1, 2, 3, 3, 4]),
                                                 exact=rng.random() < 0.8))
        if algebra.usable(call):
            data.append(call)
    rows = algebra.evaluated(check, "nested", data, workers=8)
    rows += algebra.evaluated(check, "inverses",
                              algebra.inverse_calls(rng, check.pick(80, 600)))
    hows = ["call", "call", "tree", "layout", "call", "jit"]
    for _ in algebra.check_rows(check, "nested", rows, hows, "arithmetic"):
        pass
    check.sample(data[0])
    # operands and targets that do not fit are rejected
    res = tlc.run("AlgebraRejects", data=algebra.misfits(rng, check.pick(150, 1200)))
    check.tlc("misfits", res)
    for n, row in enumerate(res.rows):
        case = row["case"]
        how = ["call", "tree", "layout"][n % 3]

        def attempt():
            c = algebra.build(case["e"], rng)
            prims = tuple(algebra.prim(k, v) for k, v in zip(row["kinds"], case["prims"]))
            return np.asarray(algebra.evaluate(
                c, row["kinds"], prims, [algebra.param(p) for p in case["params"]], how, rng))
        got = observe(attempt)
        check.expect("misfit", (got[0] == "ok") == row["accepted"], {**case, "how": how},
                     "a value" if row["accepted"] else "an error", got)
        check.traces += 1
        check.count("misfits", calls=1, accepted=int(row["accepted"]))
    got = observe(lambda: con.transform_scalar_mul(con.Length(), con.Coordinate()))
    check.expect("ill-typed-scalar", got[0] == "err", {"scalar": "Coordinate"}, "an error", got)
