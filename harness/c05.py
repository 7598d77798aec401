"""C05 Constraints, their primitives and their parameters stay in step"""
from . import layouts, naming, tlc


def run(check):
    # every short history of additions, rejections and rebuilding
    for cfg, n in (("LayoutMachine", check.pick(300, 4000)),
                   ("LayoutMachineRejects", check.pick(1500, 12000))):
        res = tlc.run("LayoutMachine", cfg=cfg, workers=8, coverage=True)
        check.tlc(cfg, res)
        rows = check.rng.sample(res.rows, min(n, len(res.rows)))
        layouts.validate(check, cfg, [naming.perform(check.rng, r) for r in rows])
    # random constraints
    n = check.pick(170, 1500)
    recs = [layouts.random_history(check.rng, check.rng.randint(6, 14), deep=2)
            for _ in range(n)]
    recs += [layouts.random_history(check.rng, 45, deep=1) for _ in range(n // 20)]
    recs += [layouts.confusable_history(check.rng) for _ in range(check.pick(60, 300))]
    layouts.validate(check, "random histories", recs, chunk=200)
    check.assumptions += [
        "constraint names contain no '/' (names of nested parts are paths)",
        "values are compared at moderate scale with relative tolerance 1e-10",
    ]
