"""C06 Constraint names are unique and never overwritten"""
from . import counters, layouts, naming, tlc


def run(check):
    for cfg, n in (("LayoutMachine", check.pick(2500, 20000)),
                   ("LayoutMachineRejects", check.pick(400, 4000))):
        res = tlc.run("LayoutMachine", cfg=cfg, workers=8, coverage=True)
        check.tlc(cfg, res)
        rows = check.rng.sample(res.rows, min(n, len(res.rows)))
        layouts.validate(check, cfg, [naming.perform(check.rng, r) for r in rows])
    recs = [naming.random_history(check.rng, check.rng.randint(8, 40))
            for _ in range(check.pick(150, 1500))]
    layouts.validate(check, "random names", recs)
    counters.run(check)
    check.assumptions += ["constraint names contain no '/' (they would be paths)"]
