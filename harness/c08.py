"""C08 A compound construction is the concatenation of its parts"""
import numpy as np

from . import algebra, geom, tlc
from .core import observe
from mpllayout import primitives as pr
from mpllayout import constructions as con
from mpllayout import constraints as cr

HOWS = ["call", "tree", "layout", "jit", "call", "tree", "layout", "jit-tree", "call", "jit-layout"]


def concatenated(c, prims, params):
    """Own output followed by the values of the children, through the public parts"""
    keys = tuple(f"arg{n}" for n in range(len(prims)))
    root = pr.PrimitiveNode(np.array(()), dict(zip(keys, prims)))
    out = [np.atleast_1d(np.asarray(c.assem_atleast_1d(prims, *params), dtype=float)).ravel()]
    kids = list(c.values())
    for kid, pk, ps in zip(kids, c.child_prim_keys(keys), c.child_params(tuple(params))):
        out.append(np.asarray(kid(tuple(root[k] for k in pk), *ps), dtype=float).ravel())
    return np.concatenate(out)


def library(rng):
    """Library compounds with arguments"""
    q = lambda: geom.quad(geom.rand_quad(rng, 6))
    num = lambda: rng.choice([0.5, -1.0, 2.0, 3.0])
    yield con.RectangleDim(dim=rng.choice(["width", "height"])), (q(),), ()
    yield con.Margin(outer=rng.random() < 0.5, side=rng.choice(geom.QSIDES)), (q(), q()), ()
    yield cr.Box(), (q(),), ()
    yield cr.Align(row=rng.random() < 0.5), (q(), q()), ()
    yield cr.CoincidentOutwardFaces(side=rng.choice(geom.QSIDES)), (q(), q()), ()
    yield cr.Width(), (q(),), (num(),)
    yield cr.OuterMargin(side=rng.choice(geom.QSIDES)), (q(), q()), (num(),)
    n = rng.randint(2, 12)
    yield (cr.OuterMarginArray(shape=(n,), side=rng.choice(geom.QSIDES)),
           tuple(q() for _ in range(n)), tuple(num() for _ in range(n - 1)))
    shape = rng.choice([(1, 2), (2, 2), (3, 4), (4, 1), (1, 11), (2, 3)])
    m = shape[0] * shape[1]
    yield cr.RectilinearGrid(shape=shape), tuple(q() for _ in range(m)), ()
    arrays = tuple(np.array([num() for _ in range(k - 1)])
                   for k in (shape[1], shape[0], shape[1], shape[0]))
    yield cr.Grid(shape=shape), tuple(q() for _ in range(m)), arrays
    axes = algebra.prim("A", algebra.rand_prim(rng, "A"))
    yield cr.PositionXAxis(side=rng.choice(["bottom", "top"])), (axes,), ()
    yield cr.PositionYAxisLabel(), (axes,), (num(),)
    yield cr.XAxisThickness(), (q(),), (None,)


def run(check):
    rng = check.rng
    data = []
    inner = lambda r: algebra.expr(r, r.choice([1, 2]), compounds=False)
    want = check.pick(500, 4000)
    while len(data) < want:
        i = len(data)
        e = algebra.user_compound(rng, depth=rng.choice([0, 1, 2, 3]), wide=i % 3 == 0, inner=inner)
        call = algebra.call_of(rng, e)
        if algebra.total(e) <= 80:
            data.append(call)
    data += [algebra.call_of(rng, algebra.user_compound(rng, 0, huge=True))
             for _ in range(check.pick(6, 40))]
    rows = algebra.evaluated(check, "user-defined", data)
    for row, c, prims, params in algebra.check_rows(check, "user-defined", rows, HOWS, "compound"):
        if rng.random() < 0.3:
            # constructions are reusable: nothing depends on earlier calls
            again = observe(lambda: c(prims, *params))
            ok = again[0] == "ok" and algebra.compare(row["value"], again[1])[0]
            check.expect("compound:repeat", ok, {"e": row["e"]}, row["value"], again)
    check.sample(data[0])
    for _ in range(check.pick(12, 80)):
        got = observe(lambda: list(library(rng)))
        if not check.expect("library:construct", got[0] == "ok", {}, "constructions", got):
            continue
        for c, prims, params in got[1]:
            case = {"construction": type(c).__name__, "num": len(prims)}
            one = observe(lambda: np.asarray(c(prims, *params), dtype=float).ravel())
            two = observe(concatenated, c, prims, params)
            ok = one[0] == two[0] == "ok" and one[1].shape == two[1].shape and \
                np.allclose(one[1], two[1], rtol=1e-12, atol=1e-12)
            check.expect("library:concatenation", ok, case, two, one)
            if not ok:
                continue
            ks = [{pr.Quadrilateral: "Q", pr.Axes: "A"}[type(p)] for p in prims]
            hows = ["tree", "layout"] + (["jit"] if rng.random() < 0.15 else [])
            for how in hows:
                got = observe(algebra.evaluate, c, ks, prims, params, how, rng)
                ok = got[0] == "ok" and np.allclose(np.asarray(got[1]), one[1], rtol=1e-12,
                                                    atol=1e-12)
                check.expect(f"library:{how}", ok, case, one[1], got)
            check.count("library", calls=1)
            check.traces += 1
    check.assumptions.append("library compounds are compared with the concatenation of their own"
                             " children; their meaning is decided by C11, C13-C15")
