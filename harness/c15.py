"""C15 Axis and label positioning acts on the requested axes parts"""
import numpy as np

from . import tlc, geom
from .core import observe
from .c14 import magnitude
from mpllayout import primitives as pr
from mpllayout import constraints as cr

ORDER = ["Frame", "XAxis", "XAxisLabel", "YAxis", "YAxisLabel", "TwinXAxis", "TwinXAxisLabel",
         "TwinYAxis", "TwinYAxisLabel"]
QUADS = {"Frame", "XAxis", "YAxis", "TwinXAxis", "TwinYAxis"}


def needed(kon):
    """Axes parts have to be there for the parts a constraint names"""
    x, twin = kon["axis"] == "x", kon["twin"]
    return {"xaxis": x, "yaxis": not x, "twinx": x and twin, "twiny": not x and twin}


def present(name, flags):
    if name == "Frame":
        return True
    axis = "x" if "XAxis" in name else "y"
    return flags["twin" + axis] if name.startswith("Twin") else flags[axis + "axis"]


def axes(parts, flags, scale=1.0, shift=(0, 0)):
    prims = []
    for name in ORDER:
        if present(name, flags):
            sh = "Q" if name in QUADS else "P"
            prims.append(geom.BUILD[sh](geom.transform(sh, parts[name], scale, shift)))
    return pr.Axes(prims=tuple(prims), **flags)


def constraint(kon, generic):
    ax, side, twin = kon["axis"], kon["side"], kon["twin"]
    if kon["name"] == "axis":
        if generic:
            return cr.PositionAxis(axis=ax, side=side, twin=twin)
        return {"x": cr.PositionXAxis, "y": cr.PositionYAxis}[ax](side=side, twin=twin)
    if generic:
        return cr.PositionAxisLabel(axis=ax, twin=twin)
    return {"x": cr.PositionXAxisLabel, "y": cr.PositionYAxisLabel}[ax](twin=twin)


def random_flags(rng, kon):
    flags = dict(needed(kon))
    if rng.random() < 0.6:
        for ax in "xy":
            if rng.random() < 0.7:
                flags[ax + "axis"] = True
            if flags[ax + "axis"] and rng.random() < 0.7:
                flags["twin" + ax] = True
    return flags


def check_rows(check, part, rows):
    rng = check.rng
    cache = {}
    for n, row in enumerate(rows):
        kon, parts = row["kon"], row["axes"]
        flags = random_flags(rng, kon)
        scale = rng.choice([1.0, 1.0, 0.5, 4.0])
        shift = rng.choice(geom.SHIFTS)
        tol = geom.vanishing(scale, shift)
        key = (kon["name"], kon["axis"], kon["side"], kon["twin"], n % 2)
        if key not in cache:
            got = observe(constraint, kon, n % 2)
            if not check.expect("construct", got[0] == "ok", kon, "a constraint", got):
                continue
            cache[key] = got[1]
        c = cache[key]
        params = () if kon["name"] == "axis" else (geom.number(geom.rat(kon["target"]),
                                                              geom.FORMS[n % 5]),)
        case = {"axes": parts, "constraint": kon, "flags": flags, "scale": scale, "shift": shift}
        got = observe(lambda: np.asarray(c((axes(parts, flags, scale, shift),), *params)))
        if got[0] == "ok":
            got = ("ok", got[1], magnitude(got[1]))
        ok = got[0] == "ok" and got[1].size > 0 and (
            got[2] <= tol if row["holds"] else got[2] > 100 * tol)
        check.expect(f"{kon['name']}-position", ok, case, "zero" if row["holds"] else "non-zero", got)
        # other parts, whatever they are, do not influence the value
        if got[0] == "ok" and n % 3 == 0:
            other = {k: v if k in row["involved"] else
                     (geom.rand_quad(rng, 9) if k in QUADS else geom.rand_point(rng, 9))
                     for k, v in parts.items()}
            again = observe(lambda: np.asarray(
                c((axes(other, random_flags(rng, kon), scale, shift),), *params)))
            check.expect("other-parts", again[0] == "ok" and np.array_equal(again[1], got[1]),
                         dict(case, other=other), got[1], again)
        check.count(part, calls=1)
        check.traces += 1


def random_case(rng):
    kon = {"name": rng.choice(["axis", "label"]), "axis": rng.choice("xy"),
           "twin": rng.random() < 0.5}
    kon["side"] = "" if kon["name"] == "label" else rng.choice(
        ["bottom", "top"] if kon["axis"] == "x" else ["left", "right"])
    x, y, w, h = rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(1, 9), rng.randint(1, 9)
    parts = {"Frame": geom.boxq(x, y, w, h)}

    def outside(s):
        t = rng.randint(1, 4)
        return {"left": geom.boxq(x - t, y, t, h), "right": geom.boxq(x + w, y, t, h),
                "bottom": geom.boxq(x, y - t, w, t), "top": geom.boxq(x, y + h, w, t)}[s]

    xs, ys = rng.choice(["bottom", "top"]), rng.choice(["left", "right"])
    if kon["name"] == "axis" and rng.random() < 0.8:
        xs, ys = (kon["side"], ys) if kon["axis"] == "x" else (xs, kon["side"])
    opp = {"bottom": "top", "top": "bottom", "left": "right", "right": "left"}
    parts.update({"XAxis": outside(xs), "TwinXAxis": outside(opp[xs]),
                  "YAxis": outside(ys), "TwinYAxis": outside(opp[ys])})
    if rng.random() < 0.2:    # the twin on the same side
        p = rng.choice("XY")
        parts[f"Twin{p}Axis"] = parts[f"{p}Axis"]
    for p in ("XAxisLabel", "YAxisLabel", "TwinXAxisLabel", "TwinYAxisLabel"):
        parts[p] = geom.rand_point(rng, 15)
    kon["target"] = [rng.randint(-3, 9), rng.randint(1, 6)]
    label = parts[("Twin" if kon["twin"] else "") + kon["axis"].upper() + "AxisLabel"]
    if rng.random() < 0.6:
        kon["target"] = [label[0] - x, w] if kon["axis"] == "x" else [label[1] - y, h]
    if kon["name"] == "axis" and rng.random() < 0.4:
        q = parts[rng.choice(["Frame", "XAxis", "YAxis", "TwinXAxis", "TwinYAxis"])]
        q[rng.randrange(4)][rng.randrange(2)] += rng.choice([-1, 1])
    if any(parts[q][i] == parts[q][(i + 1) % 4] for q in QUADS for i in range(4)):
        return random_case(rng)
    return {"axes": parts, "kon": kon, "move": {"part": "", "v": 0, "k": 0, "d": 0}}


def run(check):
    cfg = check.pick("AxesCases", "AxesCasesAll")
    res = tlc.run("AxesCases", cfg=cfg, timeout=1500)
    check.tlc("enumerated", res)
    rows = res.rows
    if len(rows) > check.pick(3000, 25000):
        rows = check.rng.sample(rows, check.pick(3000, 25000))
    else:
        check.exhaustive.append("every displacement of one coordinate of one part, every constraint")
    check_rows(check, "enumerated", rows)
    check.sample(rows[0])
    data = [random_case(check.rng) for _ in range(check.pick(500, 4000))]
    res = tlc.run("AxesCases", constants={"FromData": "TRUE"}, data=data)
    check.tlc("random", res)
    check_rows(check, "random", res.rows)
    check.sample(res.rows[-1])
