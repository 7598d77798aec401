"""
Calls of the library's measurements and constraints: building the real objects,
evaluating the specification's exact values, comparing.
"""
import math

import numpy as np
import jax.numpy as jnp

from .core import observe
from mpllayout import primitives as pr
from mpllayout import constructions as con
from mpllayout import constraints as cr

SIDED = {"OuterMargin", "InnerMargin", "CoincidentOutwardFaces"}


def construction(what, name, side):
    """The real construction (measure) or constraint"""
    mod = con if what == "measure" else cr
    cls = getattr(mod, name)
    if name in SIDED:
        return cls(side=side)
    if name == "RectangleDim":
        return cls(dim=side)
    if name == "Align":
        return cls(row=(side == "row"))
    return cls()


def point(p, dtype=float):
    return pr.Point(value=np.array(p, dtype=dtype))


def line(l, dtype=float):
    return pr.Line(prims=(point(l[0], dtype), point(l[1], dtype)))


def quad(q, dtype=float):
    """A quadrilateral with the given vertices: sides share their corners"""
    v = [point(p, dtype) for p in q]
    return pr.Quadrilateral(None, v)


BUILD = {"P": point, "L": line, "Q": quad}


def transform(sh, a, scale, shift):
    f = lambda p: [(p[0] + shift[0]) * scale, (p[1] + shift[1]) * scale]
    return f(a) if sh == "P" else [f(p) for p in a]


def term(t):
    c = t["n"] / t["d"]
    if t["k"] == "q":
        return c * math.sqrt(t["r"])
    return c * math.atan2(t["s"], t["c"])


def real(x):
    """The float nearest to an exact real"""
    return math.fsum(term(t) for t in x)


def magnitude(x):
    return sum(abs(term(t)) for t in x)


def is_rat(p):
    return isinstance(p, list) and len(p) == 2 and all(type(v) is int for v in p)


def rat(p):
    return p[0] / p[1]


FORMS = ["float", "int", "np", "jnp", "array0", "npint"]


def number(v, form):
    if form == "int" and float(v).is_integer() and abs(v) < 2**31:
        return int(v)
    if form == "npint" and float(v).is_integer() and abs(v) < 2**31:
        return np.int64(v)
    if form == "np":
        return np.float64(v)
    if form == "jnp":
        return jnp.asarray(v, dtype=float)
    if form == "array0":
        return np.array(v, dtype=float)
    return float(v)


def vector(v, form):
    if form in ("int", "npint") and all(float(x).is_integer() and abs(x) < 2**31 for x in v):
        return np.array([int(x) for x in v])
    if form == "jnp":
        return jnp.asarray(v, dtype=float)
    return np.array(v, dtype=float)


def parameters(case, targeted, tscale, form):
    """The real parameters of a call; a length-like target grows with `tscale`"""
    name = case["name"]
    out = []
    ps = case["params"]
    for i, p in enumerate(ps):
        last = i == len(ps) - 1
        if isinstance(p, bool):
            out.append(p)
        elif targeted and last:
            if name == "Fix":
                out.append(vector([rat(p[0]) * tscale, rat(p[1]) * tscale], form))
            elif name == "Angle":
                out.append(number(math.atan2(p[1], p[0]), form))
            else:
                out.append(number(rat(p) * tscale, form))
        elif name in ("DirectedDistance", "DirectedLength", "MidpointDirectedDistance"):
            out.append(vector(p, form))
        else:
            out.append(number(rat(p) * tscale, form))
    return out


def primitives(case, scale=1.0, shift=(0, 0), dtype=float):
    return tuple(
        BUILD[s](transform(s, a, scale, shift), dtype)
        for s, a in zip(case["sh"], case["args"]))


class Cache:
    """Constructions are built once per kind, as a user would reuse them"""

    def __init__(self):
        self.store = {}

    def get(self, case):
        key = (case["what"], case["name"], case["side"])
        if key not in self.store:
            self.store[key] = construction(*key)
        return self.store[key]


def extent(case, shift=(0, 0)):
    big = 1.0
    for s, a in zip(case["sh"], case["args"]):
        for p in ([a] if s == "P" else a):
            big = max(big, abs(p[0]), abs(p[1]))
    return big


def param_extent(case, targeted):
    """How much larger than the geometry the parameters make the result"""
    big = 1.0
    for p in case["params"]:
        if is_rat(p):
            if case["name"] == "Angle":
                continue
            if case["name"].startswith(("Directed", "MidpointDirected")):
                big = max(big, abs(p[0]) + abs(p[1]))
            else:
                big = max(big, abs(rat(p)))
        elif isinstance(p, list):
            big = max([big] + [abs(rat(r)) for r in p])
    return big


def vanishing(scale, shift):
    """What counts as zero for residuals of degree 0 to 2 of figures of a few units"""
    if scale < 0.1:
        return 1e-13
    if scale > 100:
        return 1e-6
    return max(1e-9, 4e-15 * max(abs(v) for v in shift))


#: powers of two times (small integers plus these) are exact
SHIFTS = [(0, 0), (0, 0), (0, 0), (-17, 1000), (2**18, -3 * 2**17), (2**30, -2**29)]


def judge(row, got, scale, shift):
    """
    Compare an observed value with the specification's; returns (ok, expected)
    """
    case, deg, kind = row["case"], row["deg"], row["q"]
    got = np.asarray(got, dtype=float)
    flat = got.ravel()
    if not np.all(np.isfinite(flat)):
        return False, "finite values"
    size = extent(case) * param_extent(case, row["targeted"])
    far = 1e-15 * max(abs(v) for v in shift)
    if kind == "zero":
        # only vanishing is documented, and not how the residual grows with the geometry
        r = float(np.max(np.abs(flat))) if flat.size else 0.0
        tol = vanishing(scale, shift)
        if row["zero"]:
            return flat.size > 0 and r <= tol, "all zero"
        return r > 100 * tol, "some entry non-zero"
    want = [real(x) * scale**deg for x in row["value"]]
    tol = 1e-11 * max(size**max(deg, 1), max((magnitude(x) for x in row["value"]), default=0)) \
        * scale**deg
    tol += far * size**max(deg - 1, 0) * scale**deg
    if flat.size != len(want):
        return False, want
    if kind == "unsigned":
        ok = np.allclose(np.sort(np.abs(flat)), np.sort(np.abs(want)), rtol=0, atol=tol)
    else:
        ok = np.allclose(flat, want, rtol=1e-11, atol=tol)
    return bool(ok), want


def scales_for(row, rng):
    if row["q"] == "zero":
        return rng.choice([1.0, 1.0, 0.5, 4.0, 2.0**-10, 2.0**10])
    return rng.choice([1.0, 1.0, 1.0, 2.0**-1, 2.0**3, 2.0**-20, 2.0**16, 2.0**-40, 2.0**40])


def check_rows(check, part, rows, cache=None, shifted=True):
    """Replay calls in the implementation"""
    cache = cache or Cache()
    rng = check.rng
    for i, row in enumerate(rows):
        case = row["case"]
        scale = scales_for(row, rng)
        position_free = (case["name"] not in ("Coordinate", "Midpoint", "Fix"))
        shift = rng.choice(SHIFTS) if shifted and position_free else (0, 0)
        if row["q"] == "zero" and not 0.1 < scale < 100:
            shift = (0, 0)
        form = FORMS[i % len(FORMS)]
        # products of large integers overflow, as in any numpy code
        dtype = int if (i % 7 == 3 and 1 <= scale <= 2**16) else float
        info = {"call": case, "scale": scale, "shift": shift, "form": form,
                "dtype": dtype.__name__}

        def call():
            prims = primitives(case, scale, shift, dtype)
            params = parameters(case, row["targeted"], scale**row["tdeg"], form)
            return np.asarray(cache.get(case)(prims, *params))

        got = observe(call)
        clause = ("value" if row["q"] == "signed" else
                  "difference" if row["q"] == "unsigned" else "zero-iff-relation")
        clause = f"{case['what']}:{case['name']}:{clause}"
        if got[0] != "ok":
            check.expect(clause, False, info, "a value", got)
            continue
        ok, want = judge(row, got[1], scale, shift)
        check.expect(clause, ok, info, want, got[1])
        check.count(part, calls=1)
        check.traces += 1
    return cache


# -- random calls ----------------------------------------------------------

def rand_point(rng, m):
    return [rng.randint(-m, m), rng.randint(-m, m)]


def rand_line(rng, m):
    while True:
        l = [rand_point(rng, m), rand_point(rng, m)]
        if l[0] != l[1]:
            return l


def rand_quad(rng, m):
    kind = rng.random()
    if kind < 0.5:
        x, y = rand_point(rng, m)
        w = rng.choice([v for v in range(-m, m + 1) if v])
        h = rng.choice([v for v in range(-m, m + 1) if v])
        q = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
        if kind < 0.2:        # one corner off
            i = rng.randrange(4)
            q[i] = [q[i][0] + rng.choice([-1, 0, 1]), q[i][1] + rng.choice([-1, 1])]
    else:
        q = [rand_point(rng, m) for _ in range(4)]
    if any(q[i] == q[(i + 1) % 4] for i in range(4)):
        return rand_quad(rng, m)
    return q


RAND = {"P": rand_point, "L": rand_line, "Q": rand_quad}


#: calls whose residual is only documented by where it vanishes
ZERO_KIND = ("Collinear", "Box", "Align", "AlignRow", "AlignColumn", "CoincidentOutwardFaces",
             "OuterMarginArray")


def stretched(rng, name, sh):
    """Axis-aligned figures with sizes over several orders of magnitude"""
    top = 100 if name in ("Angle", "UnitLineVector") else 300 if "Line" in name and name != "LineVector" \
        or name == "RelativeLength" else 1000 if name in ("Length", "AspectRatio") else 15000
    size = lambda: rng.choice([-1, 1]) * max(1, int(top ** rng.random()))
    where = lambda: [size() if rng.random() < 0.7 else 0 for _ in range(2)]
    out = []
    for s in sh:
        x, y = where()
        if s == "P":
            out.append([x, y])
        elif s == "Q":
            out.append(boxq(x, y, size(), size()))
        else:
            d = [size(), 0]
            rng.shuffle(d)
            if top <= 300 and name != "RelativeLength" and rng.random() < 0.5:
                d = [size(), size()]
            out.append([[x, y], [x + d[0], y + d[1]]])
    return out


def random_calls(rng, spec, num, m=20):
    """`spec`: list of (what, name, side choices, shapes, parameter maker)"""
    out = []
    for _ in range(num):
        what, name, sides, sh, ps = rng.choice(spec)
        mm = rng.choice([3, m, m]) if name not in ("RelativeLength", "AspectRatio") else 6
        args = [RAND[s](rng, mm) for s in sh]
        if rng.random() < 0.2 and len(args) == 2 and sh[0] == sh[1]:
            args[1] = args[0] if rng.random() < 0.5 or sh[0] == "P" else \
                [args[0][1], args[0][0]] if sh[0] == "L" else args[1]
        if rng.random() < 0.2 and name not in ZERO_KIND:
            args = stretched(rng, name, sh)
        out.append({"what": what, "name": name, "side": rng.choice(sides), "sh": list(sh),
                    "args": args, "params": ps(rng)})
    return out


NONE = lambda rng: []
BOOL = lambda rng: [rng.random() < 0.5]


def DIR(rng):
    while True:
        d = rand_point(rng, 5)
        if d != [0, 0]:
            return [d]


QSIDES = ["bottom", "right", "top", "left"]


# -- the check of one property ----------------------------------------------

def stratified(rng, rows, num):
    """At most `num` rows, spread over every (name, side, flag, satisfied) class"""
    if len(rows) <= num:
        return list(rows)
    groups = {}
    for r in rows:
        c = r["case"]
        groups.setdefault(
            (c["name"], c["side"], r["zero"], str([p for p in c["params"] if isinstance(p, bool)])),
            []).append(r)
    out = []
    per = max(1, num // len(groups))
    spare = []
    for g in groups.values():
        rng.shuffle(g)
        out += g[:per]
        spare += g[per:]
    rng.shuffle(spare)
    return out + spare[:max(0, num - len(out))]


def tla_set(names):
    return "{" + ", ".join(f'"{n}"' for n in names) + "}"


def enumerated(check, families, what, random_spec, num, num_random):
    """Enumerated and random calls of the given kind"""
    from . import tlc
    constants = {"Families": tla_set(families)}
    if check.thorough:
        constants.update({"Points": "{-2, 0, 1, 3} \\X {-3, -1, 0, 2}"})
    # TLC does not take infix expressions in a configuration: use named universes
    constants.pop("Points", None)
    cfg = "GeomCasesWide" if check.thorough else "GeomCases"
    res = tlc.run("GeomCases", cfg=cfg, constants=constants, timeout=1500)
    check.tlc("enumerated", res)
    rows = [r for r in res.rows if r["case"]["what"] == what]
    check.last_rows = rows
    chosen = stratified(check.rng, rows, num)
    check.count("enumerated", cases_specified=len(rows))
    check.rng.shuffle(chosen)
    cache = check_rows(check, "enumerated", chosen)
    check.sample(chosen[0]["case"])
    data = random_calls(check.rng, random_spec, num_random)
    random_rows = evaluated(check, "random", data)
    check_rows(check, "random", random_rows, cache)
    check.sample(random_rows[-1]["case"])
    check.assumptions.append(
        "integer coordinates (times powers of two, shifted) stand for all coordinates; "
        "tolerance 1e-11 relative to the size of the figure")
    return cache


def evaluated(check, part, data):
    """Have the specification evaluate recorded calls"""
    from . import tlc
    res = tlc.run("GeomCases", constants={"FromData": "TRUE"}, data=data)
    check.tlc(part, res)
    return res.rows


def boxq(x, y, w, h):
    return [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]


def slanted_pair(rng, name):
    """
    Two quadrilaterals with their bottom and top sides (or left and right ones) on two
    common lines of any direction; or for outward faces, meeting in one side
    """
    def away():
        while True:
            u = rand_point(rng, 4)
            if u != [0, 0]:
                return u
    on = lambda p, u, t: [p[0] + t * u[0], p[1] + t * u[1]]
    while True:
        p, w, u = rand_point(rng, 9), rand_point(rng, 9), away()
        v = u if rng.random() < 0.6 else away()
        o = [p[0] + w[0], p[1] + w[1]]
        if name == "CoincidentOutwardFaces":
            a = [rand_point(rng, 9) for _ in range(4)]
            side = rng.choice(QSIDES)
            i = QSIDES.index(side)
            b = [rand_point(rng, 9) for _ in range(4)]
            k = (i + 2) % 4
            b[k], b[(k + 1) % 4] = list(a[(i + 1) % 4]), list(a[i])
            pair, side_ = [a, b], side
        else:
            pair, side_ = [], ""
            for n in range(2):
                s, t, s2, t2 = [rng.randint(-4, 4) for _ in range(4)]
                if n and rng.random() < 0.4:    # the first one moved along the lines
                    k = rng.choice([-3, -1, 1, 2])
                    s, t, s2, t2 = [x + k for x in first]
                elif rng.random() < 0.3:
                    s2, t2 = s, t
                first = (s, t, s2, t2)
                q = [on(p, u, s), on(p, u, t), on(o, v, t2), on(o, v, s2)]
                if name == "AlignColumn":
                    # left side from the upper to the lower vertex, and right the other way
                    q = [q[1], q[2], q[3], q[0]]
                pair.append(q)
        if all(q[i] != q[(i + 1) % 4] for q in pair for i in range(4)):
            return side_, pair


def near_satisfied(check, num):
    """
    Satisfied configurations of two quadrilaterals (and margin arrays) with one
    coordinate of one vertex moved
    """
    rng = check.rng
    data = []
    for _ in range(num):
        a = boxq(rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(1, 6), rng.randint(1, 6))
        name = rng.choice(["Box", "AlignRow", "AlignColumn", "CoincidentOutwardFaces",
                           "OuterMarginArray"])
        side, params, b = "", [], None
        if name[0] in "AC" and rng.random() < 0.4:
            side, args = slanted_pair(rng, name)
        elif name == "Box":
            args = [a]
        elif name == "AlignRow":
            x = rng.randint(-20, 20)
            w = rng.choice([1, 2, 5, -2])
            args = [a, boxq(x, a[0][1], w, a[3][1] - a[0][1])]
        elif name == "AlignColumn":
            args = [a, boxq(a[0][0], rng.randint(-20, 20), a[1][0] - a[0][0], rng.choice([1, 3, -2]))]
        elif name == "CoincidentOutwardFaces":
            side = rng.choice(QSIDES)
            w, h, t = a[1][0] - a[0][0], a[3][1] - a[0][1], rng.randint(1, 5)
            x, y = a[0]
            args = [a, {"left": boxq(x - t, y, t, h), "right": boxq(x + w, y, t, h),
                        "bottom": boxq(x, y - t, w, t), "top": boxq(x, y + h, w, t)}[side]]
        else:
            side = rng.choice(QSIDES)
            n = rng.choice([1, 2, 3, 4, 5, rng.randint(6, 14)])
            args, params = [a], []
            pos = list(a[0])
            for _ in range(n - 1):
                w, h = args[-1][1][0] - args[-1][0][0], args[-1][3][1] - args[-1][0][1]
                nw, nh, m = rng.randint(1, 6), rng.randint(1, 6), rng.randint(-3, 5)
                x, y = args[-1][0]
                args.append({
                    "left": boxq(x - m - nw, rng.randint(-9, 9), nw, nh),
                    "right": boxq(x + w + m, rng.randint(-9, 9), nw, nh),
                    "bottom": boxq(rng.randint(-9, 9), y - m - nh, nw, nh),
                    "top": boxq(rng.randint(-9, 9), y + h + m, nw, nh)}[side])
                params.append([m, 1])
        args = [[list(p) for p in q] for q in args]
        if rng.random() < 0.75:
            q = rng.choice(args)
            q[rng.randrange(4)][rng.randrange(2)] += rng.choice([-7, -1, 1, 1, 2])
            if params and rng.random() < 0.3:
                i = rng.randrange(len(params))
                params[i] = [params[i][0] + rng.choice([-1, 1]), 1]
        if any(q[i] == q[(i + 1) % 4] for q in args for i in range(4)):
            continue
        data.append({"what": "constraint", "name": name, "side": side, "sh": ["Q"] * len(args),
                     "args": args, "params": params})
    rows = evaluated(check, "near-satisfied", data)
    cache = Cache()
    arrays = {}

    def get(case):
        if case["name"] != "OuterMarginArray":
            return Cache.get(cache, case)
        key = (len(case["args"]), case["side"])
        if key not in arrays:
            arrays[key] = cr.OuterMarginArray(shape=(key[0],), side=key[1])
        return arrays[key]

    cache.get = get
    # a margin array over one quadrilateral has nothing to say
    check_rows(check, "near-satisfied",
               [r for r in rows if not (r["case"]["name"] == "OuterMarginArray"
                                        and len(r["case"]["args"]) == 1)], cache)
