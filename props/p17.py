"""P17: designs fill the requested box and their criteria are exact."""
import itertools
import math

import numpy as np

from vf.core import Prop, st
from vf.util import N, check, chance, close, integer, pick, raises, real, reals, same, shape

from gpmp.misc import designs as D

PROP = Prop(
    "P17",
    rule="at least three points in dimension two or more, or a box that is not the unit cube",
    assumptions=[
        "the generators draw from the global generator or from an unseeded one; only facts true for every draw are asserted, and the uniform law at significance 1e-9",
        "maximin designs need at least two points",
    ],
)


def box(draw, d):
    lo = reals(draw, d, -5, 5)
    w = reals(draw, d, 0.1, 8)
    if chance(draw, 1, 4):
        return [[0.0] * d, [1.0] * d]
    return [lo, [a + b for a, b in zip(lo, w)]]


def inside(x, b, what):
    lo, hi = np.asarray(b[0]), np.asarray(b[1])
    e = 1e-12 * (1 + np.abs(lo) + np.abs(hi))
    check(np.all(x >= lo - e) and np.all(x <= hi + e), f"{what}: point outside the box", "box")


def g_gen(draw):
    d, n = integer(draw, 1, 4), integer(draw, 2, 9)
    return {"d": d, "n": n, "box": box(draw, d), "kind": pick(draw, "maximinlhs", "ldrandunif", "randunif"), "iters": pick(draw, 1, 5, 20), "seed": integer(draw, 0, 10**6), "np": chance(draw, 1, 3)}


def g_ld(draw):
    c = g_gen(draw)
    d, n = pick(draw, (1, 4), (2, 4), (3, 8), (1, 7))  # other sizes take seconds
    return dict(c, kind="maximinldlhs", d=d, n=n, box=box(draw, d))


@PROP.case("low-discrepancy-lhs", g_ld, quick=25, thorough=150, budget=(8, 60), backends=("numpy",))
def c_ld(case, ctx):
    c_gen(case, ctx)


@PROP.case("generators", g_gen, quick=400, budget=(25, 250), backends=("numpy",))
def c_gen(case, ctx):
    d, n, b = case["d"], case["n"], case["box"]
    arg = np.array(b) if case["np"] else b
    np.random.seed(case["seed"])
    k = case["kind"]
    if k in ("maximinlhs", "ldrandunif"):
        x = getattr(D, k)(d, n, arg, max_iter=case["iters"])
    else:
        x = getattr(D, k)(d, n, arg)
    shape("design", x, (n, d))
    inside(x, b, k)
    lo, hi = np.asarray(b[0]), np.asarray(b[1])
    if "lhs" in k:
        u = (x - lo) / (hi - lo) * n
        for j in range(d):
            # a point on the border of two strata may be counted in either
            ok = np.all(np.abs(np.sort(u[:, j]) - (np.arange(n) + 0.5)) <= 0.5 + 1e-9)
            check(ok, f"{k}: coordinate {j} does not have one point per stratum: {np.sort(u[:, j])}", "strata")
        check(D.mindist(x) > 0, f"{k}: repeated points", "distinct")
    check(np.allclose(np.asarray(arg), np.asarray(b)), "box modified", "box")
    ctx.nontrivial(n >= 3)
    ctx.tag(k)


def g_law(draw):
    d = integer(draw, 1, 3)
    return {"d": d, "box": box(draw, d), "kind": pick(draw, "randunif", "ldrandunif", "maximinlhs"), "seed": integer(draw, 0, 10**6)}


@PROP.case("laws", g_law, quick=12, thorough=60, budget=(20, 100), backends=("numpy",))
def c_law(case, ctx):
    """every coordinate covers the whole box uniformly, coordinates are unrelated."""
    d, b = case["d"], case["box"]
    np.random.seed(case["seed"])
    lo, hi = np.asarray(b[0]), np.asarray(b[1])
    if case["kind"] == "randunif":
        x = D.randunif(d, 20000, b)
    elif case["kind"] == "ldrandunif":
        x = np.vstack([D.ldrandunif(d, 1, b, max_iter=1) for _ in range(4000)])
    else:
        x = np.vstack([D.maximinlhs(d, 2, b, max_iter=1) for _ in range(2000)])
    u = (x - lo) / (hi - lo)
    n = len(u)
    # Dvoretzky-Kiefer-Wolfowitz (pairs of a hypercube are negatively related: harmless)
    eps = math.sqrt(math.log(2 * d / 1e-9) / (2 * n)) * (2 if case["kind"] == "maximinlhs" else 1)
    for j in range(d):
        s = np.sort(u[:, j])
        dev = max(np.max(np.arange(1, n + 1) / n - s), np.max(s - np.arange(n) / n))
        check(dev <= eps, f"coordinate {j} is not uniform on the box: deviation {dev:.3f} > {eps:.3f}", "law")
    m = u if case["kind"] != "maximinlhs" else u[::2]
    for i, j in itertools.combinations(range(d), 2):
        c = float(np.mean((m[:, i] - 0.5) * (m[:, j] - 0.5))) * 12
        check(abs(c) < 7 * 3 / math.sqrt(len(m)), f"coordinates {i}, {j} are related: {c}", "law")
    ctx.nontrivial()
    ctx.tag(case["kind"])


def g_grid(draw):
    d = integer(draw, 1, 4)
    return {"d": d, "box": box(draw, d), "n": [integer(draw, 1, 4) for _ in range(d)], "int": chance(draw, 1, 2)}


@PROP.case("grids", g_grid, quick=300, budget=(10, 60), backends=("numpy",))
def c_grid(case, ctx):
    d, b = case["d"], case["box"]
    n = [case["n"][0]] * d if case["int"] else case["n"]
    x = D.regulargrid(d, case["n"][0] if case["int"] else list(n), b)
    shape("grid", x, (int(np.prod(n)), d))
    lev = []
    for j in range(d):
        lo, hi = b[0][j], b[1][j]
        lev.append([lo] if n[j] == 1 else [lo + (hi - lo) * i / (n[j] - 1) for i in range(n[j])])
    want = np.array(list(itertools.product(*lev)))
    key = lambda a: a[np.lexsort(np.round(a, 9).T[::-1])]
    close("grid contains every combination once", key(x), key(want), rtol=1e-12, scale=10.0, sig="grid")
    ctx.nontrivial(d >= 2)


def g_crit(draw):
    d, n = integer(draw, 1, 3), integer(draw, 2, 8)
    return {"d": d, "x": [reals(draw, d, 0, 1) for _ in range(n)], "t": [reals(draw, d, -0.2, 1.2) for _ in range(integer(draw, 1, 9))], "box": box(draw, d), "seed": integer(draw, 0, 1000),
            "more": pick(draw, 0, 0, 0, 60)}


@PROP.case("criteria", g_crit, quick=400, budget=(15, 120), backends=("numpy",))
def c_crit(case, ctx):
    x, t, b = np.asarray(case["x"]), np.asarray(case["t"]), case["box"]
    if case["more"]:  # enough points for a search tree with several levels
        g = np.random.default_rng(case["seed"])
        x = np.vstack([x, g.random((case["more"], x.shape[1]))])
        t = np.vstack([t, g.random((30, x.shape[1]))])
        ctx.tag("many points")
    n, d = x.shape
    dd = [math.dist(x[i], x[j]) for i in range(n) for j in range(i)]
    close("largest distance", D.maxdist(x), max(dd), rtol=1e-12)
    close("smallest distance", D.mindist(x), min(dd), rtol=1e-12)
    # centred L2 discrepancy by its definition
    c = np.abs(x - 0.5)
    s1 = sum(np.prod(1 + 0.5 * c[i] - 0.5 * c[i] ** 2) for i in range(n))
    s2 = sum(np.prod(1 + 0.5 * c[i] + 0.5 * c[j] - 0.5 * np.abs(x[i] - x[j])) for i in range(n) for j in range(n))
    close("discrepancy", D.discrepancy(x), (13 / 12) ** d - 2 / n * s1 + s2 / n**2, rtol=1e-10, atol=1e-12)
    fd = max(min(math.dist(p, q) for q in x) for p in t)
    close("fill distance on given points", D.filldist_approx(x, [[0.0] * d, [1.0] * d], x=t), fd, rtol=1e-12)
    y = D.scale(x, b)
    lo, hi = np.asarray(b[0]), np.asarray(b[1])
    close("scaling", y, lo + x * (hi - lo), rtol=1e-12, scale=1.0)
    inside(y, b, "scaling")
    # random discretisation: a lower bound of the fill distance, close to it in dimension one
    np.random.seed(case["seed"])
    got = D.filldist_approx(y, b, n=4000)
    if d == 1:
        s = np.sort(y[:, 0])
        exact = max([s[0] - lo[0], hi[0] - s[-1]] + list(np.diff(s) / 2))
        check(got <= exact * (1 + 1e-12) and got >= exact - 0.01 * (hi[0] - lo[0]), f"fill distance {got}, exact {exact}", "fill")
    else:
        def farthest(p):
            return float(np.sqrt(((p[:, None, :] - y[None]) ** 2).sum(2)).min(1).max())

        corner = farthest(np.array(list(itertools.product(*zip(lo, hi)))))
        ref = farthest(np.array(list(itertools.product(*[np.linspace(u, v, 9) for u, v in zip(lo, hi)]))))
        cell = math.dist(lo, hi) / 8
        check(got <= max(ref, corner) + cell and got >= ref - 0.35 * math.dist(lo, hi), f"fill distance {got}, grid value {ref}", "fill")
    ctx.nontrivial(n >= 3 and d >= 2)


def g_opt(draw):
    return {"kind": pick(draw, "maximinlhs", "ldrandunif"), "d": pick(draw, 2, 3), "n": integer(draw, 5, 8), "seed": integer(draw, 0, 10**6)}


@PROP.case("optimised-ld-designs", lambda draw: {"kind": "maximinldlhs", "d": 2, "n": 4, "seed": integer(draw, 0, 10**6)}, quick=1, thorough=3, budget=(30, 100), backends=("numpy",), guard=200.0)
def c_opt_ld(case, ctx):
    c_opt(case, ctx)


@PROP.case("optimised-designs", g_opt, quick=8, thorough=40, budget=(25, 150), backends=("numpy",))
def c_opt(case, ctx):
    """sign test: best of m beats an unoptimised design with probability m / (m + 1)."""
    d, n = case["d"], case["n"]
    np.random.seed(case["seed"])
    unit = [[0.0] * d, [1.0] * d]
    win = 0
    k = case["kind"]
    if k == "maximinlhs":
        pairs, need = 60, 42  # p = 50/51; chance of a miss below 1e-20
        for _ in range(pairs):
            win += D.mindist(D.maximinlhs(d, n, unit, max_iter=50)) > D.mindist(D.maximinlhs(d, n, unit, max_iter=1))
    elif k == "ldrandunif":
        pairs, need = 60, 42
        for _ in range(pairs):
            win += D.discrepancy(D.ldrandunif(d, n, unit)) < D.discrepancy(np.random.rand(n, d))
    else:
        from scipy.stats import qmc

        pairs, need = 60, 36  # p = 10/11; chance of a miss below 1e-9
        plain = qmc.LatinHypercube(d=d, optimization="random-cd", rng=case["seed"])
        for _ in range(pairs):
            win += D.mindist(D.maximinldlhs(d, n, unit)) > D.mindist(plain.random(n))
    check(win >= need, f"{k} beats an unoptimised design in {win} of {pairs} trials, at least {need} expected", "optimised")
    ctx.nontrivial()
    ctx.tag(k)
