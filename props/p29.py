"""P29: test functions equal their published formulas."""
import math

import numpy as np

from vf.core import Prop, st
from vf.util import N, check, chance, close, integer, pick, real, reals, same, shape

from gpmp.misc import testfunctions as T

PROP = Prop(
    "P29",
    rule="a point strictly inside the domain, at least two rows",
    assumptions=["formulas as printed in the documentation of each function and in the reference it cites; Ishigami with a = 5 as documented"],
)

HA = [[10, 3, 17, 3.5, 1.7, 8], [0.05, 10, 17, 0.1, 8, 14], [3, 3.5, 1.7, 10, 17, 8], [17, 8, 0.05, 10, 0.1, 14]]
HP = [[0.1312, 0.1696, 0.5569, 0.0124, 0.8283, 0.5886], [0.2329, 0.4135, 0.8307, 0.3736, 0.1004, 0.9991], [0.2348, 0.1451, 0.3522, 0.2883, 0.3047, 0.6650], [0.4047, 0.8828, 0.8732, 0.5743, 0.1091, 0.0381]]
AL = [1.0, 1.2, 3.0, 3.2]


def hart(x):
    return sum(AL[i] * math.exp(-sum(HA[i][j] * (x[j] - HP[i][j]) ** 2 for j in range(len(x)))) for i in range(4))


def bore(x):
    rw, r, Tu, Hu, Tl, Hl, L, Kw = x
    lg = math.log(r / rw)
    return 2 * math.pi * Tu * (Hu - Hl) / (lg * (1 + 2 * L * Tu / (lg * rw**2 * Kw) + Tu / Tl))


def detpep(x):
    v = 4 * (x[0] - 2 + 8 * x[1] - 8 * x[1] ** 2) ** 2 + (3 - 4 * x[1]) ** 2 + 16 * math.sqrt(x[2] + 1) * (2 * x[2] - 1) ** 2
    return v + sum(i * math.log(1 + sum(x[2:i])) for i in range(4, 9))


def branin(x):
    a, b = x
    return (b - 5.1 / (4 * math.pi**2) * a**2 + 5 / math.pi * a - 6) ** 2 + 10 * (1 - 1 / (8 * math.pi)) * math.cos(a) + 10


FUN = {
    "wave": (2, [(-1, 1)] * 2, lambda x: math.exp(1.8 * (x[0] + x[1])) + 3 * x[0] + 6 * x[1] ** 2 + 3 * math.sin(4 * math.pi * x[0])),
    "braninhoo": (2, [(-5, 10), (0, 15)], branin),
    "hartmann4": (4, [(0, 1)] * 4, lambda x: (1.1 - hart(x)) / 0.839),
    "hartmann6": (6, [(0, 1)] * 6, lambda x: -hart(x)),
    "borehole": (8, [(0.05, 0.15), (100, 50000), (63070, 115600), (990, 1110), (63.1, 116), (700, 820), (1120, 1680), (9855, 12045)], bore),
    "detpep8d": (8, [(0, 1)] * 8, detpep),
    "ishigami": (3, [(-math.pi, math.pi)] * 3, lambda x: math.sin(x[0]) + 5 * math.sin(x[1]) ** 2 + 0.1 * x[2] ** 4 * math.sin(x[0])),
    "twobumps": (1, [(-1, 1)], lambda x: -(0.7 * x[0] + math.sin(5 * x[0] + 1) + 0.1 * math.sin(10 * x[0]))),
}


def g_f(draw):
    f = pick(draw, *FUN)
    d, dom, _ = FUN[f]
    n = integer(draw, 1, 5)
    return {"f": f, "x": [[float(v) for v in (real(draw, a, b) for a, b in dom)] for _ in range(n)], "col": chance(draw, 1, 2)}


@PROP.case("formulas", g_f, quick=600, thorough=8000, budget=(15, 150), backends=("numpy",))
def c_f(case, ctx):
    d, dom, f = FUN[case["f"]]
    x = np.asarray(case["x"], float)
    n = len(x)
    g = getattr(T, case["f"])
    arg = x[:, 0].copy() if case["f"] == "twobumps" and not case["col"] else x.copy()
    keep = arg.copy()
    y = g(arg)
    shape(case["f"], y, (n,))
    want = np.array([f(list(r)) for r in x])
    sc = {"borehole": 100.0, "wave": 40.0, "braninhoo": 300.0, "detpep8d": 200.0}.get(case["f"], 10.0)
    close(case["f"], y, want, rtol=1e-10, scale=sc * 1e-3)
    same("points left alone", arg, keep)
    one = np.concatenate([np.ravel(g(arg[i : i + 1])) for i in range(n)])
    close("row by row", one, y, rtol=1e-12, scale=1e-3)
    ctx.nontrivial(n >= 2)
    ctx.tag(case["f"])


# minimisers and minima published with the functions
OPT = [
    ("braninhoo", [math.pi, 2.275], 0.397887), ("braninhoo", [-math.pi, 12.275], 0.397887), ("braninhoo", [9.42478, 2.475], 0.397887),
    ("hartmann6", [0.20169, 0.150011, 0.476874, 0.275332, 0.311652, 0.6573], -3.32237),
]


@PROP.case("published-minima", lambda draw: {"i": integer(draw, 0, len(OPT) - 1)}, quick=20, thorough=20, budget=(5, 20), backends=("numpy",))
def c_opt(case, ctx):
    f, x, v = OPT[case["i"]]
    close(f"published minimum of {f}", getattr(T, f)(np.array([x]))[0], v, atol=2e-5)
    ctx.nontrivial()
