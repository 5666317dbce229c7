"""P06: covariance functions are the documented positive-definite kernels."""
import math

import mpmath
import numpy as np

from vf import ref
from vf.core import Prop, st
from vf.util import (
    A, F, N, check, chance, close, gnp, gp, integer, kernel_slack, pick, points, real, reals, shape,
)

PROP = Prop(
    "P06",
    rule="some kernel value lies strictly between 1e-12 and 1 - 1e-12 (profiles), or some off-diagonal covariance does (matrices), and for histories at least two different smoothness indices were evaluated before",
    assumptions=[
        "profiles are compared with the Bessel form evaluated by mpmath at 40 digits, tolerance 1e-11 absolute and 1e-9 relative down to 1e-250",
        "with torch the documented expansion of squared norms bounds how accurately coincident points are recognised: the explicit bound of vf/util.kernel_slack is used",
    ],
)


def bessel(p, h):
    with mpmath.workdps(40):
        nu = mpmath.mpf(p) + mpmath.mpf(1) / 2
        t = 2 * mpmath.sqrt(nu) * mpmath.mpf(h)
        if t == 0:
            return 1.0
        if t > 5000:
            return 0.0
        return float(2 ** (1 - nu) / mpmath.gamma(nu) * t**nu * mpmath.besselk(nu, t))


def g_profile(draw):
    hs = []
    for _ in range(integer(draw, 1, 7)):
        k = pick(draw, "mid", "small", "large", "zero", "huge")
        if k == "mid":
            hs.append(real(draw, 0.0, 4.0))
        elif k == "small":
            hs.append(10.0 ** real(draw, -15, -1))
        elif k == "large":
            hs.append(10.0 ** real(draw, 0.5, 3.0))
        elif k == "huge":
            hs.append(pick(draw, 1e4, 1e20, 1e100, 1e154, 1e300, 1.7e308, math.inf))
        else:
            hs.append(0.0)
    return {"h": [float(h) if math.isfinite(h) else "inf" for h in hs], "p": integer(draw, 0, 12), "mat": chance(draw, 1, 3)}


@PROP.case("profile", g_profile, quick=700, budget=(20, 200))
def c_profile(case, ctx):
    p = case["p"]
    h = np.array([math.inf if v == "inf" else v for v in case["h"]])
    arg = np.outer(np.ones(2), h) if case["mat"] else h
    k = N(gp.kernel.maternp_kernel(p, A(arg)))
    shape("kernel", k, arg.shape)
    if case["mat"]:
        close("same distance, same value", k[0], k[1])
        k = k[0]
    want = np.array([bessel(p, v) if math.isfinite(v) else 0.0 for v in h])
    check(not np.any(np.isnan(k)), f"NaN at distances {h[np.isnan(k)]}", "nan")
    close("Matern correlation", k, want, rtol=1e-9, atol=1e-250)
    close("Matern correlation", k, want, rtol=0, atol=1e-11)
    o = np.argsort(h)
    check(np.all(np.diff(k[o]) <= 1e-13), "kernel increases with distance", "monotone")
    check(np.all((k >= 0) & (k <= 1 + 1e-12)), "kernel outside [0, 1]", "range")
    fin = h <= 1e150
    e = N(gp.kernel.exponential_kernel(A(h[fin]))) if fin.any() else np.zeros(0)
    close("exponential kernel", e, np.exp(-h[fin]), rtol=1e-14)
    m = N(gp.kernel.matern32_kernel(A(h[fin]))) if fin.any() else np.zeros(0)
    close("Matern 3/2", m, [bessel(1, v) for v in h[fin]], rtol=1e-9, atol=1e-250)
    ctx.nontrivial(np.any((want > 1e-12) & (want < 1 - 1e-12)))
    ctx.tag(f"p={p}")


def g_cov(draw):
    d = integer(draw, 1, 4)
    n = integer(draw, 1, 9)
    m = integer(draw, 1, 7)
    scale = pick(draw, 1.0, 20.0, 0.01, 1e-7, 1e6)
    lo = pick(draw, 0.0, -0.5, 3.0, 1e3) * scale
    x = points(draw, n, d, scale=scale, lo=lo)
    if n > 1 and chance(draw, 1, 3):
        x[-1] = list(x[0])  # duplicate
    y = [
        list(x[integer(draw, 0, n - 1)]) if chance(draw, 1, 3) else [lo + scale * v for v in reals(draw, d, 0, 1)]
        for _ in range(m)
    ]
    if chance(draw, 1, 4):  # the same points, slightly moved
        step = scale * pick(draw, 0.1, 1e-3)
        y = [[v + step for v in r] for r in x]
    return {
        "x": x, "y": y, "p": integer(draw, 0, 6),
        "covparam": [real(draw, -5, 5)] + [float(v - math.log(scale)) for v in reals(draw, d, -1.0, 2.5)],
        "perm": draw(st.permutations(range(n))),
    }


@PROP.case("matrices", g_cov, quick=900, budget=(20, 200))
def c_cov(case, ctx):
    p, cp = case["p"], case["covparam"]
    x, y = np.asarray(case["x"]), np.asarray(case["y"])
    s2 = math.exp(cp[0])
    n, m = len(x), len(y)
    tol = s2 * (1e-12 + kernel_slack(ctx.backend, p, x, cp, y))
    cov = gp.kernel.maternp_covariance
    X, Y, C = A(x), A(y), A(cp)
    Kxx = N(cov(X, X, p, C))
    shape("K(x, x)", Kxx, (n, n))
    want = ref.matern_cov(x, x, p, cp)
    close("K(x, x)", Kxx, want + ref.nugget(cp) * np.eye(n), atol=tol)
    close("diagonal of K(x, x)", np.diag(Kxx), np.full(n, s2 + ref.nugget(cp)), rtol=1e-15 * 4)
    close("symmetry", Kxx, Kxx.T, rtol=1e-14, scale=s2)
    close("K(x, None)", N(cov(X, None, p, C)), Kxx, rtol=1e-14)
    Kc = N(cov(X, A(np.array(x)), p, C))
    close("K(x, copy of x) has no nugget", Kc, want, atol=tol)
    Kxy = N(cov(X, Y, p, C))
    shape("K(x, y)", Kxy, (n, m))
    close("K(x, y)", Kxy, ref.matern_cov(x, y, p, cp), atol=tol)
    close("K(y, x) = K(x, y)'", N(cov(Y, X, p, C)), Kxy.T, atol=2 * tol)
    # element-wise forms
    k = min(n, m)
    if n > m:
        xe, ye = x[:k], y
    else:
        xe, ye = x, y[:k]
    pw = N(cov(A(xe), A(ye), p, C, True))
    shape("element-wise", pw, (k,))
    close("element-wise", pw, np.diag(ref.matern_cov(xe, ye, p, cp)), atol=tol)
    for arg in (X, None):
        pd = N(cov(X, arg, p, C, pairwise=True))
        shape("element-wise, same points", pd, (n,))
        close("element-wise, same points", pd, np.full(n, s2), rtol=1e-14)
    # order of the points
    q = list(case["perm"])
    close("permuted points", N(cov(A(x[q]), A(y), p, C)), Kxy[q], atol=2 * tol)
    # positive semi-definite
    allp = np.vstack([x, y])
    ev = np.linalg.eigvalsh(N(cov(A(allp), None, p, C)))
    check(ev[0] >= -len(allp) * (tol + 1e-13 * s2), f"smallest eigenvalue {ev[0]}", "psd")
    off = want[~np.eye(n, dtype=bool)] / s2
    ctx.nontrivial(np.any((off > 1e-12) & (off < 1 - 1e-12)))
    if n > 1 and np.any(ref.dist(x, x)[np.triu_indices(n, 1)] == 0):
        ctx.tag("duplicated points")
    if np.any(ref.dist(x, y) == 0):
        ctx.tag("coincident points")


def g_hist(draw):
    return {
        "ops": draw(st.lists(st.tuples(st.integers(0, 12), st.integers(0, 2)), min_size=2, max_size=10)),
        "h": reals(draw, 4, 0.0, 3.0), "clear": chance(draw, 1, 2),
    }


@PROP.case("call-histories", g_hist, quick=300, budget=(15, 120))
def c_hist(case, ctx):
    """Tables shared between calls never change a value."""
    if case["clear"]:
        gp.config.clear_caches()
    h = np.asarray(case["h"])
    for p, mode in case["ops"]:
        arg = A(h)
        out = gp.kernel.maternp_kernel(p, arg)
        close(f"kernel p={p}", out, ref.matern_h(p, h), rtol=1e-10, atol=1e-12)
        close("distances left alone", arg, h)
        if mode == 1:
            out *= 0.0  # the caller owns the result
        elif mode == 2:
            x = A(h.reshape(-1, 1))
            K = gp.kernel.maternp_covariance(x, x, p, A([0.3, 0.1]))
            close("matrix", K, ref.matern_cov(h.reshape(-1, 1), h.reshape(-1, 1), p, [0.3, 0.1])
                  + ref.nugget([0.3]) * np.eye(4), atol=1e-10 if p else 1e-6)
    ctx.nontrivial(len({p for p, _ in case["ops"]}) >= 2)


def g_dist(draw):
    d = integer(draw, 1, 5)
    n, m = integer(draw, 1, 8), integer(draw, 1, 8)
    c = pick(draw, 0.0, 1.0, 100.0, 1e4)
    return {
        "x": [[c + v for v in reals(draw, d)] for _ in range(n)],
        "y": [[c + v for v in reals(draw, d)] for _ in range(m)],
        "lir": reals(draw, d, -2, 2),
    }


@PROP.case("distances", g_dist, quick=500, budget=(15, 120))
def c_dist(case, ctx):
    x, y, l = (np.asarray(case[k]) for k in ("x", "y", "lir"))
    w = np.exp(l)
    k = min(len(x), len(y))
    spread = max(np.max(np.abs((np.vstack([x, y]) - x.mean(0)) * w)), 1e-12)
    tol = 1e-12 * (1 + np.max(np.abs(x)) * np.max(w))
    if ctx.backend == "torch":
        tol += math.sqrt(16 * np.finfo(float).eps * x.shape[1]) * spread
    for nm, got, want in (
        ("distance", gnp.scaled_distance(A(l), A(x), A(y)), ref.dist(x, y, w)),
        ("cdist", gnp.cdist(A(x), A(y)), ref.dist(x, y)),
    ):
        g = N(got)
        shape(nm, g, want.shape)
        # squared distances are accurate even where small distances are not
        close(nm + " squared", g**2, want**2, rtol=1e-9, atol=tol**2 + 1e-13 * (np.max(np.abs(x)) * (np.max(w) + 1)) * (spread + 1) )
        close(nm, g, want, atol=tol * (1 if nm == "distance" else 1 / min(np.min(w), 1)) )
    X = A(x)
    D = N(gnp.scaled_distance(A(l), X, X))
    close("zero diagonal", np.diag(D), np.zeros(len(x)), atol=tol)
    close("symmetric", D, D.T, atol=1e-12 * (1 + spread))
    e = N(gnp.scaled_distance_elementwise(A(l), A(x[:k]), A(y[:k])))
    shape("element-wise", e, (k,))
    close("element-wise distance", e, np.diag(ref.dist(x[:k], y[:k], w)), rtol=1e-10, scale=np.max(np.abs(x)) * np.max(w) * 1e-4)
    close("element-wise, same points", gnp.scaled_distance_elementwise(A(l), X, None), np.zeros(len(x)))
    ctx.nontrivial(np.any(x[:k] != y[:k]))
