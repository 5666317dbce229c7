"""P07: simulated paths have the model law and honour the data."""
import math

import numpy as np

from vf import ref
from vf.core import Prop, st
from vf.util import (
    A, N, check, chance, close, covparam_for, gnp, gp_case, integer, kernel_slack, make_model,
    mean_spec, pick, points, raises, real, reals, ref_predict, shape, tol_for,
)

PROP = Prop(
    "P07",
    rule="laws: at least two correlated points (some off-diagonal correlation above 0.05); conditioning: at least one observed and one unobserved target whose posterior variance is below 99% of the prior or whose mean is unknown",
    assumptions=[
        "the law of unconditional paths is tested on 40000 whitened paths per case: second moments at 8 standard errors, means and tail frequencies at 7.5 (false-alarm probability below 1e-10 per case)",
        "the law of conditional paths is decided exactly: the conditioning map is affine, its matrix is read off unit paths and pushed through the reference covariance",
        "covariance matrices have condition number at most 1e6 (laws) and 1e6 (conditioning) by construction; the singular case (duplicated points) is only run with the symmetric-square-root method, which is the documented one for it",
    ],
)

M = 40000


def gaussian_iid(W, what):
    """W (n, M): rows and columns independent standard normal."""
    n, m = W.shape
    check(np.all(np.isfinite(W)), f"{what}: not finite", "nan")
    close(f"{what}: mean", W.mean(1), np.zeros(n), atol=7.5 / math.sqrt(m))
    C = W @ W.T / m
    close(f"{what}: variances", np.diag(C), np.ones(n), atol=8 * math.sqrt(2.0 / m))
    close(f"{what}: correlations", C - np.diag(np.diag(C)), np.zeros((n, n)), atol=8 / math.sqrt(m))
    for lag in (1, m // 2):
        c = np.sum(W[:, lag:] * W[:, :-lag])
        close(f"{what}: paths {lag} apart are independent", c, 0.0, atol=8 * math.sqrt(n * m))
    for t in (0.5, 1.0, 2.0):
        f = math.erf(t / math.sqrt(2))
        close(f"{what}: frequency of |w| < {t}", np.mean(np.abs(W) < t), f, atol=7.5 * math.sqrt(f * (1 - f) / (n * m)))
    pos = np.mean(W > 0)
    close(f"{what}: sign", pos, 0.5, atol=7.5 * 0.5 / math.sqrt(n * m))


def g_law(draw):
    d, n = integer(draw, 1, 3), integer(draw, 1, 7)
    x = points(draw, n, d, scale=pick(draw, 1.0, 50.0, 0.02))
    p = integer(draw, 0, 3)
    return {
        "x": x, "p": p, "covparam": covparam_for(draw, x, p, condmax=1e6, logs2=(-18, 18)),
        "mean": mean_spec(draw, x), "method": pick(draw, "chol", "svd"),
        "seed": integer(draw, 0, 10**6), "check": chance(draw, 1, 2), "dup": chance(draw, 1, 3),
    }


@PROP.case("unconditional-law", g_law, quick=140, budget=(25, 250))
def c_law(case, ctx):
    x = np.asarray(case["x"])
    n = len(x)
    s2 = math.exp(case["covparam"][0])
    slack = kernel_slack(ctx.backend, case["p"], x, case["covparam"])
    if slack > 1e-8:
        ctx.tag("skipped: rounding of distances")
        return
    dup = case["dup"] and case["method"] == "svd"
    xx = np.vstack([x, x[::-1]]) if dup else x
    model = make_model(case["mean"], case["p"], case["covparam"])
    gnp.set_seed(case["seed"])
    kw = {} if case["check"] and case["method"] == "chol" else {"method": case["method"], "check_result": case["check"]}
    Z = N(model.sample_paths(A(xx) if case["check"] else np.array(xx), M, **kw))
    shape("paths", Z, (len(xx), M))
    if dup:
        ctx.tag("duplicated points")
        close("duplicated points carry the same value", Z[n:][::-1], Z[:n],
              atol=9 * math.sqrt(s2) * math.sqrt(2 * 2 * n * slack + 50 * n * 2.3e-16))
        Z = Z[:n]
    K = ref.matern_cov(x, x, case["p"], case["covparam"])
    W = np.linalg.solve(np.linalg.cholesky(K), Z)
    gaussian_iid(W, "whitened paths")
    ctx.tag(case["method"])
    off = np.abs(K[~np.eye(n, dtype=bool)]) / s2
    ctx.nontrivial(n >= 2 and off.max() > 0.05)


def g_few(draw):
    n = integer(draw, 1, 5)
    x = points(draw, n, 1)
    return {"x": x, "covparam": covparam_for(draw, x, 1, condmax=1e4), "k": integer(draw, 1, 4),
            "method": pick(draw, "chol", "svd"), "seed": integer(draw, 0, 10**6)}


@PROP.case("path-counts", g_few, quick=150, budget=(15, 100))
def c_few(case, ctx):
    """Any number of paths; repeated calls give fresh, reproducible paths; unknown methods are refused."""
    x, k = np.asarray(case["x"]), case["k"]
    model = make_model({"type": "zero"}, 1, case["covparam"])
    draws = []
    for _ in range(2):
        gnp.set_seed(case["seed"])
        a = N(model.sample_paths(A(x), k, method=case["method"]))
        b = N(model.sample_paths(A(x), k, method=case["method"]))
        shape("paths", a, (len(x), k))
        check(np.all(np.isfinite(a)), "not finite", "nan")
        check(not np.any(a == b), "two calls returned the same values", "stale")
        check(k == 1 or np.unique(a[0]).size == k, "two paths coincide", "stale")
        draws.append((a, b))
    close("same seed, same paths", draws[0][0], draws[1][0], rtol=1e-12, scale=1.0)
    close("same seed, same second draw", draws[0][1], draws[1][1], rtol=1e-12, scale=1.0)
    big = 12 * math.exp(case["covparam"][0] / 2)
    check(np.max(np.abs(a)) < big, "path further than 12 standard deviations", "size")
    check(raises(lambda: model.sample_paths(A(x), k, method="cholesky?"), ValueError), "unknown method accepted", "accept")
    ctx.nontrivial(len(x) >= 2)


def g_cond(draw):
    c = gp_case(draw, nmin=2, nmax=11, nt=None)
    n = len(c["x"])
    # all points live on one grid; observations and targets are index lists on it
    extra = integer(draw, 0, 4)
    lo, hi = np.min(c["x"], 0), np.max(c["x"], 0)
    w = np.maximum(hi - lo, 1e-9)
    c["extra"] = [[float(lo[j] + w[j] * v) for j, v in enumerate(reals(draw, len(lo), -0.2, 1.2))] for _ in range(extra)]
    c["order"] = list(draw(st.permutations(range(n + extra))))
    tot = n + extra
    c["xt_ind"] = draw(st.lists(st.integers(0, tot - 1), min_size=1, max_size=8))
    c["layout"] = pick(draw, "list", "numpy", "backend", "column")
    c["zcol"] = chance(draw, 1, 3)
    c["cout"] = chance(draw, 2, 3)
    c["route"] = pick(draw, "predict", "predictor")
    c["nb"] = integer(draw, 1, 4)
    c["e"] = reals(draw, (n + extra) * c["nb"])
    return c


def indices(v, layout):
    v = [int(i) for i in v]
    if layout == "list":
        return v
    a = np.array(v, dtype=int)
    if layout == "numpy":
        return a
    return gnp.asarray(a)


@PROP.case("conditioning", g_cond, quick=800, budget=(25, 250))
def c_cond(case, ctx):
    p, cp, mean = case["p"], case["covparam"], case["mean"]
    n, ex = len(case["x"]), len(case["extra"])
    grid0 = np.vstack([np.asarray(case["x"])] + ([np.asarray(case["extra"])] if ex else []))
    order = np.array(case["order"])
    grid = grid0[order]
    where = np.argsort(order)  # grid position of the original points
    xi_ind = where[:n]
    xt_ind = np.array(case["xt_ind"])
    xi, zi = np.asarray(case["x"]), np.asarray(case["z"])
    xt = grid[xt_ind]
    rt = tol_for(ctx.backend, p, xi, cp, grid)
    if rt is None:
        ctx.tag("skipped: rounding of distances")
        return
    model = make_model(mean, p, cp)
    if case["route"] == "predict":
        lam = model.predict(A(xi), A(zi), A(xt), return_lambdas=True)[2]
    elif mean["type"] == "linear_predictor":
        lam = model.kriging_predictor(A(xi), A(xt))[0]
    else:
        lam = model.kriging_predictor_with_zero_mean(A(xi), A(xt))[0]
    shape("weights", lam, (n, len(xt)))
    lay = case["layout"]
    i_arg = indices(xi_ind, "numpy" if lay == "column" else lay)
    t_arg = indices(xt_ind, "numpy" if lay == "column" else lay)
    if lay == "column":
        i_arg = i_arg.reshape(-1, 1)
    zarg = A(zi).reshape(-1, 1) if case["zcol"] else A(zi)
    par = mean["type"] == "parameterized"

    def condition(Z, z):
        if par:
            return model.conditional_sample_paths_parameterized_mean(
                Z, A(xi), i_arg, z, A(xt), t_arg, lam, convert_out=case["cout"])
        return model.conditional_sample_paths(Z, i_arg, z, t_arg, lam, convert_out=case["cout"])

    tot = len(grid)
    I = np.hstack([np.zeros((tot, 1)), np.eye(tot)])
    out = condition(A(I), zarg)
    check(not case["cout"] or isinstance(out, np.ndarray), "convert_out=True did not give an ndarray", "type")
    out = N(out)
    shape("conditional paths", out, (len(xt), tot + 1))
    mref, Cref, lref = ref_predict(mean, p, cp, xi, zi, xt)
    ls = float(np.max(np.sum(np.abs(lref), axis=0)))
    zc = zi - ref.param_mean(mean["kind"], mean["theta"], xi) if par else zi
    zs = (1 + ls) ** 2 * (np.max(np.abs(zi)) + np.max(np.abs(zc))) + 1e-300
    s2 = math.exp(cp[0])
    close("conditional mean", out[:, 0], mref, rtol=rt, scale=zs)
    B = out[:, 1:] - out[:, :1]
    Kg = ref.matern_cov(grid, grid, p, cp)
    C = B @ Kg @ B.T
    close("conditional covariance", C, Cref, rtol=10 * rt, scale=s2 * (1 + ls) ** 2)
    # every path, whatever it is, goes through the data and depends on it affinely
    E = np.asarray(case["e"]).reshape(tot, case["nb"]) * math.sqrt(s2)
    ztsim = A(E) if case["cout"] else np.array(E)
    got = N(condition(ztsim, zarg))
    shape("conditional paths", got, (len(xt), case["nb"]))
    esize = math.sqrt(s2) * 3 * (1 + ls) ** 2
    close("affine in the path", got, B @ E + out[:, :1], rtol=1e-11, scale=zs + esize * tot)
    close("input paths left alone", ztsim, E)
    obs = {int(g): k for k, g in enumerate(xi_ind)}
    hit = 0
    for r, g in enumerate(xt_ind):
        if int(g) in obs:
            close("path at an observed point", got[r], np.full(case["nb"], zi[obs[int(g)]]), rtol=10 * rt, scale=zs + esize)
            hit += 1
    new = [r for r, g in enumerate(xt_ind) if int(g) not in obs]
    ctx.tag(mean["type"])
    ctx.tag("layout " + lay)
    if hit:
        ctx.tag("target observed")
    ctx.nontrivial(bool(hit and new and any(Cref[r, r] < 0.99 * s2 or mean["type"] == "linear_predictor" for r in new)))
