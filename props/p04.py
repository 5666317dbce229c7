"""P04: likelihood criteria are the exact Gaussian log-densities."""
import math

import numpy as np

from vf import ref
from vf.core import Prop, st
from vf.util import (
    WIDE, A, F, N, check, chance, close, fail, gnp, gp, gp_case, integer, kernel_slack, make_model,
    pick, points, real, reals, shape, user_kernel, well_posed,
)

PROP = Prop(
    "P04",
    rule="at least two observations that are not all zero (degenerate cases: the covariance matrix is exactly singular or indefinite)",
    assumptions=[
        "finite values are compared with condition number of the covariance matrix at most 1e6; tolerance 1e-8 relative to (n + log-determinant terms + quadratic form), plus with torch an explicit bound for the rounding of distances (skipped and counted when above 1e-3)",
        "singular cases use kernels without nugget whose matrix is exactly singular or has a clearly negative eigenvalue",
    ],
)


def slack(ctx, case, K):
    ks = kernel_slack(ctx.backend, case["p"], case["x"], case["covparam"])
    kinv = math.exp(case["covparam"][0]) / np.linalg.eigvalsh(K)[0]
    r = 1e-8 + 5.0 * len(K) * kinv * ks
    return r if r < 1e-3 else None


def kmat(case):
    x = np.asarray(case["x"])
    return ref.matern_cov(x, x, case["p"], case["covparam"]) + ref.nugget(case["covparam"]) * np.eye(len(x))


def g_ml(draw):
    c = gp_case(draw, nmin=1, nmax=12, nt=None, kinds=("zero", "parameterized"), **WIDE)
    c["perm"] = draw(st.permutations(range(len(c["x"]))))
    return c


@PROP.case("likelihood", g_ml, quick=900, budget=(20, 200))
def c_ml(case, ctx):
    model = make_model(case["mean"], case["p"], case["covparam"])
    K, z = kmat(case), np.asarray(case["z"])
    rt = slack(ctx, case, K)
    if rt is None:
        ctx.tag("skipped: rounding of distances")
        return
    x, cp = A(case["x"]), A(case["covparam"])
    q = list(case["perm"])
    xq, zq = A(np.asarray(case["x"])[q]), A(z[q])
    if case["mean"]["type"] == "zero":
        L = model.negative_log_likelihood_zero_mean(cp, x, A(z))
        Lq = model.negative_log_likelihood_zero_mean(cp, xq, zq)
        L2 = gp.kernel.negative_log_likelihood_zero_mean(model, cp, x, A(z))
        zc = z
        ninv = model.k_inverses(x, A(z), cp)
        check(len(ninv) == 3, "k_inverses must return three values", "shape")
        Ki = np.linalg.inv(K)
        close("z' K^-1 z", F(ninv[0]), z @ Ki @ z, rtol=rt, scale=np.linalg.norm(Ki, 2) * (z @ z))
        close("K^-1 1", N(ninv[1]).reshape(-1), Ki.sum(1), rtol=rt, scale=np.linalg.norm(Ki, 2) * len(z))
        close("K^-1 z", N(ninv[2]).reshape(-1), Ki @ z, rtol=rt, scale=np.linalg.norm(Ki, 2) * np.linalg.norm(z))
        nk = F(model.norm_k_sqrd_with_zero_mean(x, A(z), cp))
        close("norm", nk, z @ np.linalg.solve(K, z), rtol=rt, scale=z @ z / np.linalg.eigvalsh(K)[-1])
    else:
        th = A(case["mean"]["theta"])
        L = model.negative_log_likelihood(th, cp, x, A(z))
        Lq = model.negative_log_likelihood(th, cp, xq, zq)
        L2 = gp.kernel.negative_log_likelihood(model, th, cp, x, A(z))
        zc = z - ref.param_mean(case["mean"]["kind"], case["mean"]["theta"], case["x"])
    want = ref.gauss_nll(K, zc)
    scale = len(z) * 3 + abs(np.linalg.slogdet(K)[1]) + zc @ np.linalg.solve(K, zc)
    shape("criterion", L, ())
    close("negative log-likelihood", F(L), want, rtol=rt, scale=scale)
    close("reordered data", F(Lq), want, rtol=rt, scale=scale)
    close("criterion wrapper", F(L2), want, rtol=rt, scale=scale)
    ctx.nontrivial(len(z) >= 2 and np.any(zc != 0))
    ctx.tag(case["mean"]["type"])


def g_reml(draw):
    c = gp_case(draw, nmin=2, nmax=12, nt=None, kinds=("linear_predictor",), units=WIDE["units"])
    n = len(c["x"])
    c["perm"] = draw(st.permutations(range(n)))
    c["beta"] = reals(draw, 9)
    c["mix"] = reals(draw, 81, -1.0, 1.0)
    return c


def other_basis(kind, M):
    """A basis of the same function space."""
    from vf.util import gnp_basis

    f = gnp_basis(kind)

    def mean(x, p):
        return gnp.matmul(f(x, p), A(M))

    return mean


@PROP.case("restricted-likelihood", g_reml, quick=900, budget=(20, 200))
def c_reml(case, ctx):
    model = make_model(case["mean"], case["p"], case["covparam"])
    K, z = kmat(case), np.asarray(case["z"])
    rt = slack(ctx, case, K)
    if rt is None:
        ctx.tag("skipped: rounding of distances")
        return
    x, cp = A(case["x"]), A(case["covparam"])
    P = ref.basis(case["mean"]["kind"], case["x"])
    n, k = P.shape
    want = ref.reml(K, P, z)
    # second oracle: integrating the coefficients out
    Ki = np.linalg.inv(K)
    B = P.T @ Ki @ P
    Qz = Ki @ z - Ki @ P @ np.linalg.solve(B, P.T @ Ki @ z)
    alt = 0.5 * (
        (n - k) * math.log(2 * math.pi) + np.linalg.slogdet(K)[1] + np.linalg.slogdet(B)[1]
        - np.linalg.slogdet(P.T @ P)[1] + z @ Qz
    )
    W = ref.contrasts(P)
    G = W.T @ K @ W
    quad = (W.T @ z) @ np.linalg.solve(G, W.T @ z)
    beta = np.asarray(case["beta"])[:k]
    pb = np.max(np.abs(P @ beta))
    ev = np.linalg.eigvalsh(G)
    scale = 3 * n + abs(np.linalg.slogdet(K)[1]) + quad
    zb2 = 1e-10 * (pb**2 + np.max(np.abs(z)) ** 2) / ev[0]  # rounding of the projection
    L = model.negative_log_restricted_likelihood(cp, x, A(z))
    shape("criterion", L, ())
    close("restricted likelihood", F(L), want, rtol=rt, scale=scale, atol=zb2)
    close("restricted likelihood (integrated)", F(L), alt, rtol=10 * rt, scale=scale, atol=10 * zb2)
    L2 = gp.kernel.negative_log_restricted_likelihood(model, cp, x, A(z))
    close("criterion wrapper", F(L2), F(L), rtol=1e-12, scale=scale)
    q = list(case["perm"])
    Lq = model.negative_log_restricted_likelihood(cp, A(np.asarray(case["x"])[q]), A(z[q]))
    close("reordered data", F(Lq), want, rtol=rt, scale=scale, atol=zb2)
    Lb = model.negative_log_restricted_likelihood(cp, x, A(z + P @ beta))
    close("basis functions added", F(Lb), want, rtol=rt, scale=scale, atol=zb2)
    nk = F(model.norm_k_sqrd(x, A(z), cp))
    close("norm of the contrasts", nk, quad, rtol=rt, scale=quad, atol=zb2)
    nb = F(model.norm_k_sqrd(x, A(z + P @ beta), cp))
    close("norm, basis added", nb, quad, rtol=rt, scale=quad, atol=zb2)
    M = np.eye(k) + 0.9 / k * np.asarray(case["mix"])[: k * k].reshape(k, k)
    if np.linalg.cond(M) < 50:
        m2 = gp.core.Model(other_basis(case["mean"]["kind"], M), model.covariance, None, cp, meantype="linear_predictor")
        close("equivalent basis", F(m2.negative_log_restricted_likelihood(cp, x, A(z))), want,
              rtol=10 * rt, scale=scale, atol=10 * zb2)
        ctx.tag("equivalent basis")
    ctx.nontrivial(n > k and np.any(z != 0))
    ctx.tag("basis " + case["mean"]["kind"])


# ---------------------------------------------------------- unfactorisable
def bad_kernel(kind):
    """Kernels whose matrix on n points cannot be factorised."""

    def cov(x, y, covparam, pairwise=False):
        s2 = gnp.exp(covparam[0])
        if pairwise:
            return s2 * gnp.ones((x.shape[0],))
        n, m = x.shape[0], (x if y is None else y).shape[0]
        if kind == "zero":
            return s2 * gnp.zeros((n, m))
        h = gnp.scaled_distance(covparam[1:], x, x if y is None else y)
        if kind == "negative":
            return -s2 * gnp.exp(-h)
        if kind == "indefinite":
            return s2 * (1.0 - 2.0 * h)
        raise ValueError(kind)

    return cov


def g_sing(draw):
    d = integer(draw, 1, 2)
    n = integer(draw, 3, 8)
    return {
        "x": points(draw, n, d), "z": reals(draw, n), "kind": pick(draw, "zero", "negative", "indefinite"),
        "covparam": [real(draw, -2, 2)] + reals(draw, d, 0.3, 1.0),
        "mean": pick(draw, "zero", "parameterized", "linear_predictor"),
        "theta": real(draw, -1, 1), "zcrit": pick(draw, "model", "wrapper", "gradient-wrapper"),
    }


@PROP.case("not-factorisable", g_sing, quick=150, budget=(10, 100))
def c_sing(case, ctx):
    x = np.asarray(case["x"])
    cov = bad_kernel(case["kind"])
    K = N(cov(A(x), A(x), A(case["covparam"])))
    mt = case["mean"]
    if mt == "linear_predictor":
        W = ref.contrasts(np.ones((len(x), 1)))
        K = W.T @ K @ W
    ev = np.linalg.eigvalsh(K)
    if not (case["kind"] == "zero" or ev[0] < -1e-6 * max(abs(ev))):
        ctx.tag("skipped: could be factorised")
        return
    mean = {"type": mt, "kind": "const", "theta": [case["theta"], 0.0]}
    model = make_model(mean, 0, case["covparam"], covariance=cov)
    z = A(case["z"])
    cp = A(case["covparam"])
    f = {
        "zero": lambda c, a, b: model.negative_log_likelihood_zero_mean(c, a, b),
        "parameterized": lambda c, a, b: model.negative_log_likelihood(A([case["theta"], 0.0]), c, a, b),
        "linear_predictor": lambda c, a, b: model.negative_log_restricted_likelihood(c, a, b),
    }[mt]
    if case["zcrit"] == "model":
        v = F(f(cp, A(x), z))
    else:
        crit = lambda m, c, a, b: f(c, a, b)  # noqa: E731
        ev_, pre, nograd, grad = gp.kernel.make_selection_criterion_with_gradient(model, crit, A(x), z)
        v = F(pre(cp)) if case["zcrit"] == "gradient-wrapper" else F(nograd(cp))
    check(v == math.inf, f"criterion on an unfactorisable matrix is {v}", "notinf")
    ctx.nontrivial()
    ctx.tag(mt + "/" + case["kind"])


# ------------------------------------------------------ numerically singular
def g_near(draw):
    d = integer(draw, 1, 2)
    n = integer(draw, 4, 14)
    x = points(draw, n, d, cells=60 if d == 1 else 9)
    if chance(draw, 1, 3):
        x[-1] = list(x[0])
    return {
        "x": x, "z": reals(draw, n), "p": integer(draw, 1, 5), "nug": chance(draw, 1, 2),
        "covparam": [real(draw, -3, 3)] + [float(-np.log(r)) for r in reals(draw, d, 0.5, 60.0)],
        "mean": pick(draw, "linear_predictor", "zero"),
    }


@PROP.case("numerically-singular", g_near, quick=400, budget=(15, 150))
def c_near(case, ctx):
    """Whatever the conditioning: a finite number or plus infinity, never NaN or an exception."""
    p = case["p"]

    def cov(x, y, covparam, pairwise=False):
        if case["nug"]:
            return gp.kernel.maternp_covariance(x, y, p, covparam, pairwise)
        h = gnp.scaled_distance(covparam[1:], x, x if y is None else y)
        return gnp.exp(covparam[0]) * gp.kernel.maternp_kernel(p, h)

    model = make_model({"type": case["mean"], "kind": "const"}, p, case["covparam"], covariance=cov)
    f = (model.negative_log_likelihood_zero_mean if case["mean"] == "zero"
         else model.negative_log_restricted_likelihood)
    v = F(f(A(case["covparam"]), A(case["x"]), A(case["z"])))
    check(not math.isnan(v) and v != -math.inf, f"criterion is {v}", "nan")
    ctx.tag("infinite" if v == math.inf else "finite")
    x = np.asarray(case["x"])
    ctx.nontrivial(np.linalg.cond(ref.matern_cov(x, x, p, case["covparam"])) > 1e10)


# ----------------------------------------------- conditionally positive kernels
def g_cpd(draw):
    kind = pick(draw, "minus_h", "varying", "minus_h_shift", "cubic")
    d = 1 if kind == "cubic" else integer(draw, 1, 3)
    n = integer(draw, d + 3, 11)
    k = "linear" if kind == "cubic" else pick(draw, "const", "linear", "first")
    return {
        "kind": kind, "x": points(draw, n, d), "z": reals(draw, n), "beta": reals(draw, 9),
        "mean": {"type": "linear_predictor", "kind": k}, "shift": real(draw, -5, 5),
        "covparam": [real(draw, -2.0, 2.0)] + reals(draw, d, 0.5, 1.5),
    }


@PROP.case("conditionally-positive-kernels", g_cpd, quick=300, budget=(15, 150))
def c_cpd(case, ctx):
    x, z = np.asarray(case["x"]), np.asarray(case["z"])
    P = ref.basis(case["mean"]["kind"], x)
    cov, k = user_kernel(case["kind"], float(np.exp(case["covparam"][0])), case["covparam"][1:])
    W = ref.contrasts(P)
    ev = np.linalg.eigvalsh(W.T @ k(x, x) @ W)
    if not well_posed(P, 300.0) or ev[0] <= 0 or ev[-1] / ev[0] > 1e6:
        ctx.tag("skipped: not well conditioned")
        return
    model = make_model(case["mean"], 0, case["covparam"], covariance=cov)
    want = ref.reml(k(x, x), P, z)
    got = F(model.negative_log_restricted_likelihood(A(case["covparam"]), A(x), A(z)))
    scale = 3 * len(z) + abs(np.sum(np.log(ev))) + abs(want)
    close("restricted likelihood", got, want, rtol=1e-6, scale=scale)
    got = F(model.negative_log_restricted_likelihood(
        A(case["covparam"]), A(x), A(z + P @ np.asarray(case["beta"])[: P.shape[1]])))
    close("basis functions added", got, want, rtol=1e-6, scale=scale)
    ctx.nontrivial(np.any(z != 0))
    ctx.tag(case["kind"])
