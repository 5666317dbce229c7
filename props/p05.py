"""P05: criterion gradients and Fisher information are true derivatives."""
import math

import numpy as np

from vf import ref
from vf.core import Prop, st
from vf.util import (
    A, F, N, check, chance, close, fail, gnp, gp, gp_case, integer, kernel_slack, make_model,
    pick, real, reals, shape,
)

PROP = Prop(
    "P05",
    rule="at least two observations, and a gradient (or information matrix) that is not zero; for interleavings: at least one gradient request after a change of the parameter",
    assumptions=[
        "covariance matrices with condition number at most 1e5; gradients compared with closed-form derivatives of the dense reference, tolerance 1e-6 relative to trace and quadratic terms plus the torch distance-rounding bound",
        "gradients of the NumPy backend are finite differences (no gradient is attached to its criteria) and are compared at 1e-5",
    ],
)


def g_grad(draw):
    c = gp_case(draw, nmin=2, nmax=10, nt=None, dmax=3, condmax=1e5, scales=(1.0,))
    c["off"] = reals(draw, 1 + len(c["x"][0]), -0.3, 0.3)
    c["prior"] = pick(draw, "none", "jeffreys", "power", "logsigma2", "logrho", "both")
    c["hyp"] = [real(draw, 1.1, 6.0), real(draw, 0.3, 0.99), real(draw, 0.2, 3.0)]
    return c


def rounding(ctx, case, K, dK):
    ks = kernel_slack(ctx.backend, case["p"], case["x"], case["covparam"])
    if ctx.backend == "torch" and case["p"] > 0:
        # derivative of the kernel: first order in the distance error
        ks = ks + 1e-2 * math.sqrt(ks)
    kinv = math.exp(case["covparam"][0]) / np.linalg.eigvalsh(K)[0]
    r = 1e-6 + 5.0 * len(K) * kinv * ks
    return r if r < 1e-2 else None


def prior_terms(case, cp):
    """log-prior and its gradient (closed form)."""
    g = np.zeros(len(cp))
    gam, cov, alpha = case["hyp"]
    kind = case["prior"]
    c0 = np.asarray(case["covparam"]) - np.asarray(case["off"])
    lrmin = -np.asarray(case["covparam"])[1:] - 1.0
    lr0 = lrmin + 1.5
    from statistics import NormalDist

    if kind == "jeffreys":
        g[0] -= gam
    if kind == "power":
        g[0] -= 1.0
    if kind in ("logsigma2", "both"):
        sd = math.log(gam) / NormalDist().inv_cdf(0.5 * (1 + cov))
        g[0] -= (cp[0] - c0[0]) / sd**2
    if kind in ("logrho", "both"):
        s = -cp[1:] - lrmin
        # -nlf = a (r0-rmin) log s - a s ; d/dlogrho ; covparam = -logrho
        g[1:] -= alpha * (lr0 - lrmin) / s - alpha
    return g, c0[0], lrmin, lr0


def criterion_for(case, model):
    gam, cov, alpha = case["hyp"]
    _, ls0, lrmin, lr0 = prior_terms(case, np.asarray(case["covparam"]))
    k = gp.kernel
    kind = case["prior"]
    lrmin, lr0 = A(lrmin), A(lr0)
    if kind == "jeffreys":
        return lambda m, c, x, z: k.priors.neg_log_restricted_posterior_with_jeffreys_prior(m, c, x, z, lambda_var=gam)
    if kind == "power":
        return lambda m, c, x, z: k.neg_log_restricted_posterior_power_laws_prior(m, c, x, z)
    if kind == "logsigma2":
        return lambda m, c, x, z: k.neg_log_restricted_posterior_logsigma2_prior(
            m, c, x, z, log_sigma2_0=ls0, gamma=gam, sigma2_coverage=cov)
    if kind == "logrho":
        return lambda m, c, x, z: k.priors.neg_log_restricted_posterior_with_logrho_prior(
            m, c, x, z, logrho_min=lrmin, logrho_0=lr0, alpha=alpha)
    if kind == "both":
        return lambda m, c, x, z: k.neg_log_restricted_posterior_logsigma2_and_logrho_prior(
            m, c, x, z, log_sigma2_0=ls0, gamma=gam, sigma2_coverage=cov, logrho_min=lrmin, logrho_0=lr0, alpha=alpha)
    return k.negative_log_restricted_likelihood


def reference_gradient(case, cp):
    """Gradient of the criterion in [meanparam,] covparam, with a size for tolerances."""
    x, z = np.asarray(case["x"]), np.asarray(case["z"])
    K, dK = ref.matern_dK(x, case["p"], cp)
    K = K + ref.nugget(cp) * np.eye(len(x))
    m = case["mean"]
    full = np.array([np.linalg.norm(D, 2) for D in dK])  # contrasts may annihilate a derivative up to rounding
    if m["type"] == "linear_predictor":
        W = ref.contrasts(ref.basis(m["kind"], x))
        K = W.T @ K @ W
        dK = [W.T @ D @ W for D in dK]
        z = W.T @ z
    gm = None
    if m["type"] == "parameterized":
        z = z - ref.param_mean(m["kind"], m["theta"], x)
        J = np.stack([
            (ref.param_mean(m["kind"], [m["theta"][0] + 0.5 * (i == 0), m["theta"][1] + 0.5 * (i == 1)], x)
             - ref.param_mean(m["kind"], [m["theta"][0] - 0.5 * (i == 0), m["theta"][1] - 0.5 * (i == 1)], x))
            for i in (0, 1)])
        gm = -J @ np.linalg.solve(K, z)
    g = ref.nll_grad(K, dK, z)
    Ki = np.linalg.inv(K)
    a = Ki @ z
    size = np.array([np.linalg.norm(Ki @ D) + a @ a * np.linalg.norm(D, 2) for D in dK])
    size = size + 1e-6 * (np.linalg.norm(Ki, 2) + a @ a) * full
    if m["type"] == "linear_predictor":
        g = g + -prior_terms(case, cp)[0]
        size = size + np.abs(prior_terms(case, cp)[0])
    if gm is not None:
        sm = np.abs(J) @ (np.abs(Ki) @ np.abs(z))
        return np.concatenate([gm, g]), np.concatenate([sm, size]), K, dK
    return g, size, K, dK


def wrappers(case, model):
    m = case["mean"]
    x, z = A(case["x"]), A(case["z"])
    k = gp.kernel
    if m["type"] == "parameterized":
        return k.make_selection_criterion_with_gradient(
            model, k.negative_log_likelihood, x, z, parameterized_mean=True, meanparam_len=2)
    if m["type"] == "zero":
        return k.make_selection_criterion_with_gradient(model, k.negative_log_likelihood_zero_mean, x, z)
    return k.make_selection_criterion_with_gradient(model, criterion_for(case, model), x, z)


def full_param(case, cp):
    if case["mean"]["type"] == "parameterized":
        return np.concatenate([case["mean"]["theta"], cp])
    return np.asarray(cp, float)


@PROP.case("criterion-gradient", g_grad, quick=700, budget=(25, 250), backends=("torch",))
def c_grad(case, ctx):
    model = make_model(case["mean"], case["p"], case["covparam"])
    cp = np.asarray(case["covparam"])
    want, size, K, dK = reference_gradient(case, cp)
    rt = rounding(ctx, case, K, dK)
    if rt is None:
        ctx.tag("skipped: rounding of distances")
        return
    ev, pre, nograd, grad = wrappers(case, model)
    p = full_param(case, cp)
    v = F(pre(p))
    close("value before gradient", F(nograd(p)), v, rtol=1e-10, scale=np.sum(size))
    g = N(grad(p))
    shape("gradient", g, p.shape)
    close("gradient", g, want, rtol=rt, scale=size + 1e-12)
    ctx.nontrivial(len(case["x"]) >= 2 and np.any(np.abs(want) > 1e-9))
    ctx.tag(case["mean"]["type"] + ("/" + case["prior"] if case["mean"]["type"] == "linear_predictor" else ""))
    # the same criterion differentiated by the generic routine
    crit = lambda q: ev(q)  # noqa: E731
    y, g2 = gnp.value_and_grad(crit, A(p))
    close("value_and_grad: value", F(y), v, rtol=1e-10, scale=np.sum(size))
    close("value_and_grad: gradient", g2, want, rtol=rt, scale=size + 1e-12)
    close("grad", gnp.grad(crit)(A(p)), want, rtol=rt, scale=size + 1e-12)


@PROP.case("finite-difference-gradient", g_grad, quick=250, budget=(25, 250), backends=("numpy",))
def c_fd(case, ctx):
    model = make_model(case["mean"], case["p"], case["covparam"])
    cp = np.asarray(case["covparam"])
    want, size, K, dK = reference_gradient(case, cp)
    ev, pre, nograd, grad = wrappers(case, model)
    check(grad is None, "a gradient is attached to a NumPy criterion", "grad")
    p = full_param(case, cp)
    y, g = gnp.value_and_grad(lambda q: ev(q), A(p))
    close("value", F(y), F(pre(p)), rtol=1e-12, scale=np.sum(size))
    shape("gradient", g, p.shape)
    scale = size + 1e-3 * np.sum(size)
    cond = np.linalg.cond(K)
    tol = 1e-5 + 1e-9 * cond
    close("finite-difference gradient", g, want, rtol=tol, scale=scale)
    close("grad", gnp.grad(lambda q: ev(q))(A(p)), want, rtol=tol, scale=scale)
    ctx.nontrivial(np.any(np.abs(want) > 1e-9))
    ctx.tag(case["mean"]["type"])


# --------------------------------------------------------- interleavings
def g_seq(draw):
    c = gp_case(draw, nmin=2, nmax=6, nt=None, dmax=2, condmax=1e4, scales=(1.0,))
    c["off"] = [0.0] * (1 + len(c["x"][0]))
    c["prior"] = "none"
    c["hyp"] = [1.5, 0.95, 1.0]
    k = len(c["covparam"])
    c["moves"] = [reals(draw, k, -0.5, 0.5) for _ in range(3)]
    c["ops"] = draw(
        st.lists(
            st.tuples(st.sampled_from(["pre", "grad", "pre", "grad", "nograd", "eval", "bad", "mutate"]), st.integers(0, 2)),
            min_size=6, max_size=14,
        )
    )
    return c


@PROP.case("interleaved-requests", g_seq, quick=500, budget=(25, 200), backends=("torch",))
def c_seq(case, ctx):
    """A gradient is either the derivative at the point asked for, or refused."""
    model = make_model(case["mean"], case["p"], case["covparam"])
    base = np.asarray(case["covparam"])
    P = [full_param(case, base + np.asarray(m)) for m in case["moves"]]
    ref_ = []
    nm = 2 if case["mean"]["type"] == "parameterized" else 0
    for q in P:
        want, size, K, dK = reference_gradient(case, q[nm:])
        rt = rounding(ctx, dict(case, covparam=list(q[nm:])), K, dK)
        if rt is None:
            ctx.tag("skipped: rounding of distances")
            return
        ref_.append((want, size, rt))
    x, z = A(case["x"]), A(case["z"])
    k = gp.kernel
    boom = {"on": False}
    inner = {"zero": k.negative_log_likelihood_zero_mean, "parameterized": k.negative_log_likelihood,
             "linear_predictor": k.negative_log_restricted_likelihood}[case["mean"]["type"]]

    def crit(*a):
        if boom["on"]:
            raise KeyError("user criterion failed")
        return inner(*a)

    ev, pre, nograd, grad = k.make_selection_criterion_with_gradient(
        model, crit, x, z, parameterized_mean=nm > 0, meanparam_len=2)
    last, fresh = None, False
    moved = False
    for op, i in case["ops"]:
        if op == "pre":
            buf = np.array(P[i])
            pre(buf)
            buf += 7.0  # optimisers reuse the array they pass
            moved = moved or (last is not None and last != i)
            last, fresh = i, True
        elif op == "bad":
            boom["on"] = True
            try:
                pre(P[i])
                fail("exception of the user's criterion swallowed", "swallowed")
            except KeyError:
                pass
            finally:
                boom["on"] = False
            last, fresh = None, False
        elif op == "nograd":
            nograd(P[i])
        elif op == "eval":
            ev(A(P[i]))
        elif op == "mutate":
            t = A(P[i])
            pre(t)
            if t.shape[0]:
                t = t + 3.0
            last, fresh = i, True
        else:
            same = last is not None and bool(np.array_equal(P[i], P[last]))
            try:
                g = N(grad(P[i]))
            except Exception as exc:  # noqa: BLE001
                check(not (same and fresh), f"gradient refused right after the evaluation: {exc}", "refused")
                fresh = False if same else fresh
                continue
            check(same, "gradient answered at a point that was not evaluated", "stale")
            want, size, rt = ref_[i]
            close("gradient", g, want, rtol=rt, scale=size + 1e-12)
            fresh = False
    ctx.nontrivial(moved)


# --------------------------------------------------------------- Fisher
def g_fisher(draw):
    c = gp_case(draw, nmin=2, nmax=10, nt=None, dmax=3, condmax=1e4, scales=(1.0,))
    c["own"] = chance(draw, 1, 2)
    return c


@PROP.case("fisher-information", g_fisher, quick=400, budget=(25, 250))
def c_fisher(case, ctx):
    cp = np.asarray(case["covparam"])
    model = make_model(case["mean"], case["p"], cp if case["own"] else np.zeros(len(cp)))
    arg = None if case["own"] else A(cp)
    x = A(case["x"])
    K, dK = ref.matern_dK(case["x"], case["p"], cp)
    Kn = K + ref.nugget(cp) * np.eye(len(K))
    rt = rounding(ctx, case, Kn, dK)
    if rt is None:
        ctx.tag("skipped: rounding of distances")
        return
    want = ref.fisher(Kn, dK)
    n = len(K)
    size = np.sqrt(np.diag(want)) + 1e-4 * n
    scale = np.outer(size, size)
    rt = 10 * rt + 1e-5
    I = model.fisher_information(x, arg)
    shape("Fisher information", I, want.shape)
    close("Fisher information", I, want, rtol=rt, scale=scale)
    same_I = N(I)
    close("symmetry", same_I, same_I.T, rtol=1e-12, scale=scale)
    if case["mean"]["type"] == "linear_predictor":
        W = ref.contrasts(ref.basis(case["mean"]["kind"], np.asarray(case["x"])))
        G, dG = W.T @ Kn @ W, [W.T @ D @ W for D in dK]
        want = ref.fisher(G, dG)
        scale = scale + np.sqrt(np.outer(np.diag(want), np.diag(want)))
    J = N(model.fisher_information_cpd(x, arg))
    shape("Fisher information (contrasts)", J, want.shape)
    close("Fisher information (contrasts)", J, want, rtol=rt, scale=scale)
    for M in (same_I, J):
        e = np.linalg.eigvalsh(0.5 * (M + M.T))
        check(e[0] >= -10 * rt * np.max(np.abs(scale)), f"not positive semi-definite: {e[0]}", "psd")
    ctx.nontrivial(n >= 2 and np.abs(want).max() > 1e-6)
    ctx.tag(case["mean"]["type"])


# ------------------------------------------------- generic derivatives
def g_generic(draw):
    d = integer(draw, 1, 5)
    return {"x": reals(draw, d, -2, 2), "a": reals(draw, d, -2, 2), "b": reals(draw, d, -1, 1), "c": real(draw, -2, 2)}


@PROP.case("generic-derivatives", g_generic, quick=400, budget=(15, 120))
def c_generic(case, ctx):
    a, b, c = np.asarray(case["a"]), np.asarray(case["b"]), case["c"]
    x = np.asarray(case["x"])

    def f(v):
        return gnp.sum(A(a) * gnp.sin(v)) + c * gnp.exp(gnp.sum(A(b) * v)) + gnp.sum(v**3)

    e = math.exp(b @ x)
    val = a @ np.sin(x) + c * e + np.sum(x**3)
    g = a * np.cos(x) + c * e * b + 3 * x**2
    scale = 10 + np.abs(a).sum() + abs(c) * e * (1 + np.abs(b).sum()) + np.abs(x**3).sum()
    tol = 1e-8 if ctx.backend == "numpy" else 1e-12
    xin = A(x)
    y, gr = gnp.value_and_grad(f, xin)
    close("value", F(y), val, rtol=1e-12, scale=scale)
    close("value_and_grad", gr, g, rtol=tol, scale=scale)
    close("grad", gnp.grad(f)(A(x)), g, rtol=tol, scale=scale)
    close("point left alone", xin, x)
    i = 0
    close("derivative_finite_diff",
          F(gnp.derivative_finite_diff(lambda t: f(A(np.concatenate([[F(t)], x[1:]]))), float(x[i]), 1e-3)),
          g[0], rtol=1e-8, scale=scale)
    if ctx.backend == "torch":
        s = gnp.SecondOrderDifferentiableFunction(f)
        check(_raises(lambda: gnp.SecondOrderDifferentiableFunction(f).gradient()), "gradient before evaluation", "stale")
        s.evaluate(A(x))
        close("second-order: gradient", s.gradient(), g, rtol=1e-12, scale=scale)
        H = np.diag(-a * np.sin(x) + 6 * x) + c * e * np.outer(b, b)
        close("hessian", s.hessian(), H, rtol=1e-11, scale=scale)
    ctx.nontrivial(np.any(np.abs(g) > 1e-6))


def _raises(fn):
    try:
        fn()
    except Exception:  # noqa: BLE001
        return True
    return False


# -------------------------------------------- information from log-determinant
def g_logdet(draw):
    return gp_case(draw, nmin=2, nmax=8, nt=None, dmax=2, condmax=1e3, scales=(1.0,), kinds=("zero",))


@PROP.case("logdet-hessian", g_logdet, quick=120, budget=(20, 150), backends=("torch",))
def c_logdet(case, ctx):
    """The second-order routine returns half the Hessian of the log-determinant."""
    p = max(case["p"], 1)
    cp = np.asarray(case["covparam"])
    model = make_model(case["mean"], p, cp)
    H = N(model.fisher_information_torch(A(case["x"]), A(cp)))
    k = len(cp)
    shape("matrix", H, (k, k))

    def grad_ld(c):
        K, dK = ref.matern_dK(case["x"], p, c)
        Ki = np.linalg.inv(K + ref.nugget(c) * np.eye(len(K)))
        return np.array([np.trace(Ki @ D) for D in dK])

    h = 1e-4
    want = np.stack([(grad_ld(cp + h * e) - grad_ld(cp - h * e)) / (2 * h) for e in np.eye(k)])
    close("half Hessian of log|K|", H, 0.25 * (want + want.T), rtol=1e-4, scale=1.0 + np.abs(want).max())
    ctx.nontrivial(np.abs(want).max() > 1e-3)
