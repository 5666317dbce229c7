"""P09: priors and penalised criteria have their documented shape."""
import math
from statistics import NormalDist

import numpy as np

from vf import ref
from vf.core import Prop, st
from vf.util import (
    A, F, N, check, chance, close, gp, gp_case, integer, make_model, pick, points, raises, real, reals, shape, tol_for,
    well_posed,
)

PROP = Prop(
    "P09",
    rule="the prior is evaluated away from its mode and (power law) at least one cut-off is active, or the criterion differs from the plain restricted likelihood; histories: at least one accepted and one rejected change",
    assumptions=[
        "priors are documented up to an additive constant only for the Gaussian one; all are compared with the exact documented expressions, tolerance 1e-11 relative",
        "NaN hyper-parameters are not generated",
    ],
)


def std(gamma, cov):
    return math.log(gamma) / NormalDist().inv_cdf(0.5 * (1 + cov))


def r_power(cp, lv=1.0, ch=9.21, ll=0.0, lo=-9.21, hi=9.21, pen=100.0):
    p = np.asarray(cp[1:], float)
    return (
        -lv * cp[0] - pen * max(cp[0] - ch, 0.0) - ll * p.sum()
        - pen * np.sum(np.maximum(lo - p, 0)) - pen * np.sum(np.maximum(p - hi, 0))
    )


def r_logrho(lr, mn, r0, alpha):
    s = np.asarray(lr, float) - mn
    out = np.full(s.shape, math.inf)
    k = s > 0
    out[k] = -alpha * (r0 - mn)[k] * np.log(s[k]) + alpha * s[k]
    return out


def g_prior(draw):
    d = integer(draw, 1, 4)
    mn = reals(draw, d, -4, 2)
    return {
        "cp": [pick(draw, real(draw, -30, 30), real(draw, -3, 3))] + reals(draw, d, *pick(draw, (-3, 3), (-30, 30))),
        "opt": draw(st.fixed_dictionaries({}, optional={
            "lambda_var": st.sampled_from([0.0, 0.5, 2.0]), "cut_logvariance_high": st.sampled_from([-2.0, 1.0, 12.0]),
            "lambda_lengthscales": st.sampled_from([0.7, 3.0]), "cut_loginvrho_low": st.sampled_from([-1.0, -5.0]),
            "cut_loginvrho_high": st.sampled_from([0.5, 4.0]), "penalty_factor": st.sampled_from([0.0, 5.0, 1000.0]),
        })),
        "gamma": pick(draw, 1.5, 1.01, 4.0, 1e3), "cov": pick(draw, 0.95, 0.01, 0.5, 0.999, 0.99999), "s0": real(draw, -10, 10),
        "mn": mn, "off": reals(draw, d, 0.05, 6), "alpha": pick(draw, 1.0, 0.05, 7.0),
        "at": [pick(draw, real(draw, -3, 8), 0.0, 1e-9, -1e-9, 300.0) for _ in range(d)],
    }


@PROP.case("priors", g_prior, quick=900, budget=(20, 200))
def c_prior(case, ctx):
    k = gp.kernel
    cp, C = np.asarray(case["cp"]), A(case["cp"])
    lv = case["opt"].get("lambda_var")
    if lv is None:
        close("Jeffreys", F(k.log_prior_jeffreys_variance(C)), -cp[0], rtol=1e-14)
    else:
        close("Jeffreys", F(k.log_prior_jeffreys_variance(C, lv)), -lv * cp[0], rtol=1e-14)
    o = case["opt"]
    names = dict(lambda_var="lv", cut_logvariance_high="ch", lambda_lengthscales="ll", cut_loginvrho_low="lo",
                 cut_loginvrho_high="hi", penalty_factor="pen")
    want = r_power(cp, **{names[a]: b for a, b in o.items()})
    close("power law", F(k.log_prior_power_law(C, **o)), want, rtol=1e-12, scale=1e-3)
    # decreasing outside the soft cut-offs
    if o.get("lambda_lengthscales", 0.0) == 0.0 and o.get("penalty_factor", 1.0) > 0:
        for j, sgn, edge in ((0, 1, o.get("cut_logvariance_high", 9.21)), (1, 1, o.get("cut_loginvrho_high", 9.21)), (1, -1, o.get("cut_loginvrho_low", -9.21))):
            a, b = np.array(cp), np.array(cp)
            a[j] = edge + sgn * 0.1
            b[j] = edge + sgn * 2.0
            check(F(k.log_prior_power_law(A(b), **o)) < F(k.log_prior_power_law(A(a), **o)), f"log-prior does not decrease beyond the cut-off of component {j}", "cutoff")
    # Gaussian prior on the log-variance
    s = std(case["gamma"], case["cov"])
    got = F(k.log_prior_gaussian_logsigma2(C, case["s0"], gamma=case["gamma"], sigma2_coverage=case["cov"]))
    close("Gaussian log-variance prior", got, -0.5 * ((cp[0] - case["s0"]) / s) ** 2, rtol=1e-9, scale=1e-12)
    # calibration: mass of the interval
    e = math.log(case["gamma"])
    v = F(k.log_prior_gaussian_logsigma2(A([case["s0"] + e] + list(cp[1:])), case["s0"], gamma=case["gamma"], sigma2_coverage=case["cov"]))
    close("coverage of the calibrated interval", math.erf(math.sqrt(-v)), case["cov"], rtol=1e-6)
    # prior on the length scales
    mn, r0 = np.asarray(case["mn"]), np.asarray(case["mn"]) + np.asarray(case["off"])
    lr = mn + np.asarray(case["at"])
    al = case["alpha"]
    g = N(k.neglog_f_logrho(A(lr), A(mn), A(r0), alpha=al))
    w = r_logrho(lr, mn, r0, al)
    close("length-scale penalty", g, w, rtol=1e-11, scale=1e-9)
    m0 = N(k.neglog_f_logrho(A(r0), A(mn), A(r0), alpha=al))
    check(np.all(g >= m0 - 1e-10 * (1 + np.abs(m0))), "penalty below its value at the reference length scale", "mode")
    for h in (1e-2, -1e-2):
        q = N(k.neglog_f_logrho(A(r0 + h * np.asarray(case["off"])), A(mn), A(r0), alpha=al))
        check(np.all(q > m0), "reference length scale is not the strict mode", "mode")
    check(np.all(np.isinf(g[lr <= mn])), "finite at or below the minimal length scale", "barrier")
    cpl = np.concatenate([cp[:1], -lr])
    tot = F(k.log_prior_logrho_barrier_linear(A(cpl), A(mn), A(r0), alpha=al))
    close("length-scale log-prior", tot, -np.sum(w), rtol=1e-11, scale=1e-9)
    # rejected hyper-parameters
    check(raises(lambda: k.log_prior_gaussian_logsigma2(C, 0.0, gamma=1.0), ValueError), "gamma=1 accepted", "accept")
    check(raises(lambda: k.log_prior_gaussian_logsigma2(C, 0.0, sigma2_coverage=1.0), ValueError), "coverage 1 accepted", "accept")
    check(raises(lambda: k.neglog_f_logrho(A(lr), A(mn), A(r0), alpha=0.0), ValueError), "alpha=0 accepted", "accept")
    bad = np.array(r0)
    bad[-1] = mn[-1] - (0.3 if len(case["mn"]) % 2 else 0.0)
    check(raises(lambda: k.neglog_f_logrho(A(lr), A(mn), A(bad), alpha=al), ValueError), "reference not above the minimum accepted", "accept")
    ctx.nontrivial(want != r_power(cp, pen=0.0))
    if np.any(lr <= mn):
        ctx.tag("at or below the minimal length scale")


def g_crit(draw):
    c = gp_case(draw, nmin=4, nmax=9, dmax=3, kinds=("linear_predictor",), nt=None)
    d = len(c["covparam"]) - 1
    c.update(
        s0=real(draw, -4, 4), over=draw(st.fixed_dictionaries({}, optional={
            "gamma": st.sampled_from([1.2, 3.0]), "sigma2_coverage": st.sampled_from([0.3, 0.99]), "alpha": st.sampled_from([0.2, 5.0])})),
        defaults=draw(st.fixed_dictionaries({}, optional={
            "gamma": st.sampled_from([1.1, 2.0]), "sigma2_coverage": st.sampled_from([0.2, 0.9]), "alpha": st.sampled_from([0.4, 2.0]),
            "rho_min_range_factor": st.sampled_from([0.2, 0.01])})),
        below=reals(draw, d, -0.2, 2.0), off=reals(draw, d, 0.1, 3.0), lv=pick(draw, 1.0, 0.0, 2.5), far=pick(draw, None, 0, 1),
    )
    return c


@PROP.case("criteria", g_crit, quick=500, budget=(25, 250))
def c_crit(case, ctx):
    k = gp.kernel
    import gpmp.kernel.priors as pri

    x, z, p = np.asarray(case["x"]), np.asarray(case["z"]), case["p"]
    cp = np.array(case["covparam"])
    if case["far"] == 0:
        cp[0] = 11.0
    rt = tol_for(ctx.backend, p, x, cp)
    P = ref.basis(case["mean"]["kind"], x)
    if rt is None or not well_posed(P):
        ctx.tag("skipped: rounding")
        return
    saved = k.prior_defaults.get_default_prior_hyperparameters()
    model = make_model(case["mean"], p, None)
    try:
        k.prior_defaults.set_default_prior_hyperparameters(**case["defaults"])
        cur = {**{"gamma": saved["gamma"], "sigma2_coverage": saved["sigma2_coverage"], "alpha": saved["alpha"]}, **case["defaults"]}
        o = case["over"]
        gam, cov, al = (o.get(a, cur[a]) for a in ("gamma", "sigma2_coverage", "alpha"))
        K = ref.matern_cov(x, x, p, cp) + ref.nugget(cp) * np.eye(len(x))
        W = ref.contrasts(P)
        base = ref.reml(K, P, z)
        q = float(z @ W @ np.linalg.solve(W.T @ K @ W, W.T @ z))
        tol = rt * (len(x) + q) + 1e-11 * abs(base)
        X, Z, C = A(x), A(z), A(cp)
        s = std(gam, cov)
        lr = -cp[1:]
        mn = lr - np.asarray(case["below"])
        r0 = mn + np.asarray(case["off"])
        v1 = -0.5 * ((cp[0] - case["s0"]) / s) ** 2
        v2 = -np.sum(r_logrho(lr, mn, r0, al))
        g = {a: b for a, b in o.items() if a != "alpha"}
        a = {a: b for a, b in o.items() if a == "alpha"}
        lib = F(model.negative_log_restricted_likelihood(C, X, Z))
        for nm, got, pen in (
            ("Jeffreys", pri.neg_log_restricted_posterior_with_jeffreys_prior(model, C, X, Z, lambda_var=case["lv"]), case["lv"] * cp[0]),
            ("power laws", k.neg_log_restricted_posterior_power_laws_prior(model, C, X, Z), -r_power(cp)),
            ("log-variance", k.neg_log_restricted_posterior_logsigma2_prior(model, C, X, Z, case["s0"], **g), -v1),
            ("length scales", k.neg_log_restricted_posterior_with_logrho_prior(model, C, X, Z, A(mn), A(r0), **a), -v2),
            ("both", k.neg_log_restricted_posterior_logsigma2_and_logrho_prior(model, C, X, Z, case["s0"], logrho_min=A(mn), logrho_0=A(r0), **o), -v1 - v2),
        ):
            got = F(got)
            close(f"criterion with prior: {nm}", got, base + pen, atol=tol + (1e-10 * abs(pen) if math.isfinite(pen) else 0))
            if math.isfinite(pen):
                close(f"criterion minus restricted likelihood: {nm}", got - lib, pen, rtol=1e-9, scale=1e-2 + 1e-4 * abs(base))
        both = k.neg_log_restricted_posterior_logsigma2_and_logrho_prior
        check(raises(lambda: both(model, C, X, Z, 0.0, logrho_0=A(r0)), ValueError), "missing minimum accepted", "accept")
        check(raises(lambda: both(model, C, X, Z, 0.0, logrho_min=A(mn)), ValueError), "missing reference accepted", "accept")
        # minimal length scale follows the defaults too
        f = case["defaults"].get("rho_min_range_factor", saved["rho_min_range_factor"])
        close("minimal length scale uses the current default", k.compute_logrho_min_from_xi(X), r_min(x, f), rtol=1e-10, scale=1.0)
        if case["lv"]:
            close("minimal length scale, explicit factor", k.compute_logrho_min_from_xi(X, prior_rho_min_range_factor=case["lv"]), r_min(x, case["lv"]), rtol=1e-10, scale=1.0)
        if len(x) >= len(cp) + 1:
            fr = ref.fisher(*ref.matern_dK(x, p, cp))
            sgn, ld = np.linalg.slogdet(fr)
            if sgn > 0 and np.linalg.cond(fr) < 1e6:
                close("reference prior", F(k.log_prior_reference(model, C, X)), 0.5 * ld, rtol=1e-4, scale=1.0)
                ctx.tag("reference prior compared")
    finally:
        k.prior_defaults.set_default_prior_hyperparameters(**saved)
    ctx.nontrivial(abs(v1) > 1e-9)
    if o and case["defaults"]:
        ctx.tag("explicit and default hyper-parameters mixed")
    if not math.isfinite(v2):
        ctx.tag("infinite criterion")


def r_min(x, f):
    out = []
    for j in range(x.shape[1]):
        u = np.sort(x[:, j])
        g = np.diff(u)
        a = math.log(g[g > 0].min()) if np.any(g > 0) else -math.inf
        r = (u[-1] - u[0]) * f
        out.append(max(a, math.log(r) if r > 0 else -math.inf))
    return np.array(out)


FIELDS = {"gamma": ([1.5, 1.0001, 7.0], [1.0, 0.5, -2.0]), "sigma2_coverage": ([0.95, 0.1], [0.0, 1.0, 1.5, -0.1]),
          "alpha": ([1.0, 0.01, 30.0], [0.0, -1.0]), "rho_min_range_factor": ([0.05, 2.0], [0.0, -0.3])}
KW = {"gamma": "prior_logsigma2_gamma", "sigma2_coverage": "prior_logsigma2_coverage", "alpha": "prior_logrho_alpha",
      "rho_min_range_factor": "prior_logrho_min_range_factor"}


def g_hist(draw):
    ops = []
    for _ in range(integer(draw, 1, 8)):
        ch = {}
        for f, (good, bad) in FIELDS.items():
            if chance(draw, 1, 2):
                ch[f] = pick(draw, *(bad if chance(draw, 1, 5) else good))
        ops.append([pick(draw, "set", "kwargs", "mutate", "use"), ch])
    return {"ops": ops}


@PROP.case("default-histories", g_hist, quick=500, budget=(15, 120))
def c_hist(case, ctx):
    k = gp.kernel
    pd = k.prior_defaults
    saved = pd.get_default_prior_hyperparameters()
    cur = dict(saved)
    acc = rej = 0
    try:
        for op, ch in case["ops"]:
            bad = any(v in FIELDS[f][1] for f, v in ch.items())
            if op == "set":
                if bad:
                    check(raises(lambda: pd.set_default_prior_hyperparameters(**ch), ValueError), f"{ch} accepted", "accept")
                    rej += 1
                else:
                    pd.set_default_prior_hyperparameters(**ch)
                    cur.update(ch)
                    acc += bool(ch)
            elif op == "kwargs":
                kw = {KW[f]: v for f, v in ch.items()}
                kw["other"] = 3
                if bad:
                    check(raises(lambda: pd.set_default_prior_hyperparameters_from_kwargs(kw), ValueError), f"{ch} accepted", "accept")
                    rej += 1
                else:
                    pd.set_default_prior_hyperparameters_from_kwargs(kw)
                    check(kw == {"other": 3}, f"remaining keyword arguments {kw}", "kwargs")
                    cur.update(ch)
                    acc += bool(ch)
            elif op == "mutate":
                pd.get_default_prior_hyperparameters()["gamma"] = 99.0
            got = pd.get_default_prior_hyperparameters()
            check(got == cur, f"defaults {got}, expected {cur} after {op} {ch}", "defaults")
            v = F(k.log_prior_gaussian_logsigma2(A([2.0, 0.0]), 0.5))
            close("Gaussian prior uses the current defaults", v, -0.5 * (1.5 / std(cur["gamma"], cur["sigma2_coverage"])) ** 2, rtol=1e-9)
            w = N(k.neglog_f_logrho(A([1.0]), A([-1.0]), A([0.5])))
            close("length-scale prior uses the current default", w, cur["alpha"] * np.array([-1.5 * math.log(2.0) + 2.0]), rtol=1e-11)
    finally:
        pd.set_default_prior_hyperparameters(**saved)
    ctx.nontrivial(acc and rej)
