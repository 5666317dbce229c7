"""P08: parameter selection never returns a worse point than it visited."""
import math
import warnings
from statistics import NormalDist

import numpy as np

from vf import ref
from vf.core import Prop, st
from vf.util import (
    A, F, N, check, chance, close, gp, gnp, integer, kernel_slack, make_model, pick, points, raises, real,
    reals, shape, well_posed,
)

warnings.filterwarnings("ignore")

PROP = Prop(
    "P08",
    rule="search wrapper: at least four evaluations and a final value strictly below the start, or a failing region was entered; procedures: at least one compared history entry besides the start and a final criterion strictly below the start",
    assumptions=[
        "values recorded by the procedures are compared with independent REML / likelihood / prior references where the covariance matrix has condition number below 1e7",
        "when every visited value is infinite no optimum value is required",
        "starting points outside the bounds are projected onto them (what the underlying optimiser documents)",
    ],
)

LOWER, UPPER = -500.0, 500.0


# ------------------------------------------------------------ search wrapper
def synthetic(case):
    """criterion, gradient, is 'failing' region entered."""
    c = np.asarray(case["center"])
    w = np.asarray(case["weights"])
    kind, fail = case["kind"], case["fail"]
    d = len(c)

    def raw(p):
        u = p - c
        if not np.all(np.isfinite(u)):
            return math.nan
        if kind == "quadratic":
            return float(np.sum(w * u * u))
        if kind == "wiggly":
            return float(np.sum(w * u * u) + np.sum(np.sin(7 * u)) + 0.3 * math.cos(31 * float(u[0])))
        if kind == "valley":
            return float(w[0] * u[0] ** 2 + 50 * np.sum((u[1:] - u[:-1] ** 2) ** 2))
        if kind == "step":
            return float(np.sum(w * u * u) + 3.0 * math.floor(2 * float(u[0])))
        if kind == "flat":
            return 1.5
        raise ValueError(kind)

    def grad(p):
        u = p - c
        if case["grad"] == "wrong":
            return np.array([math.sin(5 * v) + 0.1 for v in u])
        if kind == "quadratic" or kind == "step":
            return 2 * w * u
        if kind == "wiggly":
            g = 2 * w * u + 7 * np.cos(7 * u)
            g[0] -= 0.3 * 31 * math.sin(31 * float(u[0]))
            return g
        if kind == "valley":
            g = np.zeros(d)
            g[0] += 2 * w[0] * u[0]
            r = u[1:] - u[:-1] ** 2
            g[1:] += 100 * r
            g[:-1] += -200 * r * u[:-1]
            return g
        return np.zeros(d)

    seen = {"fail": 0}

    def crit(p):
        q = np.asarray(p, float)
        a = float(q[0] - c[0])
        bad = {"left": a < case["edge"], "right": a > case["edge"], "band": abs(a - case["edge"]) < 0.4, "none": False}[case["where"]]
        if bad:
            seen["fail"] += 1
            if fail == "inf":
                return math.inf
            if fail == "nan":
                return math.nan
            if fail == "linalg":
                raise np.linalg.LinAlgError("not positive definite")
            if fail == "linalg-backend":
                gnp.cholesky(A([[1.0, 2.0], [2.0, 1.0]]))
                raise np.linalg.LinAlgError("unreachable")
            raise KeyError("boom")
        return raw(q)

    return crit, (None if case["grad"] == "none" else grad), seen, raw


FIELDS = ("history_params", "history_criterion", "initial_params", "final_params", "bounds", "selection_criterion", "total_time", "best_value_returned")


def g_wrap(draw):
    d = integer(draw, 1, 3)
    c = reals(draw, d, -4, 4)
    p0 = [float(a + b) for a, b in zip(c, reals(draw, d, -3, 3))]
    bk = pick(draw, "auto", "explicit", "none", "outside", "half")
    bounds = None
    if bk in ("explicit", "outside"):
        bounds = []
        for v in p0:
            lo, up = real(draw, 0.05, 3), real(draw, 0.05, 3)
            sh = (pick(draw, -1, 1) * 4.0 if bk == "outside" else 0.0)
            bounds.append([v - lo + sh, v + up + sh])
    return {
        "center": c, "p0": p0, "weights": reals(draw, d, 0.1, 4), "bk": bk, "bounds": bounds,
        "delta": pick(draw, 10.0, 0.5, 2.0), "kind": pick(draw, "quadratic", "wiggly", "valley", "step", "flat"),
        "grad": pick(draw, "none", "right", "right", "wrong"), "method": pick(draw, "SLSQP", "L-BFGS-B"),
        "where": pick(draw, "none", "left", "right", "band"),
        "edge": real(draw, -3, 3), "fail": pick(draw, "inf", "linalg", "nan", "linalg-backend", "other"),
        "maxiter": pick(draw, 40, None, 1, 3), "far": chance(draw, 1, 8), "info": chance(draw, 3, 4),
    }


@PROP.case("search-wrapper", g_wrap, quick=700, budget=(25, 250))
def c_wrap(case, ctx):
    case = dict(case)
    crit, grad, seen, raw = synthetic(case)
    p0 = np.asarray(case["p0"])
    if case["far"]:
        shift = 495.0 - max(case["p0"])
        case["center"] = [v + shift for v in case["center"]]
        p0 = p0 + shift
        crit, grad, seen, raw = synthetic(case)
        if case["bounds"]:
            case["bounds"] = [[a + shift, b + shift] for a, b in case["bounds"]]
    calls = []

    def recorded(p):
        calls.append([np.array(p, float), None])
        v = crit(p)
        calls[-1][1] = v
        return v

    kw = {"method": case["method"], **({"info": True} if case["info"] else {})}
    mi = case["maxiter"]
    if mi is None and (case["kind"] != "quadratic" or case["grad"] == "wrong" or case["where"] != "none"):
        mi = 40  # the default of 15000 iterations is only affordable where the search converges
    if mi:
        kw["method_options"] = {"maxiter": mi}
    if case["bk"] == "none":
        kw["bounds_auto"] = False
        want = [(-math.inf, math.inf)] * len(p0)
    elif case["bounds"]:
        want = [tuple(b) for b in case["bounds"]]
        kw["bounds"] = list(want)
    elif case["bk"] == "half":
        want = [(float(v) - 1.0, math.inf) for v in p0]
        kw["bounds"] = [(a, None) for a, _ in want]
    else:
        dl = case["delta"]
        if dl != 10.0:
            kw["bounds_delta"] = dl
        want = [(max(v - dl, LOWER), min(v + dl, UPPER)) for v in p0]
    start = np.clip(p0, [a for a, _ in want], [b for _, b in want])
    p0_arg = np.array(p0)

    def call():
        return gp.kernel.autoselect_parameters(p0_arg, recorded, grad, **kw)

    if case["fail"] == "other" and case["where"] != "none":
        try:
            out = call()
        except KeyError:
            ctx.tag("unrelated error re-raised")
            check(seen["fail"] > 0, "KeyError out of nowhere", "raise")
            ctx.nontrivial()
            return
        check(seen["fail"] == 0, "an error that is no linear-algebra failure was swallowed", "swallow")
    else:
        out = call()
    check(isinstance(out, tuple) and len(out) == 2, "result is not a pair", "shape")
    x, r = N(out[0]), out[1]
    shape("parameters", x, p0.shape)
    close("start left alone", p0_arg, p0)
    check((r is None) == (not case["info"]), "diagnostics returned iff requested", "info")
    vals = [math.inf if v is None else v for _, v in calls]
    fin = [v for v in vals if math.isfinite(v)]
    for (a, b), v in zip(want, x if fin else []):
        check(a - 1e-9 * (1 + abs(a)) <= v <= b + 1e-9 * (1 + abs(b)), f"parameter {v} outside its bounds [{a}, {b}]", "bounds")
    if fin:
        try:
            fx = crit(x)
        except np.linalg.LinAlgError:
            fx = math.inf
        except Exception as e:
            if not fin or "ositive" not in str(e):
                raise
            fx = math.inf
        check(fx == fx, f"returned a point where the criterion is NaN; best visited {min(fin)}", "worse")
        check(fx <= min(fin) + 1e-12 * (1 + abs(fx)), f"returned value {fx} is worse than the best visited {min(fin)}", "worse")
        f0 = vals[0]
        check(not fx > f0, f"returned value {fx} is worse than at the start {f0}", "worse")
    close("first point evaluated is the start", calls[0][0], start, rtol=1e-12, scale=1.0)
    if r is not None:
        for key in FIELDS:
            check(hasattr(r, key), f"no {key} in the diagnostics", "info")
        check(len(r.history_params) == len(calls) == len(r.history_criterion), "history misses evaluations", "history")
        for (p, v), hp, hv in zip(calls, r.history_params, r.history_criterion):
            close("history of parameters", hp, p)
            close("history of values", F(hv), math.inf if v is None else v)
        close("initial parameters", r.initial_params, p0)
        close("final parameters", r.final_params, x)
        close("x", r.x, x)
        if fin:
            close("reported optimum", F(r.fun), fx, rtol=1e-12, scale=1.0)
        if case["bk"] == "auto":
            close("automatic bounds", r.bounds, want, rtol=1e-14)
        elif case["bk"] == "none":
            check(r.bounds is None, "bounds although none requested", "bounds")
        check(r.total_time >= 0, "negative time", "time")
        if r.best_value_returned is False:
            ctx.tag("best visited point substituted")
    if seen["fail"]:
        ctx.tag("failing region: " + case["fail"])
    ctx.tag(case["method"])
    ctx.nontrivial(bool(fin) and (len(calls) >= 4 and min(fin) < vals[0] or seen["fail"] > 0))


def g_unknown(draw):
    return {"m": pick(draw, "Nelder-Mead", "BFGS", "", "slsqp")}


@PROP.case("unknown-method", g_unknown, quick=8, thorough=8)
def c_unknown(case, ctx):
    check(raises(lambda: gp.kernel.autoselect_parameters(np.zeros(2), lambda p: float(p @ p), None, method=case["m"]), ValueError),
          "unknown optimisation method accepted", "accept")
    ctx.nontrivial()


PROCS = ("reml", "remap", "remap_with_power_laws_prior", "remap_gaussian_logsigma2",
         "remap_gaussian_logsigma2_and_logrho_prior", "ml_constant_mean")


def g_source(draw):
    return {"proc": pick(draw, *PROCS), "update": chance(draw, 1, 2), "given": pick(draw, "both", "none", "xi", "zi", "criterion"),
            "x": points(draw, 5, 1), "z": reals(draw, 5, -2, 2), "c0": chance(draw, 1, 2), "p": integer(draw, 0, 2)}


@PROP.case("data-source", g_source, quick=60, budget=(10, 60), rule="a procedure given no usable data, or two sources")
def c_source(case, ctx):
    """Exactly one source of data: anything else is refused and the model is left alone."""
    k = gp.kernel
    x, z = A(case["x"]), A(case["z"])
    ml = case["proc"] == "ml_constant_mean"
    cp = A([0.1, 0.4])
    model = make_model({"type": "parameterized", "kind": "const", "theta": [0.3, 0.0]} if ml else {"type": "linear_predictor", "kind": "const"}, case["p"], [0.1, 0.4])
    if ml:
        model.meanparam = A([0.3])
    loader = gp.dataloader.DataLoader(gp.dataloader.Dataset(x, z), batch_size=3)
    given = {"both": {"xi": x, "zi": z, "dataloader": loader}, "none": {}, "xi": {"xi": x}, "zi": {"zi": z}}
    if case["given"] == "criterion":
        for kw in given.values():
            check(raises(lambda: k.make_selection_criterion_with_gradient(model, k.negative_log_restricted_likelihood, **kw), ValueError),
                  f"criterion built from {sorted(kw)}", "accept")
    else:
        kw = dict(given[case["given"]])
        if case["c0"] and not case["update"]:
            kw["covparam0"] = cp
            if ml:
                kw["meanparam0"] = A([0.3])
        fn = getattr(k, f"{'update' if case['update'] else 'select'}_parameters_with_{case['proc']}")
        if case["given"] == "both" or case["update"] or case["c0"]:
            check(raises(lambda: fn(model, **kw), ValueError), f"{case['proc']}: data given as {sorted(given[case['given']])} accepted", "accept")
        else:
            check(raises(lambda: fn(model, **kw), Exception), f"{case['proc']}: data given as {sorted(given[case['given']])} accepted", "accept")
    close("covariance parameters after a refusal", model.covparam, [0.1, 0.4])
    if ml:
        close("mean parameters after a refusal", model.meanparam, [0.3])
    ctx.tag(case["given"])
    ctx.nontrivial()


# ------------------------------------------------------------- procedures
def penalty(kind, cp, pr):
    cp = np.asarray(cp, float)
    v = 0.0
    if kind == "power":
        v += cp[0] + 100 * max(cp[0] - 9.21, 0) + 100 * np.sum(np.maximum(-9.21 - cp[1:], 0) + np.maximum(cp[1:] - 9.21, 0))
    if kind in ("gauss", "gausslogrho"):
        std = math.log(pr["gamma"]) / NormalDist().inv_cdf(0.5 * (1 + pr["coverage"]))
        v += 0.5 * ((cp[0] - pr["logsigma2_0"]) / std) ** 2
    if kind == "gausslogrho":
        s = -cp[1:] - pr["logrho_min"]
        if np.any(s <= 0):
            return math.inf
        v += float(np.sum(-pr["alpha"] * (pr["logrho_0"] - pr["logrho_min"]) * np.log(s) + pr["alpha"] * s))
    return float(v)


def conditioning(backend, x, p, cp):
    K = ref.matern_cov(x, x, p, cp) * math.exp(-cp[0]) + 10 * np.finfo(float).eps * np.eye(len(x))
    if not np.all(np.isfinite(K)):
        return None
    ev = np.linalg.eigvalsh(K)
    if ev[0] <= 0:
        return None
    t = 3.0 * len(x) * kernel_slack(backend, p, x, cp) / ev[0]
    return t + 1e-9 if ev[-1] / ev[0] < 1e7 and t < 1e-4 else None


def reference(kind, mean, x, z, p, param, pr):
    """documented criterion at param."""
    if kind == "ml":
        m, cp = param[0], param[1:]
        K = ref.matern_cov(x, x, p, cp) + ref.nugget(cp) * np.eye(len(x))
        return ref.gauss_nll(K, z - m)
    K = ref.matern_cov(x, x, p, param) + ref.nugget(param) * np.eye(len(x))
    if kind == "zero":
        return ref.gauss_nll(K, z)
    return ref.reml(K, ref.basis(mean["kind"], x), z) + penalty(kind, param, pr)


KIND = {"reml": "reml", "power": "power", "gauss": "gauss", "gausslogrho": "gausslogrho", "remap": "gausslogrho", "zero": "zero", "ml": "ml"}


def g_proc(draw):
    d = integer(draw, 1, 2)
    n = integer(draw, 5, 9)
    fam = pick(draw, "linear_predictor", "linear_predictor", "ml", "zero")
    x = points(draw, n, d)
    for j in range(d):  # a coordinate without spread has no initial length scale
        if np.ptp([r[j] for r in x[:5]]) < 0.05:
            for i, r in enumerate(x):
                r[j] += 0.03 * (i % 5)
    z0 = reals(draw, 3, 0.5, 2.0)
    noise = reals(draw, n, -0.3, 0.3)
    shift = pick(draw, 0.0, 20.0)
    z = [float(shift + z0[0] * math.sin(3 * z0[1] * r[0]) + z0[2] * r[-1] ** 2 + e) for r, e in zip(x, noise)]
    steps = []
    for k in range(integer(draw, 1, 3)):
        if fam == "ml":
            proc = "ml"
        elif fam == "zero":
            proc = "zero"
        else:
            proc = pick(draw, "remap", "reml", "gausslogrho", "gauss", "power")
        s = {
            "proc": proc, "update": k > 0 and chance(draw, 3, 4), "n": integer(draw, 5, n),
            "method": pick(draw, "SLSQP", "L-BFGS-B"), "maxiter": pick(draw, 5, 30, None),
            "start": pick(draw, "none", "covparam0", "init", "prior", "both"),
            "c0": reals(draw, 2, -1.5, 1.5), "c1": reals(draw, 2, -1.5, 1.5),
            "bounds": pick(draw, "auto", "explicit", "delta"), "w": real(draw, 0.1, 2.0),
            "loader": chance(draw, 1, 4), "cut": pick(draw, 0, 1, 2, 3), "info": chance(draw, 3, 4), "own": chance(draw, 1, 2),
            "priors": draw(st.fixed_dictionaries({}, optional={
                "gamma": st.sampled_from([1.2, 3.0]), "coverage": st.sampled_from([0.5, 0.9]),
                "alpha": st.sampled_from([0.3, 4.0]), "factor": st.sampled_from([0.01, 0.1]),
                "logsigma2_0": st.sampled_from([-1.0, 2.0]), "logrho_0": st.sampled_from([0.2, 1.0]),
                "logrho_min": st.sampled_from([-4.0, -2.5]),
            })),
        }
        steps.append(s)
    return {"x": x, "z": z, "p": integer(draw, 0, 2), "mean": {"type": "linear_predictor", "kind": pick(draw, "const", "linear")},
            "fam": fam, "steps": steps, "defaults": chance(draw, 1, 3)}


def vec(base, d):
    return np.array([base[0]] + [base[1] + 0.3 * j + 0.7 for j in range(d)])


@PROP.case("procedures", g_proc, quick=300, thorough=2500, budget=(45, 400))
def c_proc(case, ctx):
    k = gp.kernel
    xall, zall, p = np.asarray(case["x"]), np.asarray(case["z"]), case["p"]
    d = xall.shape[1]
    mean = dict(case["mean"])
    if not well_posed(ref.basis(mean["kind"], xall[:5])) or len(xall) < 5:
        mean["kind"] = "const"
    fam = case["fam"]
    if fam == "ml":
        model = make_model({"type": "parameterized", "kind": "const", "theta": [0.0, 0.0]}, p, None)
        model.meanparam = None
    else:
        model = make_model({"type": "zero"} if fam == "zero" else mean, p, None)
    saved = k.prior_defaults.get_default_prior_hyperparameters()
    try:
        if case["defaults"]:
            k.prior_defaults.set_default_prior_hyperparameters(gamma=2.2, sigma2_coverage=0.7, alpha=0.6, rho_min_range_factor=0.03)
        for i, s in enumerate(case["steps"]):
            step(case, ctx, model, mean, s, xall[: s["n"]], zall[: s["n"]], p, d)
    finally:
        k.prior_defaults.set_default_prior_hyperparameters(**saved)


def step(case, ctx, model, mean, s, x, z, p, d):
    k = gp.kernel
    proc, upd = s["proc"], s["update"]
    kind = KIND[proc]
    xi, zi = A(x), A(z)
    kw = {"info": s["info"], "method": s["method"]}
    if not s["info"]:
        del kw["info"]
    if s["maxiter"]:
        kw["method_options"] = {"maxiter": s["maxiter"]}
    if s["loader"]:
        # the same data in one piece, or cut into two shards at any place
        cut = s.get("cut", 0) % len(x)
        ds = gp.dataloader.Dataset([A(x[:cut]), A(x[cut:])], [A(z[:cut]), A(z[cut:])]) if cut else gp.dataloader.Dataset(A(x), A(z))
        data = {"dataloader": gp.dataloader.DataLoader(ds, batch_size=len(x), shuffle=False)}
    else:
        data = {"xi": xi, "zi": zi}
    c0, c1 = vec(s["c0"], d), vec(s["c1"], d)
    guess = None
    if fam_guess(proc):
        guess = N(k.anisotropic_parameters_initial_guess_zero_mean(model, xi, zi) if proc == "zero" else k.anisotropic_parameters_initial_guess(model, xi, zi))
    current = None if model.covparam is None else N(model.covparam)
    prior_at = init = None
    remap = kind in ("gauss", "gausslogrho")
    nm = 1 if proc == "ml" else 0
    if proc == "ml":
        mg, cg = k.anisotropic_parameters_initial_guess_constant_mean(model, xi, zi)
        mg, cg = N(mg), N(cg)
        if upd:
            m0 = mg if model.meanparam is None else N(model.meanparam)
            cc = cg if current is None else current
        else:
            m0, cc = mg, cg
            if s["start"] in ("covparam0", "both"):
                kw["covparam0"] = A(c0)
                cc = c0
            if s["start"] in ("init", "both"):
                kw["meanparam0"] = A([s["c1"][0]])
                m0 = np.array([s["c1"][0]])
        init = np.concatenate([m0, cc])
    elif not remap:
        if upd:
            init = guess if current is None else current
        elif s["start"] in ("covparam0", "both", "init") or proc == "zero":
            kw["covparam0"] = A(c0)
            init = c0
        else:
            init = guess
    else:
        fallback = current if upd and current is not None else guess
        shared = None
        if s["start"] in ("covparam0", "both"):
            kw["covparam0"] = A(c0)
            shared = c0
        init = prior_at = shared if shared is not None else fallback
        if s["start"] in ("init", "both"):
            kw["covparam0_init"] = A(c1)
            init = c1
        if s["start"] in ("prior",):
            kw["covparam0_prior"] = A(c1)
            prior_at = c1
    pr = {}
    if remap:
        dflt = k.prior_defaults.get_default_prior_hyperparameters()
        pp = s["priors"]
        pr = {"gamma": pp.get("gamma", dflt["gamma"]), "coverage": pp.get("coverage", dflt["sigma2_coverage"]),
              "alpha": pp.get("alpha", dflt["alpha"]), "factor": pp.get("factor", dflt["rho_min_range_factor"])}
        if "gamma" in pp:
            kw["prior_gamma"] = pp["gamma"]
        if "coverage" in pp:
            kw["prior_sigma2_coverage"] = pp["coverage"]
        pr["logsigma2_0"] = float(prior_at[0])
        if kind == "gausslogrho":
            if "alpha" in pp:
                kw["prior_alpha"] = pp["alpha"]
            if "factor" in pp:
                kw["prior_rho_min_range_factor"] = pp["factor"]
            pr["logrho_0"] = -np.asarray(prior_at[1:])
            if "logrho_0" in pp:
                pr["logrho_0"] = np.full(d, pp["logrho_0"])
                kw["prior_logrho_0"] = A(pr["logrho_0"])
            if "logsigma2_0" in pp:
                kw["prior_log_sigma2_0"] = pp["logsigma2_0"]
                pr["logsigma2_0"] = pp["logsigma2_0"]
            if "logrho_min" in pp:
                pr["logrho_min"] = np.full(d, pp["logrho_min"])
                kw["prior_logrho_min"] = A(pr["logrho_min"])
            else:
                mn = []
                for j in range(d):
                    u = np.sort(x[:, j])
                    g = np.diff(u)
                    mn.append(max(math.log(g[g > 0].min()), math.log((u[-1] - u[0]) * pr["factor"])) if np.any(g > 0) else -math.inf)
                pr["logrho_min"] = np.array(mn)
            if np.any(pr["logrho_0"] <= pr["logrho_min"] + 1e-9) or not np.all(np.isfinite(pr["logrho_min"])):
                ctx.tag("skipped: reference length scale below the minimum")
                return
    if not np.all(np.isfinite(init)):
        ctx.tag("skipped: degenerate start")
        return
    if s["bounds"] == "explicit":
        want = [(float(v) - s["w"], float(v) + 1.3 * s["w"]) for v in init]
        kw["bounds"] = list(want)
    elif s["bounds"] == "delta":
        kw["bounds_delta"] = s["w"]
        want = [(float(v) - s["w"], float(v) + s["w"]) for v in init]
    else:
        want = [(max(float(v) - 10, -500), min(float(v) + 10, 500)) for v in init]
    name = {
        "reml": "reml", "power": "remap_with_power_laws_prior", "gauss": "remap_gaussian_logsigma2",
        "gausslogrho": "remap_gaussian_logsigma2_and_logrho_prior", "remap": "remap", "ml": "ml_constant_mean", "zero": "criterion",
    }[proc]
    fn = getattr(k, ("update" if upd else "select") + "_parameters_with_" + name)
    if proc == "ml" and s["own"] and (model.meanparam is not None and model.covparam is not None if upd else s["start"] == "both"):
        # the criterion given explicitly; one mean parameter is the default
        fn = k.update_parameters_with_criterion if upd else k.select_parameters_with_criterion
        out = fn(model, k.negative_log_likelihood, **data, parameterized_mean=True, **kw)
        ctx.tag("criterion with one mean parameter")
    elif proc == "zero":
        out = fn(model, k.negative_log_likelihood_zero_mean, **data, **kw)
    else:
        out = fn(model, **data, **kw)
    check(isinstance(out, tuple) and len(out) == 2, "result is not a pair", "shape")
    check(out[0] is model, "a different model was returned", "model")
    got = N(model.covparam)
    shape("covariance parameters", got, (d + 1,))
    if nm:
        shape("mean parameters", model.meanparam, (1,))
        got = np.concatenate([N(model.meanparam), got])
    for (a, b), v in zip(want, got):
        check(a - 1e-8 * (1 + abs(a)) <= v <= b + 1e-8 * (1 + abs(b)), f"parameter {v} outside its bounds [{a}, {b}]", "bounds")

    def f(param):
        cp = param[nm:]
        t = conditioning(ctx.backend, x, p, cp)
        if t is None:
            return None, None
        v = reference(kind, mean, x, z, p, param, pr)
        zc = z - (param[0] if nm else 0.0)
        K = ref.matern_cov(x, x, p, cp) + ref.nugget(cp) * np.eye(len(x))
        q = float(zc @ np.linalg.solve(K, zc)) if math.isfinite(v) else 0.0
        return v, t * (len(x) + q) + 1e-9 * (abs(v) if math.isfinite(v) else 0.0)

    start = np.clip(init, [a for a, _ in want], [b for _, b in want])
    f0, t0 = f(start)
    f1, t1 = f(got)
    if f0 is not None and f1 is not None:
        check(not f1 > f0 + t0 + t1 + 1e-9, f"selected criterion {f1} is worse than {f0} at the start", "worse")
    compared = 0
    if s["info"]:
        info = out[1]
        check(info is not None, "no diagnostics", "info")
        for key in FIELDS:
            check(hasattr(info, key), f"no {key} in the diagnostics", "info")
        hp = [N(v) for v in info.history_params]
        hc = [F(v) for v in info.history_criterion]
        check(len(hp) == len(hc) > 0, "history lengths differ", "history")
        for key in ("covparam0", "covparam", "meanparam0", "meanparam", "selection_criterion", "selection_criterion_nograd", "time", "nit"):
            check(key in info, f"no {key} in the diagnostics", "info")
        if s["maxiter"]:
            check(info.nit <= s["maxiter"], f"{info.nit} iterations, at most {s['maxiter']} requested", "options")
        close("first evaluation at the start", hp[0], start, rtol=1e-9, scale=1.0)
        close("reported start", N(info.initial_params), init, rtol=1e-9, scale=1.0)
        close("reported covariance start", N(info["covparam0"]), init[nm:], rtol=1e-9, scale=1.0)
        close("reported optimum is stored in the model", N(info["covparam"]), got[nm:], rtol=0)
        close("reported optimum", N(info.x), got, rtol=0)
        close("final parameters", N(info.final_params), got, rtol=0)
        if nm:
            close("reported mean start", N(info["meanparam0"]), init[:1], rtol=1e-9, scale=1.0)
            close("reported mean", N(info["meanparam"]), got[:1], rtol=0)
        close("reported bounds", N(info.bounds), want, rtol=1e-9, scale=1.0)
        fin = [v for v in hc if math.isfinite(v)]
        if fin:
            fun = F(info.fun)
            close("optimum value is the best visited", fun, min(fin), rtol=1e-12, scale=1.0)
            if f1 is not None:
                close("optimum value", fun, f1, atol=t1)
                close("criterion function at the optimum", F(info["selection_criterion_nograd"](A(got))), f1, atol=t1)
                close("criterion function at the optimum (2)", F(info["selection_criterion"](A(got))), f1, atol=t1)
        idx = sorted({0, len(hp) - 1, int(np.argmin(hc)) if hc else 0} | set(range(0, len(hp), max(1, len(hp) // 8))))
        for j in idx:
            v, t = f(hp[j])
            if v is not None:
                close("recorded criterion value", hc[j], v, atol=t)
                compared += 1
        check(info["time"] >= 0 and info.total_time >= 0, "negative time", "time")
    else:
        check(out[1] is None, "diagnostics although not requested", "info")
    ctx.tag(("update " if upd else "select ") + proc)
    if s["loader"]:
        ctx.tag("loader")
    ctx.nontrivial(compared > 1 and f0 is not None and f1 is not None and f1 < f0)


def fam_guess(proc):
    return proc != "ml"


# ------------------------------------------------- covariances that stop being valid
def g_fail(draw):
    n, d = integer(draw, 4, 8), integer(draw, 1, 2)
    return {
        "x": points(draw, n, d), "z": reals(draw, n), "c0": [real(draw, -1, 2)] + reals(draw, d, -0.5, 1.5),
        "cut": real(draw, 0.05, 2.5), "side": pick(draw, "below", "above"), "method": pick(draw, "SLSQP", "L-BFGS-B"),
        "bs": pick(draw, 0, 2, 3, 8), "crit": pick(draw, "zero", "reml"), "maxiter": pick(draw, 30, 5),
    }


@PROP.case("failing-region", g_fail, quick=120, thorough=1200, budget=(20, 200),
           rule="the search evaluated at least one point where the covariance matrix cannot be factorised")
def c_fail(case, ctx):
    k = gp.kernel
    x, z, c0 = np.asarray(case["x"]), np.asarray(case["z"]), np.asarray(case["c0"])
    edge = c0[0] + (-1 if case["side"] == "below" else 1) * case["cut"]

    def cov(a, b, c, pairwise=False):
        h = gnp.zeros((a.shape[0],)) if pairwise else gnp.scaled_distance(c[1:], a, a if b is None else b)
        bad = F(c[0]) < edge if case["side"] == "below" else F(c[0]) > edge
        return gnp.exp(c[0]) * (gnp.exp(-h) * (-1.0 if bad else 1.0))

    if case["crit"] == "zero":
        model = gp.core.Model(None, cov, None, None, meantype="zero")
        crit = k.negative_log_likelihood_zero_mean
    else:
        model = gp.core.Model(lambda u, _p: gnp.ones((u.shape[0], 1)), cov, None, None, meantype="linear_predictor")
        crit = k.negative_log_restricted_likelihood
    if case["bs"]:
        ds = gp.dataloader.Dataset(A(x), A(z))
        # batches of one row leave nothing to a restricted likelihood
        bs = case["bs"] if len(x) % case["bs"] != 1 else len(x)
        data = {"dataloader": gp.dataloader.DataLoader(ds, batch_size=bs, shuffle=False)}
        ctx.tag("loader")
    else:
        data = {"xi": A(x), "zi": A(z)}
    f = k.make_selection_criterion_with_gradient(model, crit, **data)
    start = F(f[2](A(c0)))
    out = k.select_parameters_with_criterion(
        model, crit, covparam0=A(c0), info=True, method=case["method"], method_options={"maxiter": case["maxiter"]}, **data
    )
    check(isinstance(out, tuple) and len(out) == 2, "does not return (model, info)", "shape")
    m, info = out
    hist = [F(v) for v in info.history_criterion]
    got = N(m.covparam)
    shape("selected parameters", got, c0.shape)
    val = F(f[2](A(got)))
    close("value at the selected parameters", val, min(hist), rtol=1e-8, scale=1.0, sig="best")
    check(val <= start + 1e-8 * max(1.0, abs(start)), f"selected value {val} is worse than the start {start}", "worse")
    for hp, hv in zip(info.history_params, hist):
        bad = hp[0] < edge if case["side"] == "below" else hp[0] > edge
        if abs(hp[0] - edge) > 1e-12:
            check(math.isinf(hv) == bool(bad), f"criterion {hv} where the covariance is {'not ' * bool(bad)}valid", "inf")
    ctx.nontrivial(any(math.isinf(v) for v in hist))
    ctx.tag(case["method"])
