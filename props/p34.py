"""P34: a failure or interruption in the middle of an operation is reported and leaves nothing behind."""
import contextlib
import io
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

from vf.core import Prop
from vf.util import A, N, chance, check, gnp, gnp_basis, gnp_param_mean, gp, integer, matern_covariance, pick, points, reals

import gpmp.mcmc.mh as MH
import gpmp.mcmc.nuts as NU
import gpmp.mcmc.param_posterior as PP
import gpmp.mcmc.smc as SM
import gpmp.mcmc.svgd as SV
import gpmp.modeldiagnosis as MD
import gpmp.plot.plotutils as PU
from gpmp.dataloader import DataLoader, Dataset

K = gp.kernel

PROP = Prop(
    "P34",
    rule="the failing call was reached after at least one call that succeeded",
    assumptions=[
        "failures are exceptions of the standard classes or of the user's own (and keyboard interrupts) raised by the functions the user supplies; a failure lasts, an interruption comes once",
        "failures of factorisations, documented as infinite criteria, and densities that cannot be evaluated, documented as zero, belong to P08, P18, P21 and P22",
        "repeated results are compared to 1e-9 relative, in the same process and with the seeds set again",
    ],
)


class Fault(Exception):
    """What a user's function raises."""


# the same failure, in the standard classes users' functions raise
FAULTS = {b.__name__: type("Fault" + b.__name__, (Fault, b), {}) for b in (ValueError, TypeError, RuntimeError, ArithmeticError, KeyError, IndexError, OSError, NotImplementedError, AssertionError, MemoryError)}
FAULTS["Exception"] = Fault


class Stop(KeyboardInterrupt):
    """What the user's keyboard raises."""


class Trip:
    """Counts the calls of user functions; a failure lasts from the chosen call on, an interruption comes once."""

    def __init__(self):
        self.calls, self.at, self.exc = 0, None, None

    def arm(self, at, exc):
        self.calls, self.at, self.exc = 0, at, exc

    def wrap(self, fn):
        def f(*a, **k):
            self.calls += 1
            if self.at is not None and (self.calls == self.at or self.calls > self.at and isinstance(self.exc, Fault)):
                raise self.exc
            return fn(*a, **k)

        return f


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def flat(r):
    if r is None:
        return np.zeros(0)
    if isinstance(r, (tuple, list)):
        return np.concatenate([flat(v) for v in r]) if len(r) else np.zeros(0)
    if isinstance(r, dict):
        return np.concatenate([flat(r[k]) for k in sorted(r)])
    return N(r).astype(float).reshape(-1)


# ------------------------------------------------------------------- operations
def selected(r):
    model, info = r
    return [model.covparam, model.meanparam if model.meanparam is not None else [], info.fun]


OPT = {"maxiter": 4}


def own_criterion(v):
    return v["trip"].wrap(lambda m, cp, x, z: m.negative_log_likelihood_zero_mean(cp, x, z))


def plain(v):
    """The model without traps (the criterion is what fails)."""
    v["m"].covariance = v["cov"]
    return v["m"]


def differentiable(v):
    m = v["m"]
    e, pre, nograd, grad = K.make_selection_criterion_with_gradient(m, K.negative_log_likelihood_zero_mean, v["x"], v["z"])
    r = [pre(m.covparam), nograd(m.covparam)]
    return r + [grad(m.covparam)] if grad is not None else r


def batches(v):
    m = v["m"]
    e, pre, nograd, grad = K.make_selection_criterion_with_gradient(m, K.negative_log_likelihood_zero_mean, dataloader=v["loader"])
    return [nograd(m.covparam), nograd(m.covparam)]


def sections(v):
    d = N(v["x"]).shape[1]
    try:
        PU.crosssections(v["m"], v["x"], v["z"], [[-1.0] * d, [2.0] * d], nt=4, ind_i=[0, 1])
    finally:
        plt.close("all")


def performance(v):
    p = MD.compute_performance(v["m"], v["x"], v["z"], xtzt=(v["xt"], v["zt"]), compute_pit=True)
    return {k: p[k] for k in ("loo_press", "test_rss", "loo_pit", "test_pit")}


def statistics(v):
    crit = v["trip"].wrap(lambda p: 0.5 * gnp.sum((gnp.asarray(p) - 0.3) ** 2))
    return [MD.fast_univariate_stats(lambda t: crit(A([t])), -1.0, 2.0, n_points=9)[0], MD.Unnormalized1DDistribution(lambda t: -float(gnp.to_scalar(crit(A([t])))), (-2.0, 2.0)).mean()]


def paths(v):
    gnp.set_seed(3)
    return v["m"].sample_paths(v["xt"], 2)


def loaded(v):
    return [v["loader"].reduce_mean(v["trip"].wrap(lambda x, z: gnp.sum(x) + gnp.sum(z)))]


ANY = ["zero", "parameterized", "linear_predictor"]
OPS = {
    "predict": (ANY, lambda v: v["m"].predict(v["x"], v["z"], v["xt"])),
    "predict, weights": (ANY, lambda v: v["m"].predict(v["x"], v["z"], v["xt"], return_lambdas=True)),
    "loo": (ANY, lambda v: v["m"].loo(v["x"], v["z"])),
    "likelihood": (["parameterized"], lambda v: v["m"].negative_log_likelihood(v["m"].meanparam, v["m"].covparam, v["x"], v["z"])),
    "restricted likelihood": (["linear_predictor"], lambda v: v["m"].negative_log_restricted_likelihood(v["m"].covparam, v["x"], v["z"])),
    "norm": (["linear_predictor"], lambda v: v["m"].norm_k_sqrd(v["x"], v["z"], v["m"].covparam)),
    "Fisher information": (["zero"], lambda v: v["m"].fisher_information(v["x"])),
    "Fisher information, elsewhere": (["zero"], lambda v: v["m"].fisher_information(v["x"], v["m"].covparam + 0.3)),
    "Fisher information, contrasts": (["linear_predictor"], lambda v: v["m"].fisher_information_cpd(v["x"], v["m"].covparam + 0.3)),
    "zero-mean likelihood, elsewhere": (["zero"], lambda v: v["m"].negative_log_likelihood_zero_mean(v["m"].covparam - 0.2, v["x"], v["z"])),
    "paths": (["zero"], paths),
    "REMAP, power laws": (["linear_predictor"], lambda v: selected(K.select_parameters_with_remap_with_power_laws_prior(v["m"], v["x"], v["z"], info=True, method_options=OPT))),
    "REMAP, Gaussian": (["linear_predictor"], lambda v: selected(K.select_parameters_with_remap_gaussian_logsigma2(v["m"], v["x"], v["z"], info=True, method_options=OPT))),
    "REMAP, Gaussian, update": (["linear_predictor"], lambda v: selected(K.update_parameters_with_remap_gaussian_logsigma2(v["m"], v["x"], v["z"], info=True, method_options=OPT))),
    "REMAP, length scales, loader": (["linear_predictor"], lambda v: selected(K.select_parameters_with_remap_gaussian_logsigma2_and_logrho_prior(v["m"], dataloader=v["loader"], info=True, method_options=OPT))),
    "ML, update": (["parameterized"], lambda v: selected(K.update_parameters_with_ml_constant_mean(v["m"], v["x"], v["z"], info=True, method_options=OPT))),
    "initial guess": (["linear_predictor"], lambda v: K.anisotropic_parameters_initial_guess(v["m"], v["x"], v["z"])),
    "initial guess, constant": (["parameterized"], lambda v: K.anisotropic_parameters_initial_guess_constant_mean(v["m"], v["x"], v["z"])),
    "REML": (["linear_predictor"], lambda v: selected(K.select_parameters_with_reml(v["m"], v["x"], v["z"], info=True, method_options=OPT))),
    "REML, update": (["linear_predictor"], lambda v: selected(K.update_parameters_with_reml(v["m"], v["x"], v["z"], info=True, method_options=OPT))),
    "REML, loader": (["linear_predictor"], lambda v: selected(K.select_parameters_with_reml(v["m"], dataloader=v["loader"], info=True, method_options=OPT))),
    "REMAP": (["linear_predictor"], lambda v: selected(K.select_parameters_with_remap(v["m"], v["x"], v["z"], prior_logrho_min=A([-9.0] * v["d"]), info=True, method_options=OPT))),
    "ML, constant mean": (["parameterized"], lambda v: selected(K.select_parameters_with_ml_constant_mean(v["m"], v["x"], v["z"], info=True, method_options=OPT))),
    "own criterion": (["zero"], lambda v: selected(K.select_parameters_with_criterion(plain(v), own_criterion(v), v["x"], v["z"], covparam0=v["m"].covparam, info=True, method_options=OPT))),
    "criterion and gradient": (["zero"], differentiable),
    "criterion by batches": (["zero"], batches),
    "performance": (ANY, performance),
    "cross-sections": (ANY, sections),
    "statistics": (["zero"], statistics),
    "reduction": (["zero"], loaded),
}


def g_ops(draw):
    name = pick(draw, *sorted(OPS))
    d = integer(draw, 1, 2)
    n = integer(draw, 5, 7)
    x = np.array(points(draw, n, d, scale=1.0), float)
    for j in range(d):
        if np.ptp(x[:, j]) < 0.1:
            x[:, j] = np.linspace(0.0, 1.0, n)
    return {
        "op": name, "x": x.tolist(), "z": [0.7 * ((3 * i) % n) + v for i, v in enumerate(reals(draw, n, -0.3, 0.3))], "xt": points(draw, integer(draw, 2, 3), d),
        "cp": [0.2] + [0.5 + 0.1 * j for j in range(d)], "type": pick(draw, *OPS[name][0]), "at": integer(draw, 0, 999), "interrupt": chance(draw, 1, 3), "class": pick(draw, *FAULTS), "batch": integer(draw, 3, 5), "repeat": integer(draw, 1, 2),
    }


def setting(case):
    trip = Trip()
    x, z = np.array(case["x"], float), np.array(case["z"], float)
    d = x.shape[1]
    cov = matern_covariance(1)
    t = case["type"]
    mean = None if t == "zero" else trip.wrap(gnp_param_mean("const") if t == "parameterized" else gnp_basis("const"))
    m = gp.core.Model(mean, trip.wrap(cov), A([0.4]) if t == "parameterized" else None, A(case["cp"]), meantype=t)
    # batches of at least three points
    b = case["batch"] if len(x) % case["batch"] == 0 or len(x) % case["batch"] >= 3 else len(x)
    ds = Dataset(A(x), A(z))
    return {"trip": trip, "m": m, "cov": cov, "x": A(x), "z": A(z), "xt": A(np.array(case["xt"], float)), "zt": A(np.array(case["xt"], float)[:, 0]), "d": d, "loader": DataLoader(ds, batch_size=b, shuffle=False)}


def attempt(fn, exc):
    """True when the call ended with that failure (possibly explained by another one)."""
    try:
        quiet(fn)
    except (Fault, Stop) as e:
        return e is exc
    except Exception as e:
        seen = e
        while seen is not None:
            if seen is exc:
                return True
            seen = seen.__cause__ or seen.__context__
        raise
    return False


def ambient():
    """Settings of the process a failed call could leave behind."""
    s = {"figures": len(plt.get_fignums()), "interactive": plt.isinteractive(), "print": str(sorted(np.get_printoptions().items(), key=lambda kv: kv[0])), "errors": str(np.geterr())}
    if gp.config.get_backend() == "torch":
        import torch

        s["gradients"] = torch.is_grad_enabled()
        s["dtype"] = str(torch.get_default_dtype())
        s["inference"] = torch.is_inference_mode_enabled()
        s["anomaly"] = torch.is_anomaly_enabled()
    return s


def reset():
    """What an earlier case left behind is not this case's."""
    plt.close("all")
    np.seterr(all="warn", under="ignore")
    if gp.config.get_backend() == "torch":
        import torch

        torch.set_grad_enabled(True)
        torch.set_default_dtype(torch.float64)


@PROP.case("operations", g_ops, quick=600, budget=(50, 350))
def c_ops(case, ctx):
    reset()
    call = OPS[case["op"]][1]
    v = setting(case)
    want = flat(quiet(lambda: call(v)))
    total = v["trip"].calls
    check(total > 0, f"{case['op']}: no user function called", "calls")
    v = setting(case)
    keep = {k: N(v[k]).copy() for k in ("x", "z", "xt", "zt")}
    mp = None if v["m"].meanparam is None else N(v["m"].meanparam).copy()
    around = ambient()
    ks = []
    for r in range(case["repeat"]):
        k = 1 + (case["at"] + 37 * r) % total
        ks.append(k)
        exc = (Stop if case["interrupt"] else FAULTS[case["class"]])("told to")
        v["trip"].arm(k, exc)
        kind = "interruption" if case["interrupt"] else "failure"
        ok = attempt(lambda: call(v), exc)
        check(ok, f"{case['op']} ({case['type']}): {kind} of call {k} of {total} of the user's functions was not reported", f"reported:{case['op']}")
        check(np.array_equal(N(v["m"].covparam), np.array(case["cp"], float)), f"{case['op']}: {kind} of call {k} changed the covariance parameters to {N(v['m'].covparam)}", f"parameters:{case['op']}")
        check((v["m"].meanparam is None) == (mp is None) and (mp is None or np.array_equal(N(v["m"].meanparam), mp)), f"{case['op']}: {kind} of call {k} changed the mean parameters", f"parameters:{case['op']}")
        for a, b in keep.items():
            check(np.array_equal(N(v[a]), b), f"{case['op']}: {kind} of call {k} changed the data ({a})", f"data:{case['op']}")
        now = ambient()
        check(now == around, f"{case['op']}: {kind} of call {k} left {[(a, now[a]) for a in now if now[a] != around[a]]}", f"ambient:{case['op']}")
    v["trip"].arm(None, None)
    again = flat(quiet(lambda: call(v)))
    check(again.shape == want.shape and np.allclose(again, want, rtol=1e-9, atol=1e-9, equal_nan=True), f"{case['op']}: {again} after a {kind}, {want} without", f"again:{case['op']}")
    ctx.tag(case["op"])
    ctx.tag("interrupt" if case["interrupt"] else "failure")
    ctx.nontrivial(max(ks) > 1)


# ------------------------------------------------------------------ samplers
def neg(p):
    p = gnp.asarray(p)
    return -0.5 * gnp.sum((p - 0.2) ** 2)


def pos(p):
    return -neg(p)


def s_mh(f, d):
    mh = MH.MetropolisHastings(f(neg), options=MH.MHOptions(dim=d, n_chains=2, n_pool=1, adaptation_method="Haario", adaptation_interval=5))
    return mh.scheduler(A(np.zeros((2, d))), 16, 5)


def s_nuts(f, d):
    return NU.nuts_sample(f(neg), A(np.zeros((1, d))), num_samples=3, num_warmup=4, max_depth=3, progress=False, verbose=0)[0]


def s_smc(f, d):
    g = f(lambda x, t: -0.5 * t * gnp.sum((gnp.asarray(x) - 0.2) ** 2, axis=1))
    smc = SM.SMC([[-1.0] * d, [1.0] * d], 20, rng=np.random.default_rng(5))
    smc.step(g, 0.5)
    smc.step(g, 1.0)
    return smc.particles.x


def s_pmh(f, d):
    return PP.sample_from_selection_criterion_mh(selection_criterion=f(pos), param_initial_states=A(np.zeros(d)), n_steps_total=12, burnin_period=4, silent=True, plot_chains=False, plot_empirical_distributions=False)[0]


def s_pnuts(f, d):
    return PP.sample_from_selection_criterion_nuts(selection_criterion=f(pos), param_initial_states=A(np.zeros(d)), num_samples=3, num_warmup=2, n_chains=1, max_depth=3, progress=False, verbose=0)[0]


def s_psvgd(f, d):
    return PP.sample_from_selection_criterion_svgd(selection_criterion=f(pos), particles_initial=A(np.zeros(d)), n_particles=3, n_steps=2, init_jitter=0.1, progress=False)[0]


SAMPLERS = {"MH": s_mh, "NUTS": s_nuts, "SMC": s_smc, "MH posterior": s_pmh, "NUTS posterior": s_pnuts, "SVGD posterior": s_psvgd}


def g_samplers(draw):
    return {"op": pick(draw, *sorted(SAMPLERS)), "d": integer(draw, 1, 2), "at": integer(draw, 0, 999), "seed": integer(draw, 0, 999)}


@PROP.case("samplers", g_samplers, quick=120, budget=(30, 200))
def c_samplers(case, ctx):
    """An interruption ends a sampler; the run started afresh with the same seed is not affected."""

    def go(trip):
        gnp.set_seed(case["seed"])
        np.random.seed(case["seed"])
        return flat(quiet(lambda: SAMPLERS[case["op"]](trip.wrap, case["d"])))

    t = Trip()
    want = go(t)
    total = t.calls
    check(total > 1, f"{case['op']}: density evaluated {total} times", "calls")
    around = ambient()
    k = 1 + case["at"] % total
    exc = Stop("enough")
    t.arm(k, exc)
    check(attempt(lambda: go(t), exc), f"{case['op']}: interruption of evaluation {k} of {total} was not reported", f"reported:{case['op']}")
    now = ambient()
    check(now == around, f"{case['op']}: interruption left {[(a, now[a]) for a in now if now[a] != around[a]]}", f"ambient:{case['op']}")
    t.arm(None, None)
    again = go(t)
    check(again.shape == want.shape and np.allclose(again, want, rtol=1e-9, atol=1e-9, equal_nan=True), f"{case['op']}: another result after an interruption", f"again:{case['op']}")
    ctx.tag(case["op"])
    ctx.nontrivial(k > 1)


# ------------------------------------------------------------- abandoned passes
def g_pass(draw):
    n = integer(draw, 2, 14)
    return {"n": n, "batch": integer(draw, 1, 5), "shuffle": chance(draw, 1, 2), "seed": integer(draw, 0, 99), "stops": [integer(draw, 0, 6) for _ in range(integer(draw, 1, 3))], "nested": chance(draw, 1, 3), "shards": chance(draw, 1, 3)}


@PROP.case("passes", g_pass, quick=200, budget=(10, 60), rule="a pass was abandoned before its end")
def c_pass(case, ctx):
    """A pass over a loader that is abandoned does not shorten the next one."""
    n = case["n"]
    x = np.arange(2.0 * n).reshape(n, 2)
    z = np.arange(float(n))
    if case["shards"]:
        ds = Dataset([A(x[: n // 2]), A(x[n // 2 :])], [A(z[: n // 2]), A(z[n // 2 :])])
    else:
        ds = Dataset(A(x), A(z))
    ld = DataLoader(ds, batch_size=case["batch"], shuffle=case["shuffle"], seed=case["seed"] if case["shuffle"] else None)
    early = False
    for s in case["stops"]:
        it = iter(ld)
        for _ in range(s):
            if next(it, None) is None:
                break
        else:
            early = early or s < len(ld)
    if case["nested"]:
        # a second pass started in the middle of the first one
        it = iter(ld)
        first = [next(it)]
        whole = [b for b in ld]
        first += list(it)
        for name, bs in (("the pass inside another one", whole), ("the pass around another one", first)):
            got = np.concatenate([N(b[1]).reshape(-1) for b in bs])
            check(sorted(got.tolist()) == z.tolist(), f"{name} visited {got.tolist()}", "nested")
    got = [(N(b[0]), N(b[1]).reshape(-1)) for b in ld]
    check(len(got) == len(ld), f"{len(got)} batches after abandoned passes, {len(ld)} announced", "abandoned")
    zs = np.concatenate([b[1] for b in got])
    xs = np.concatenate([b[0] for b in got])
    check(sorted(zs.tolist()) == z.tolist(), f"the pass after abandoned ones visited {zs.tolist()}", "abandoned")
    check(np.array_equal(xs, x[zs.astype(int)]), "inputs and responses no longer go together", "abandoned")
    ctx.tag("shuffled" if case["shuffle"] else "in order")
    ctx.nontrivial(early)
