"""Library calls on shared inputs, for P27: each returns what the caller gets back."""
import contextlib
import io
import math
import traceback
import types
import warnings

import numpy as np

from vf.util import A, N, gnp, gnp_basis, gp, make_model

import gpmp.mcmc.mh as MH
import gpmp.mcmc.nuts as NU
import gpmp.mcmc.param_posterior as PP
import gpmp.mcmc.svgd as SV
import gpmp.misc.dataframe as DF
import gpmp.misc.designs as DS
import gpmp.misc.scoringrules as S
import gpmp.misc.testfunctions as TF
import gpmp.modeldiagnosis as MD
from gpmp.parameter import Param, param_from_covparam_anisotropic

K = gp.kernel
D = gp.dataloader


def inputs(c):
    """Everything the caller owns; every call receives these very objects."""
    d = len(c["x"][0])
    f = (lambda v: np.array(v, dtype=float)) if c["own"] == "numpy" else A
    return {
        "x": A(c["x"]), "z": A(c["z"]), "zc": A(c["z"]).reshape(-1, 1), "xt": A(c["xt"]), "zt": A(c["zt"]), "cp": A(c["covparam"]),
        "xn": np.array(c["x"], float), "zn": np.array(c["z"], float), "xtn": np.array(c["xt"], float), "cpn": np.array(c["covparam"], float),
        "xo": f(c["x"]), "zo": f(c["z"]),
        "theta": A([0.3]), "mass": A([0.5 + 0.5 * i for i in range(d + 1)]), "pts": A([[v + 0.1 * i for v in c["covparam"]] for i in range(3)]), "thcp": A([0.3] + list(c["covparam"])),
        "bounds": [(v - 2.0, v + 2.0) for v in c["covparam"]], "options": {"maxiter": 6},
        "cp0": A(c["covparam"]), "box": [[-1.0] * d, [2.0] * d], "pbox": [[v - 1.0 for v in c["covparam"]], [v + 1.0 for v in c["covparam"]]],
        "m": A(c["zt"]), "s": A([0.5 + 0.1 * i for i in range(len(c["zt"]))]), "lo": A(c["zt"]) - 1.0, "hi": A(c["zt"]) + 0.7,
        "names": [f"v{j}" for j in range(d)], "ind": list(range(d + 1)),
        "spd": A(np.array(c["spd"])), "spdn": np.array(c["spd"]), "rhs": A(np.array(c["spd"])[:, :1] + 1.0), "idx": [0, len(c["z"]) - 1],
        "grid8": A(np.linspace(0.1, 0.9, 16).reshape(2, 8)), "grid8n": np.linspace(0.1, 0.9, 16).reshape(2, 8), "mask": A(c["z"]) > 0.0, "pw": A([0.2, 0.5, 0.3]),
    }


def model_of(c):
    return make_model(c["mean"], c["p"], c["covparam"])


def crit_of(c, m):
    t = c["mean"]["type"]
    if t == "zero":
        return lambda p, x, z: m.negative_log_likelihood_zero_mean(p, x, z)
    if t == "parameterized":
        return lambda p, x, z: m.negative_log_likelihood(m.meanparam, p, x, z)
    return lambda p, x, z: m.negative_log_restricted_likelihood(p, x, z)


def toy(p):
    p = gnp.asarray(p)
    return 0.5 * gnp.sum((p - 0.2) ** 2)


OPS = {}


def op(name, when=lambda c: True):
    def deco(fn):
        OPS[name] = (fn, when)
        return fn

    return deco


def linear(c):
    return c["mean"]["type"] == "linear_predictor"


def spread(c):
    return len(c["z"]) >= 4 and min(np.ptp(np.asarray(c["x"]), axis=0)) > 1e-3 and np.ptp(c["z"]) > 1e-3


# ------------------------------------------------------------------ models
op("predict")(lambda I, m, c: m.predict(I["x"], I["z"], I["xt"]))
op("predict column")(lambda I, m, c: m.predict(I["x"], I["zc"], I["xt"]))
op("predict numpy")(lambda I, m, c: m.predict(I["xn"], I["zn"], I["xtn"], return_lambdas=True))
op("predict mixed")(lambda I, m, c: m.predict(I["xo"], I["zo"], I["xt"], zero_neg_variances=False))
op("predict raw")(lambda I, m, c: m.predict(I["x"], I["z"], I["xt"], convert_in=False, convert_out=False))
op("loo", lambda c: len(c["z"]) > 4)(lambda I, m, c: m.loo(I["x"], I["z"]))
op("loo numpy", lambda c: len(c["z"]) > 4)(lambda I, m, c: m.loo(I["xn"], I["zn"]))
op("criterion")(lambda I, m, c: crit_of(c, m)(I["cp"], I["x"], I["z"]))
op("criterion column", lambda c: c["mean"]["type"] != "parameterized")(lambda I, m, c: crit_of(c, m)(I["cp"], I["x"], I["zc"]))
op("criterion and gradient")(lambda I, m, c: gnp.value_and_grad(lambda p: crit_of(c, m)(p, I["x"], I["z"]), I["cp"]))


@op("differentiable criterion")
def _(I, m, c):
    sc = gnp.DifferentiableSelectionCriterion(crit_of(c, m), I["x"], I["z"])
    v = sc.evaluate_pre_grad(I["cp"])
    g = sc.gradient(I["cp"]) if callable(sc.gradient) else 0.0
    return v, g, sc.evaluate_no_grad(I["cp"])


@op("batch criterion", lambda c: len(c["z"]) > 4)
def _(I, m, c):
    ld = D.DataLoader(D.Dataset(I["x"], I["z"]), batch_size=4, shuffle=False)
    bc = gnp.BatchDifferentiableSelectionCriterion(crit_of(c, m), ld)
    return bc.evaluate_pre_grad(I["cp"]), bc.gradient(I["cp"]) if callable(bc.gradient) else 0.0, bc.evaluate_no_grad(I["cp"])


@op("criterion functions")
def _(I, m, c):
    crit = {"zero": K.negative_log_likelihood_zero_mean, "parameterized": K.negative_log_likelihood, "linear_predictor": K.negative_log_restricted_likelihood}[c["mean"]["type"]]
    if c["mean"]["type"] == "parameterized":
        return crit(m, m.meanparam, I["cp"], I["x"], I["z"])
    return crit(m, I["cp"], I["x"], I["z"])


op("norm")(lambda I, m, c: m.norm_k_sqrd(I["x"], I["z"], I["cp"]) if linear(c) else m.norm_k_sqrd_with_zero_mean(I["x"], I["z"], I["cp"]))
op("inverses")(lambda I, m, c: m.k_inverses(I["x"], I["z"], I["cp"]))
op("predictor", linear)(lambda I, m, c: m.kriging_predictor(I["x"], I["xt"]))
op("predictor zero mean", lambda c: not linear(c))(lambda I, m, c: m.kriging_predictor_with_zero_mean(I["x"], I["xt"]))
op("fisher", lambda c: len(c["covparam"]) <= 3)(lambda I, m, c: m.fisher_information(I["x"], I["cp"]))


@op("sample paths", lambda c: True)
def _(I, m, c):
    gnp.set_seed(3)
    return m.sample_paths(I["xt"], 3, method="svd")


@op("conditional paths", lambda c: c["mean"]["type"] == "linear_predictor")
def _(I, m, c):
    n = len(c["z"])
    xx = gnp.vstack((I["x"], I["xt"]))
    gnp.set_seed(4)
    zs = m.sample_paths(xx, 2, method="svd")
    zp, zv, lam = m.predict(I["x"], I["z"], I["xt"], return_lambdas=True, convert_out=False)
    before = N(zs)
    r = m.conditional_sample_paths(zs, np.arange(n), I["z"], np.arange(n, n + len(c["xt"])), lam)
    assert np.array_equal(before, N(zs)) or Changed("the unconditional paths given to conditional_sample_paths")
    return r


@op("conditional paths with a parameterized mean", lambda c: c["mean"]["type"] == "parameterized")
def _(I, m, c):
    n = len(c["z"])
    xx = gnp.vstack((I["x"], I["xt"]))
    gnp.set_seed(4)
    zs = m.sample_paths(xx, 2, method="svd")
    zp, zv, lam = m.predict(I["x"], I["z"], I["xt"], return_lambdas=True, convert_out=False)
    before = N(zs)
    r = m.conditional_sample_paths_parameterized_mean(zs, I["x"], np.arange(n), I["z"], I["xt"], np.arange(n, n + len(c["xt"])), lam)
    assert np.array_equal(before, N(zs)) or Changed("the unconditional paths given to conditional_sample_paths_parameterized_mean")
    return r


op("fisher cpd", lambda c: linear(c) and c["mean"]["kind"] == "const" and len(c["covparam"]) <= 3)(lambda I, m, c: m.fisher_information_cpd(I["x"], I["cp"]))


for _p in (0, 1, 3, 6, 12, 20):
    op(f"kernel of order {_p}")(lambda I, m, c, p=_p: K.maternp_kernel(p, gnp.abs(I["m"])))


@op("covariances")
def _(I, m, c):
    return [m.covariance(I["x"], None, I["cp"]), m.covariance(I["x"], I["xt"], I["cp"]), m.covariance(I["x"], None, I["cp"], pairwise=True), K.maternp_covariance(I["x"], I["xt"], 7, I["cp"]), K.maternp_kernel(0, gnp.abs(I["m"])), K.maternp_kernel(3, gnp.abs(I["m"])), K.matern32_kernel(gnp.abs(I["m"])), K.exponential_kernel(gnp.abs(I["m"])), K.maternp_kernel(12, gnp.abs(I["m"]))]


# ------------------------------------------------ priors, guesses, selection
@op("priors", linear)
def _(I, m, c):
    mn = -I["cp"][1:] - 3.0
    return [K.log_prior_jeffreys_variance(I["cp"]), K.log_prior_power_law(I["cp"]), K.log_prior_gaussian_logsigma2(I["cp"], 0.3, gamma=1.7), K.log_prior_logrho_barrier_linear(I["cp"], mn, mn + 1.5, alpha=1.3), K.neg_log_restricted_posterior_power_laws_prior(m, I["cp"], I["x"], I["z"]), K.neg_log_restricted_posterior_logsigma2_prior(m, I["cp"], I["x"], I["z"], 0.2, gamma=2.0), K.compute_logrho_min_from_xi(I["x"])]


op("guess", spread)(lambda I, m, c: [K.anisotropic_parameters_initial_guess_zero_mean(m, I["x"], I["z"])] + ([K.anisotropic_parameters_initial_guess(m, I["x"], I["z"])] if linear(c) else []))
op("bounds", spread)(lambda I, m, c: K.empirical_bounds_factory(I["x"], I["z"]))


def selection(name):
    def fn(I, m, c):
        mm = make_model({"type": "linear_predictor", "kind": "const"}, c["p"], None)
        _, info = getattr(K, name)(mm, I["x"], I["z"], covparam0=I["cp0"], info=True, bounds=I["bounds"], method_options=I["options"])
        a = N(mm.covparam)
        return a

    return fn


for _n in ("select_parameters_with_reml", "select_parameters_with_remap_with_power_laws_prior", "select_parameters_with_remap", "select_parameters_with_remap_gaussian_logsigma2"):
    op(_n, lambda c: spread(c) and c["sel"] and len(c["z"]) > 4)(selection(_n))


@op("select with a loader", lambda c: spread(c) and c["sel"] and len(c["z"]) > 5)
def _(I, m, c):
    mm = make_model({"type": "linear_predictor", "kind": "const"}, c["p"], None)
    ld = D.DataLoader(D.Dataset(I["x"], I["z"]), batch_size=len(c["z"]), shuffle=False)
    K.select_parameters_with_reml(mm, dataloader=ld, covparam0=I["cp0"], bounds=I["bounds"], method_options=I["options"])
    return N(mm.covparam)


@op("select with a constant mean", lambda c: spread(c) and c["sel"])
def _(I, m, c):
    mm = make_model({"type": "parameterized", "kind": "const", "theta": [0.0]}, c["p"], None)
    K.select_parameters_with_ml_constant_mean(mm, I["x"], I["z"], meanparam0=I["theta"], covparam0=I["cp0"], method_options=I["options"])
    return [N(mm.meanparam), N(mm.covparam)]


@op("update", lambda c: spread(c) and c["sel"])
def _(I, m, c):
    mm = make_model({"type": "linear_predictor", "kind": "const"}, c["p"], c["covparam"])
    mm.covparam = I["cp0"]
    K.update_parameters_with_reml(mm, I["x"], I["z"], bounds=I["bounds"], method_options=I["options"])
    return N(mm.covparam)


@op("autoselect", lambda c: c["sel"])
def _(I, m, c):
    _, f, _, g = K.make_selection_criterion_with_gradient(m, lambda mo, p, x, z: crit_of(c, mo)(p, x, z), I["x"], I["z"])
    r = K.autoselect_parameters(I["cp0"], f, g, bounds=I["bounds"], method_options=I["options"])
    return N(r[0] if isinstance(r, tuple) else r)


# ------------------------------------------------------------------ data
@op("dataset")
def _(I, m, c):
    n = len(c["z"])
    ds = D.Dataset(I["x"], I["z"])
    two = D.Dataset([I["x"][: n // 2], I["x"][n // 2 :]], [I["z"][: n // 2], I["z"][n // 2 :]]) if n > 3 else ds
    out = [two.x_mean(), two.z_std(), two.x_median(), two.z_quantile(0.4), [two[i] for i in I["idx"]]]
    for s in D.Dataset.split(ds, (0.5, 0.5), 3) if n > 3 else []:
        out.append([s[i] for i in range(len(s))])
    ld = D.DataLoader(ds, batch_size=3, shuffle=True, seed=5)
    out.append([list(b) for b in ld])
    return out


@op("scalers", spread)
def _(I, m, c):
    out = []
    for nm, a in (("Normalizer", "x"), ("RobustScaler", "x"), ("MinMaxScaler", "x"), ("ObservationScaler", "z")):
        s = getattr(D, nm).fit(I[a])
        t = s.transform(I[a])
        out += [t, s.inverse_transform(t)]
    return out


@op("parameters")
def _(I, m, c):
    p = param_from_covparam_anisotropic(I["cp"], None, None, name_prefix="")
    p.set_by_name("sigma2", 2.5)
    q = Param(values=I["cp"], normalizations=["log" if i % 2 else "none" for i in I["ind"]])
    q.set_from_unnormalized(**{q.names[0]: 3.0}) if False else None
    return [p.values, p.denormalized_values, q.denormalized_values]


# ------------------------------------------------------------- diagnosis
op("performance", lambda c: len(c["z"]) > 4 and np.ptp(c["zt"]) > 1e-3)(lambda I, m, c: MD.compute_performance(m, I["x"], I["z"], xtzt=(I["xt"], I["zt"])))
op("perf", lambda c: len(c["z"]) > 4 and np.ptp(c["zt"]) > 1e-3)(lambda I, m, c: MD.perf(m, I["x"], I["z"], xtzt=(I["xt"], I["zt"])))
op("describe")(lambda I, m, c: MD.describe_array(I["x"], I["names"], 2.0).data)
op("sigma rho")(lambda I, m, c: MD.sigma_rho_from_covparam(I["cp"]))


@op("criterion statistics", lambda c: c["sel"])
def _(I, m, c):
    r = MD.selection_criterion_statistics_fast(model=m, xi=I["x"], selection_criterion=toy, covparam=I["cp"], ind=I["ind"], param_box=I["pbox"], n_points=20)
    return [r[k] for k in sorted(r) if not isinstance(r[k], (str, dict))]


@op("diag", lambda c: spread(c) and c["sel"] and linear(c) and c["mean"]["kind"] == "const")
def _(I, m, c):
    info = types.SimpleNamespace(success=True, best_value_returned=True, nfev=3, total_time=0.1, initial_params=I["cp"], final_params=I["cp"], covparam0=I["cp0"], covparam=I["cp"], selection_criterion=toy, selection_criterion_nograd=toy, bounds=I["bounds"], fun=1.0, time=0.1)
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        MD.diag(m, info, I["x"], I["z"])
    return b.getvalue()


op("scores")(lambda I, m, c: [S.crps_gaussian(I["m"], I["s"], I["zt"]), S.ei1_up(I["m"], I["s"], I["zt"]), S.tcrps_gaussian(I["m"], I["s"], I["zt"], a=I["lo"], b=I["hi"]), S.tcrps_gaussian(I["m"], I["s"], I["zt"], a=0.0)])
op("tables")(lambda I, m, c: str(DF.DataFrame(I["xn"], I["names"], [str(i) for i in range(len(c["x"]))])))
op("design criteria", lambda c: len(c["x"]) > 2)(lambda I, m, c: [DS.maxdist(I["xn"]), DS.mindist(I["xn"]), DS.filldist_approx(I["xn"], I["box"], x=I["xtn"]), DS.regulargrid(len(c["x"][0]), 3, I["box"]), DS.scale(I["grid8n"][:, : len(c["x"][0])], I["box"])])


@op("designs")
def _(I, m, c):
    np.random.seed(1)
    return [DS.randunif(len(c["x"][0]), 4, I["box"])]


op("test functions")(lambda I, m, c: [TF.twobumps(I["grid8"][:, :1]), TF.wave(I["grid8"][:, :2]), TF.braninhoo(I["grid8"][:, :2]), TF.hartmann4(I["grid8"][:, :4]), TF.hartmann6(I["grid8"][:, :6]), TF.borehole(I["grid8"]), TF.detpep8d(I["grid8"]), TF.ishigami(I["grid8"][:, :3])])


# ------------------------------------------------------------- samplers
@op("mh")
def _(I, m, c):
    gnp.set_seed(5)
    s, mh = PP.sample_from_selection_criterion_mh(selection_criterion=toy, param_initial_states=I["cp"], sampling_box=I["pbox"], n_steps_total=12, burnin_period=4, silent=True, plot_chains=False, plot_empirical_distributions=False)
    return s, mh.log_target_values


@op("metropolis")
def _(I, m, c):
    gnp.set_seed(7)
    d = len(c["covparam"])
    mh = MH.MetropolisHastings(lambda p: -toy(p), options=MH.MHOptions(dim=d, n_chains=3, n_pool=1, proposal_distribution_param_init=I["mass"], adaptation_interval=4))
    s = mh.scheduler(I["pts"], 12, 6)
    return s, mh.rates, mh.proposal_distribution_params


@op("nuts", lambda c: c["sel"])
def _(I, m, c):
    s, info = PP.sample_from_selection_criterion_nuts(selection_criterion=toy, param_initial_states=I["cp"], sampling_box=I["pbox"], num_samples=3, num_warmup=2, init_mass_diag=I["mass"], max_depth=3, seed=2, progress=False, verbose=0)
    return s, info["log_prob_trace"]


@op("svgd")
def _(I, m, c):
    gnp.set_seed(6)
    s, info = PP.sample_from_selection_criterion_svgd(selection_criterion=toy, particles_initial=I["pts"], preconditioner_diag=I["mass"], sampling_box=I["pbox"], n_steps=3, step_size=0.1, progress=False)
    s2, _ = PP.sample_from_selection_criterion_svgd(selection_criterion=toy, particles_initial=I["cp"], n_particles=1, n_steps=2, progress=False)
    return s, s2


# ------------------------------------------------------- numerical layer
@op("linear algebra")
def _(I, m, c):
    L = gnp.cholesky(I["spd"])
    return [L, gnp.solve(I["spd"], I["rhs"]), gnp.cholesky_solve(I["spd"], I["rhs"])[0], gnp.cholesky_inv(I["spd"]), gnp.logdet(I["spd"]), gnp.solve_triangular(L, I["rhs"], lower=True), gnp.qr(I["spd"], mode="complete")[1], gnp.svd(I["spd"])[1], gnp.eigh(I["spd"])[0] if hasattr(gnp, "eigh") else 0.0, gnp.norm(I["rhs"]), gnp.einsum("ij,jk->ik", I["spd"], I["rhs"]), gnp.matmul(I["spd"], I["rhs"]), gnp.cdist(I["x"], I["xt"]), gnp.scaled_distance(I["cp"][1:], I["x"], I["xt"]), gnp.scaled_distance_elementwise(I["cp"][1:], I["x"], I["x"])]


@op("array functions")
def _(I, m, c):
    z, x = I["z"], I["x"]
    return [gnp.sort(z, axis=0), gnp.where(I["mask"], z, 0.0), gnp.clip(z, min=-0.5, max=0.5), gnp.cumsum(z, axis=0) if hasattr(gnp, "cumsum") else 0.0, gnp.exp(z), gnp.abs(z), gnp.sqrt(gnp.abs(z)), gnp.maximum(z, 0.0 * z), gnp.minimum(z, 0.0 * z), gnp.concatenate((z, z)), gnp.tile(z, (2,)), gnp.inftobigf(z), gnp.hstack((x, x)), gnp.mean(x, axis=0), gnp.diff(z) if hasattr(gnp, "diff") else 0.0, gnp.normal.cdf(z), gnp.normal.logcdf(z), gnp.multivariate_normal.logpdf(I["rhs"][:, 0], 0.0, I["spd"]), gnp.array(z), gnp.copy(z)]


@op("random draws")
def _(I, m, c):
    gnp.set_seed(9)
    return [gnp.rand(2, 2), gnp.randn(3), gnp.permutation(I["z"]), gnp.choice(I["z"], 3), gnp.choice(3, 4, replace=True, p=I["pw"]), gnp.multivariate_normal.rvs(I["rhs"][:, 0], I["spd"], n=2)]


def user_defaults(I, m, c):
    """A user changing the defaults and putting them back leaves no trace."""
    from gpmp.kernel import prior_defaults as P

    old = P.get_default_prior_hyperparameters()
    P.set_default_prior_hyperparameters(gamma=3.0, alpha=2.0)
    try:
        if linear(c):
            K.neg_log_restricted_posterior_power_laws_prior(m, I["cp"], I["x"], I["z"])
    finally:
        P.set_default_prior_hyperparameters(**{k: old[k] for k in old})
    return [old[k] for k in sorted(old)]


op("defaults")(user_defaults)


# --------------------------------------------------------------- running
class Changed(Exception):
    """Raised when an array handed to an inner call was modified."""

    def __init__(self, what):
        super().__init__(what)
        raise self


def call(name, I, m, c):
    """(returned objects, plain values) of one call, or the fact that it raised."""
    fn = OPS[name][0]
    with contextlib.redirect_stdout(io.StringIO()) as b, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            v = fn(I, m, c)
        except Changed:
            raise
        except Exception as e:  # noqa: BLE001
            if not any("/repo/gpmp" in f.filename for f in traceback.extract_tb(e.__traceback__)):
                raise
            return None, {"raises": type(e).__name__, "text": str(e)[:300]}
    r = plain(v)
    if v is None:
        r = b.getvalue()
    return v, r


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(u) for u in v]
    if isinstance(v, dict):
        return {str(k): plain(u) for k, u in v.items()}
    if v is None or isinstance(v, (bool, str)):
        return v
    a = N(v)
    if a.dtype == object:
        return str(v)
    if a.dtype == bool:
        return a.tolist()
    return a.astype(float).tolist()


def names(c):
    return [k for k, (_, when) in OPS.items() if when(c)]


def run(what, c):
    """Served to the other process: every call alone, on fresh inputs, in reverse order."""
    out = {}
    for k in reversed(names(c)):
        gp.config.clear_caches()
        out[k] = call(k, inputs(c), model_of(c), c)[1]
    return out
