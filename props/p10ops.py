"""Operations executed identically on both backends; results as plain numbers."""
import contextlib
import io
import math
import traceback

import numpy as np

from vf.util import A, N, gnp, gnp_basis, gp, make_model, user_kernel

import gpmp.modeldiagnosis.performance as PF
import gpmp.modeldiagnosis.utils as UT
import gpmp.misc.scoringrules as S
from gpmp.parameter import Param, param_from_covparam_anisotropic


class Out(dict):
    def rec(self, name, fn, conv=None):
        """Store the value of fn(), or the fact that the library raised."""
        try:
            v = fn()
        except Exception as e:  # noqa: BLE001
            if not any("/repo/gpmp" in f.filename for f in traceback.extract_tb(e.__traceback__)):
                raise
            self[name] = {"raises": type(e).__name__, "text": str(e)[:200]}
            return None
        self[name] = plain(v if conv is None else conv(v))
        return v


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(u) for u in v]
    if isinstance(v, dict):
        return {str(k): plain(u) for k, u in v.items()}
    if v is None or isinstance(v, (bool, str)):
        return v
    a = N(v)
    if a.dtype == bool:
        return a.tolist()
    return a.astype(float).tolist()


def arrays(c):
    return A(c["x"]), A(c["z"]), A(c["xt"])


def op_model(c):
    o = Out()
    x, z, xt = arrays(c)
    model = make_model(c["mean"], c["p"], c["covparam"])
    cp = A(c["covparam"])
    cov = model.covariance
    o.rec("k(x,x)", lambda: cov(x, x, cp))
    o.rec("k(x,None)", lambda: cov(x, None, cp))
    o.rec("k(x,xt)", lambda: cov(x, xt, cp))
    o.rec("k pairwise", lambda: cov(xt, None, cp, pairwise=True))
    k = min(len(c["x"]), len(c["xt"]))
    o.rec("k of pairs", lambda: cov(x[:k], xt[:k], cp, pairwise=True))
    zz = z.reshape(-1, 1) if c["zcol"] else z
    o.rec("prediction", lambda: model.predict(x, zz, xt))
    o.rec("prediction of NumPy arrays", lambda: model.predict(np.array(c["x"]), np.array(c["z"]), np.array(c["xt"])))
    o.rec("weights", lambda: model.predict(x, zz, xt, return_lambdas=True)[2])
    if len(c["z"]) > 2:
        o.rec("loo", lambda: model.loo(x, z))
    if c["mean"]["type"] == "linear_predictor":
        o.rec("norm", lambda: model.norm_k_sqrd(x, z, cp), lambda v: N(v).reshape(-1))
    else:
        o.rec("norm", lambda: model.norm_k_sqrd_with_zero_mean(x, z, cp), lambda v: N(v).reshape(-1))
    return o


def criterion(c, model):
    t = c["mean"]["type"]
    if t == "zero":
        return lambda p, x, z: model.negative_log_likelihood_zero_mean(p, x, z)
    if t == "parameterized":
        return lambda p, x, z: model.negative_log_likelihood(p[:2], p[2:], x, z)
    return lambda p, x, z: model.negative_log_restricted_likelihood(p, x, z)


def op_criteria(c):
    o = Out()
    x, z, xt = arrays(c)
    model = make_model(c["mean"], c["p"], c["covparam"])
    f = criterion(c, model)
    par = (list(c["mean"]["theta"]) if c["mean"]["type"] == "parameterized" else []) + list(c["covparam"])
    p = A(par)
    o.rec("criterion", lambda: f(p, x, z))
    o.rec("value and gradient", lambda: gnp.value_and_grad(lambda q: f(q, x, z), p), lambda r: [r[0], r[1]])
    sc = gnp.DifferentiableSelectionCriterion(f, x, z)
    o.rec("pre_grad", lambda: sc.evaluate_pre_grad(p))
    o.rec("no_grad", lambda: sc.evaluate_no_grad(p))
    for nm, bad in (("huge variance", 800.0), ("tiny variance", -800.0)):
        q = list(par)
        q[-len(c["covparam"])] = bad
        o.rec(nm, lambda: sc.evaluate_pre_grad(A(q)))
        o.rec(nm + " no gradient", lambda: sc.evaluate_no_grad(A(q)))
    if c["mean"]["type"] == "linear_predictor":
        cp = A(c["covparam"])
        d = len(c["covparam"]) - 1
        K = gp.kernel
        o.rec("log-prior power law", lambda: K.log_prior_power_law(cp))
        o.rec("log-prior gaussian", lambda: K.log_prior_gaussian_logsigma2(cp, 0.3, gamma=1.7))
        mn = A([v - 3.0 for v in [-u for u in c["covparam"][1:]]])
        r0 = mn + 1.5
        o.rec("log-prior length scales", lambda: K.log_prior_logrho_barrier_linear(cp, mn, r0, alpha=1.3))
        o.rec("below the barrier", lambda: K.log_prior_logrho_barrier_linear(cp, mn + 4.0, mn + 5.0, alpha=1.3))
        o.rec("penalised power laws", lambda: K.neg_log_restricted_posterior_power_laws_prior(model, cp, x, z))
        o.rec("minimal length scale", lambda: K.compute_logrho_min_from_xi(x))
        if d <= 2:
            o.rec("Fisher", lambda: model.fisher_information(x, cp))
    if len(c["z"]) > 3 and len({tuple(r) for r in c["x"]}) == len(c["x"]):
        K = gp.kernel
        fn = {"zero": K.anisotropic_parameters_initial_guess_zero_mean, "parameterized": K.anisotropic_parameters_initial_guess_constant_mean, "linear_predictor": K.anisotropic_parameters_initial_guess}[c["mean"]["type"]]
        o.rec("initial guess", lambda: fn(model, x, z))
        o.rec("bounds", lambda: K.empirical_bounds_factory(x, z))
    return o


def op_data(c):
    o = Out()
    x, z, _ = arrays(c)
    n = len(c["z"])
    D = gp.dataloader
    cut = c["cut"]
    if 0 < cut < n:
        ds = D.Dataset([x[:cut], x[cut:]], [z[:cut], z[cut:]])
    else:
        ds = D.Dataset(x, z)
    for f in ("x", "z"):
        for s in ("min", "max", "mean", "var", "std", "median"):
            o.rec(f"{f}_{s}", lambda: getattr(ds, f"{f}_{s}")())
        o.rec(f"{f}_quantile", lambda: getattr(ds, f"{f}_quantile")(0.3))
    o.rec("items", lambda: [ds[i] for i in range(n)])
    # random streams differ between backends: sizes only
    o.rec("fold sizes", lambda: [[len(a), len(b)] for a, b in D.Dataset.k_fold_indices(n, min(3, n), c["seed"])] if n >= 2 else [])
    o.rec("split sizes", lambda: [len(s) for s in D.Dataset.split(ds, (0.5, 0.25, 0.25), c["seed"])] if n >= 4 else [])
    o.rec("subset", lambda: [ds.subset(A(list(range(0, n, 2))).astype(int) if not hasattr(gnp, "asint") else gnp.asint(A(list(range(0, n, 2)))))[i] for i in range((n + 1) // 2)])

    def batches():
        ld = D.DataLoader(ds, batch_size=c["bs"], shuffle=False, drop_last=bool(c["seed"] % 2))
        return [[list(b) for b in ld] for _ in range(2)]

    o.rec("batches", batches)
    for nm in ("Normalizer", "RobustScaler", "MinMaxScaler", "ObservationScaler"):
        cls = getattr(D, nm)
        arg = z if nm.startswith("Obs") else x

        def sc():
            s = cls.fit(arg)
            t = s.transform(arg)
            return [t, s.inverse_transform(t)]

        if n > 1:
            o.rec(nm, sc)
    o.rec("describe", lambda: UT.describe_array(x, [f"v{j}" for j in range(len(c["x"][0]))], 2.0).data)
    return o


def op_scores(c):
    o = Out()
    m, s, z = A(c["m"]), A(c["s"]), A(c["zz"])
    o.rec("crps", lambda: S.crps_gaussian(m, s, z))
    o.rec("ei1", lambda: S.ei1_up(m, s, z))
    o.rec("ei2", lambda: S.ei2_up(m, s, z), lambda v: N(v).reshape(-1))
    for a, b in ((-math.inf, 0.5), (-0.3, math.inf), (-1.0, 1.2), (-math.inf, math.inf)):
        o.rec(f"tcrps[{a},{b}]", lambda: S.tcrps_gaussian(m, s, z, a=a, b=b))
    cp = A(c["covparam"])
    o.rec("sigma and rho", lambda: UT.sigma_rho_from_covparam(cp), lambda r: {k: N(v).reshape(-1) for k, v in r.items()})

    def par():
        p = param_from_covparam_anisotropic(cp, None, None, name_prefix="")
        p.set_by_name("sigma2", 2.5)
        q = Param(values=A(c["m"]), normalizations=["log" if i % 2 else "none" for i in range(len(c["m"]))])
        return [p.values, p.denormalized_values, list(p.names), q.denormalized_values, repr(p)]

    o.rec("parameters", par)
    return o


def op_performance(c):
    o = Out()
    x, z, xt = arrays(c)
    model = make_model(c["mean"], c["p"], c["covparam"])
    zt = A(c["zt"])
    o.rec("performance", lambda: PF.compute_performance(model, x, z, xtzt=(xt, zt)))

    def pr():
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            PF.perf(model, x, z, xtzt=(xt, zt))
        return [ln.split()[0] for ln in b.getvalue().splitlines() if ln.strip()]

    o.rec("printed", pr)
    return o


def op_fail(c):
    """Covariances that are not positive definite: both backends must say so."""
    o = Out()
    x, z, _ = arrays(c)
    s = c["shift"]

    def cov(x, y, covparam, pairwise=False):
        if pairwise:
            return gnp.zeros((x.shape[0],)) + gnp.exp(covparam[0])
        y_ = x if y is None else y
        h = gnp.scaled_distance(covparam[1:], x, y_)
        return gnp.exp(covparam[0]) * (gnp.exp(-h) - s)

    model = gp.core.Model(gnp_basis("const"), cov, None, A(c["covparam"]), meantype="linear_predictor") if c["reml"] else gp.core.Model(None, cov, None, A(c["covparam"]), meantype="zero")
    cp = A(c["covparam"])
    f = model.negative_log_restricted_likelihood if c["reml"] else model.negative_log_likelihood_zero_mean
    o.rec("criterion", lambda: f(cp, x, z))
    sc = gnp.DifferentiableSelectionCriterion(lambda p, a, b: f(p, a, b), x, z)
    o.rec("pre_grad", lambda: sc.evaluate_pre_grad(cp))
    o.rec("no_grad", lambda: sc.evaluate_no_grad(cp))
    ld = gp.dataloader.DataLoader(gp.dataloader.Dataset(x, z), batch_size=3, shuffle=False)
    bc = gnp.BatchDifferentiableSelectionCriterion(lambda p, a, b: f(p, a, b), ld)
    o.rec("batch", lambda: bc.evaluate_no_grad(cp))
    o.rec("batch pre_grad", lambda: bc.evaluate_pre_grad(cp))
    return o


def op_select(c):
    o = Out()
    x, z, xt = arrays(c)
    K = gp.kernel
    model = make_model({"type": "linear_predictor", "kind": "const"}, c["p"], None)
    meth = {"reml": K.select_parameters_with_reml, "remap": K.select_parameters_with_remap, "power": K.select_parameters_with_remap_with_power_laws_prior}[c["method"]]

    def go():
        m, info = meth(model, x, z, info=True)
        return [model.negative_log_restricted_likelihood(m.covparam, x, z), info.initial_params if hasattr(info, "initial_params") else [], info.fun, info.selection_criterion_nograd(A(info.covparam)), info.bounds]

    o.rec("selection", go)
    return o


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}


def run(op, case):
    return OPS[op](case)
