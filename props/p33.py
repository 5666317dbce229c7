"""P33: data that do not fit together are refused."""
import contextlib
import io
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

from vf.core import Prop
from vf.util import A, N, chance, check, gnp, gp, integer, make_model, matern_covariance, pick, points, reals

import gpmp.modeldiagnosis as MD
import gpmp.plot.plotutils as PU
from gpmp.dataloader import Dataset

K = gp.kernel

PROP = Prop(
    "P33",
    rule="the same call with the data as they should be is accepted, and the spoilt one differs from it in one shape only",
    assumptions=[
        "any exception counts as a refusal; results of accepted calls are decided by other properties",
        "a single response for several points is not tried with a known mean (the likelihood subtracts the mean first, which broadcasts), nor are shapes the documentation leaves open",
    ],
)


def refused(fn):
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn()
    except Exception:
        return True
    return False


def run(fn):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def flat(r):
    if isinstance(r, (tuple, list)):
        return np.concatenate([flat(v) for v in r])
    if isinstance(r, dict):
        return np.concatenate([flat(r[k]) for k in sorted(r)])
    return N(r).astype(float).reshape(-1)


# ----------------------------------------------------------- spoiling the data
def spoil(case, x, z, xt):
    """One array with the wrong shape; None when the spoiling does not apply to these sizes."""
    n, d = x.shape
    k, how = case["k"], case["how"]
    if how == "x flat":
        return x[:, 0].copy(), z, xt
    if how == "x deep":
        return x[:, :, None], z, xt
    if how == "z short":
        return x, z[: max(n - k, 1)] if n - max(n - k, 1) > 0 and max(n - k, 1) > 1 else z[:-1], xt
    if how == "z long":
        return x, np.concatenate([z, z[:k]]), xt
    if how == "z single":
        return x, z[:1], xt
    if how == "z twice":
        return x, np.stack([z, z], 1), xt
    if how == "z row":
        return x, z[None, :], xt
    if how == "z deep":
        return x, z[:, None, None], xt
    if how == "xt flat":
        return x, z, xt[0].copy()
    if how == "xt deep":
        return x, z, xt[:, :, None]
    if how == "xt wide":
        return x, z, np.concatenate([xt, xt[:, :1]], 1)
    if how == "xt narrow":
        return (x, z, xt[:, :1]) if d > 1 else None
    raise AssertionError(how)


ROWS = ["z short", "z long"]
RESP = ROWS + ["z twice"]
FULL = RESP + ["z single", "z row"]
CORE = FULL + ["z deep", "x flat", "x deep"]
XT = ["xt flat", "xt deep", "xt wide", "xt narrow", "xt narrow"]


def crit(name):
    def f(m, v):
        cp = m.covparam
        if name == "ml0":
            return m.negative_log_likelihood_zero_mean(cp, v["x"], v["z"])
        if name == "ml":
            return m.negative_log_likelihood(m.meanparam, cp, v["x"], v["z"])
        if name == "reml":
            return m.negative_log_restricted_likelihood(cp, v["x"], v["z"])
        if name == "norm0":
            return m.norm_k_sqrd_with_zero_mean(v["x"], v["z"], cp)
        return m.norm_k_sqrd(v["x"], v["z"], cp)

    return f


def select(m, v):
    _, info = K.select_parameters_with_reml(m, v["x"], v["z"], info=True)
    return info.fun


def select_user(m, v):
    """A criterion of one's own, over the zero-mean likelihood."""
    _, info = K.select_parameters_with_criterion(m, lambda mm, cp, x, z: mm.negative_log_likelihood_zero_mean(cp, x, z), v["x"], v["z"], covparam0=m.covparam, info=True)
    return info.fun


def cross(m, v):
    x = v["x"]
    box = [[-1.0] * x.shape[1], [2.0] * x.shape[1]]
    PU.crosssections(m, x, v["z"], box, nt=4)
    plt.close("all")
    return 0.0


# name: (mean types, call, spoilings)
OPS = {
    "predict": (None, lambda m, v: m.predict(v["x"], v["z"], v["xt"], convert_in=v["conv"]), CORE + XT),
    "loo": (None, lambda m, v: m.loo(v["x"], v["z"], convert_in=v["conv"]), CORE),
    "likelihood, zero mean": (["zero"], crit("ml0"), FULL),
    "likelihood": (["parameterized"], crit("ml"), RESP),
    "restricted likelihood": (["linear_predictor"], crit("reml"), FULL),
    "norm, zero mean": (["zero"], crit("norm0"), ROWS + ["z single", "z row"]),
    "norm": (["linear_predictor"], crit("norm"), ROWS + ["z single", "z row"]),
    "initial guess": (["linear_predictor"], lambda m, v: K.anisotropic_parameters_initial_guess(m, v["x"], v["z"]), RESP),
    "selection": (["linear_predictor"], select, FULL),
    "selection, own criterion": (["zero"], select_user, FULL),
    "performance": (None, lambda m, v: {k: w for k, w in MD.compute_performance(m, v["x"], v["z"]).items() if k in ("loo_rmse", "loo_n")}, CORE),
    "test performance": (None, lambda m, v: {k: w for k, w in MD.compute_performance(m, v["x"], v["z"], loo=False, xtzt=(v["xt"], v["zt"])).items() if k == "test_n"}, FULL + XT[2:]),
    "cross-sections": (None, cross, ["x flat", "z short", "z long", "z twice", "z single"]),
    "dataset": (["zero"], lambda m, v: Dataset(v["x"], v["z"]).x_mean(), ROWS + ["z single"]),
}


def g_case(draw):
    name = pick(draw, *sorted(OPS))
    d = integer(draw, 1, 3)
    n = integer(draw, 4, 7)
    x = np.array(points(draw, n, d, scale=1.0), float)
    for j in range(d):  # the guesses divide by the extent of every input
        if np.ptp(x[:, j]) < 0.1:
            x[:, j] = np.linspace(0.0, 1.0, n)
    x = x.tolist()
    return {
        "op": name, "x": x, "z": [0.7 * ((3 * i) % n) + v for i, v in enumerate(reals(draw, n, -0.3, 0.3))], "xt": points(draw, integer(draw, 2, 4), d), "cp": [0.0] + [0.7] * d,
        "type": pick(draw, *(OPS[name][0] or ["zero", "parameterized", "linear_predictor"])),
        "how": pick(draw, *OPS[name][2]), "k": integer(draw, 1, 2), "conv": chance(draw, 2, 3), "column": chance(draw, 1, 4),
    }


MEANS = {
    "zero": {"type": "zero"},
    "parameterized": {"type": "parameterized", "kind": "const", "theta": [0.4]},
    "linear_predictor": {"type": "linear_predictor", "kind": "const"},
}


@PROP.case("shapes", g_case, quick=700, budget=(40, 300))
def c_shapes(case, ctx):
    _, call, _ = OPS[case["op"]]
    x, z, xt = (np.array(case[a], float) for a in ("x", "z", "xt"))
    bad = spoil(case, x, z, xt)
    if bad is None:
        return
    good = {"x": A(x), "z": A(z), "xt": A(xt), "zt": A(xt[:, 0]), "conv": case["conv"]}

    def fresh():
        return make_model(MEANS[case["type"]], 1, case["cp"])

    m = fresh()
    want = flat(run(lambda: call(m, good)))
    check(np.all(np.isfinite(want)), f"{case['op']}: {want} on sound data", "sound")
    m = fresh()
    given = {**good, "x": A(bad[0]), "z": A(bad[1]), "xt": A(bad[2])}
    before = {k: N(v).copy() for k, v in given.items() if k != "conv"}
    ok = refused(lambda: call(m, given))
    plt.close("all")
    check(ok, f"{case['op']} ({case['type']}) accepts inputs {bad[0].shape}, responses {bad[1].shape}, targets {bad[2].shape}", f"{case['op']}:{case['how']}")
    # the refusal leaves nothing behind
    check(np.array_equal(N(m.covparam), np.array(case["cp"], float)), "the refused data changed the parameters of the model", "left behind")
    for k, v in before.items():
        check(np.array_equal(N(given[k]), v), f"the refused data were modified ({k})", "left behind")
    again = flat(run(lambda: call(m, good)))
    check(again.shape == want.shape and np.allclose(again, want, rtol=1e-6, atol=1e-8), f"{case['op']} gives {again} after a refusal, {want} before", "left behind")
    ctx.tag(case["op"])
    ctx.tag(case["how"])
    ctx.nontrivial(True)


# ------------------------------------------------------------ sharded datasets
def g_shards(draw):
    k = integer(draw, 2, 4)
    sizes = [integer(draw, 1, 4) for _ in range(k)]
    return {"sizes": sizes, "d": integer(draw, 1, 2), "how": pick(draw, "shift", "count", "short", "swap", "missing", "extra"), "at": integer(draw, 0, k - 2)}


@PROP.case("shards", g_shards, quick=200, budget=(10, 60))
def c_shards(case, ctx):
    """Every shard of inputs goes with a shard of as many responses; equal totals are not enough."""
    sx = list(case["sizes"])
    sz = list(sx)
    i = case["at"]
    if case["how"] == "shift":
        sz[i], sz[i + 1] = sz[i] + 1, sz[i + 1] - 1
    elif case["how"] == "swap":
        sz[i], sz[i + 1] = sz[i + 1], sz[i]
    elif case["how"] == "short":
        sz[i] += 1
    elif case["how"] == "missing":
        sz = sz[:-1]
    elif case["how"] == "extra":
        sz = sz + [2]
    else:
        sz = sz[:i] + [sz[i] + sz[i + 1]] + sz[i + 2 :]
    if sz == sx:
        return

    def arrays(s, *tail):
        return [A(np.arange(float(v * int(np.prod(tail or (1,))))).reshape(v, *tail)) for v in s]

    check(len(Dataset(arrays(sx, case["d"]), arrays(sx))) == sum(sx), "sound shards", "sound")
    check(refused(lambda: Dataset(arrays(sx, case["d"]), arrays(sz))), f"shards of {sx} inputs and {sz} responses accepted", "shards")
    ctx.tag(case["how"])
    ctx.nontrivial(True)


# ------------------------------------------------------------ models and figures
def g_model(draw):
    return {"type": pick(draw, "zero", "parameterized", "linear_predictor", "", "Zero", "constant", "linear"), "mean": chance(draw, 1, 2), "param": chance(draw, 1, 2), "x": points(draw, 4, 1), "z": reals(draw, 4)}


@PROP.case("models", g_model, quick=150, budget=(10, 60), rule="the combination is to be refused")
def c_model(case, ctx):
    """A mean type and a mean function that do not go together are refused when the model is built."""
    known = case["type"] in ("zero", "parameterized", "linear_predictor")
    mean = (lambda x, p: gnp.ones((x.shape[0], 1))) if case["mean"] else None
    mp = A(np.array([0.5])) if case["param"] else None
    sound = known and (case["type"] == "zero") != case["mean"]
    made = []
    no = refused(lambda: made.append(gp.core.Model(mean, matern_covariance(1), mp, A(np.zeros(2)), case["type"])))
    check(no != sound, f"mean type {case['type']!r} {'with' if case['mean'] else 'without'} a mean function {'refused' if no else 'accepted'}", "mean")
    if sound:
        m, x, z = made[0], A(np.array(case["x"])), A(np.array(case["z"]))
        need = case["type"] == "parameterized" and not case["param"]
        check(refused(lambda: m.predict(x, z, x)) == need, f"{case['type']} mean, parameter {'given' if case['param'] else 'missing'}", "parameter")
        ctx.nontrivial(need)
    else:
        ctx.nontrivial(True)


def g_fig(draw):
    d = integer(draw, 1, 3)
    n = integer(draw, 3, 5)
    return {"x": points(draw, n, d), "z": reals(draw, n), "how": pick(draw, "box rows", "box columns", "box flat", "points", "anchor", "anchor below", "coordinate", "coordinate below", "word")}


@PROP.case("cross-section-arguments", g_fig, quick=100, budget=(15, 60))
def c_fig(case, ctx):
    x, z = np.array(case["x"], float), np.array(case["z"], float)
    n, d = x.shape
    box = np.array([[-1.0] * d, [2.0] * d])
    kw = {"nt": 4, "ind_i": 0, "ind_dim": 0}
    m = make_model(MEANS["zero"], 1, [0.0] + [0.7] * d)
    run(lambda: PU.crosssections(m, A(x), A(z), box, **kw))
    how = case["how"]
    if how == "box rows":
        box = box[:1]
    elif how == "box columns":
        box = np.hstack([box, box[:, :1]])
    elif how == "box flat":
        box = box.reshape(-1)
    else:
        kw.update({"points": {"nt": 1}, "anchor": {"ind_i": n}, "anchor below": {"ind_i": [0, -1]}, "coordinate": {"ind_dim": [0, d]}, "coordinate below": {"ind_dim": -1}, "word": {"ind_i": "median"}}[how])
    ok = refused(lambda: PU.crosssections(m, A(x), A(z), box, **kw))
    plt.close("all")
    check(ok, f"cross-sections with a wrong argument ({how}) are drawn", how)
    ctx.tag(how)
    ctx.nontrivial(True)
