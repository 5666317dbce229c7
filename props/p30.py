"""P30: how numbers are stored does not change any result."""
import contextlib
import io

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from vf.core import Prop
from vf.util import A, N, chance, check, close, gnp, gp, integer, make_model, pick

import gpmp.dataloader as DL
import gpmp.mcmc.mh as MH
import gpmp.mcmc.nuts as NU
import gpmp.mcmc.svgd as SV
import gpmp.misc.designs as DE
import gpmp.misc.scoringrules as SR
import gpmp.misc.testfunctions as TF
import gpmp.modeldiagnosis as MD
import gpmp.modeldiagnosis.plotting as MP
import gpmp.plot.plotutils as PU
from gpmp.misc.dataframe import DataFrame
from gpmp.parameter.param import Param

K = gp.kernel
TORCH = gnp._gpmp_backend_ == "torch"

PROP = Prop(
    "P30",
    rule="some argument is not a contiguous double array of the backend, and the result is not constant",
    assumptions=[
        "values are small integers, so that every storage form holds exactly the same numbers",
        "functions that document arrays of the backend are given arrays of the backend; NumPy arrays and lists are given where they are converted",
        "results of the same call agree to 1e-9 of their size with numpy, 1e-6 with torch (whose distances depend on the summation order to that extent); a selection is compared through its starting point and its criterion, its end point being ill-conditioned",
    ],
)

# ---------------------------------------------------------------- storage forms


def _ro(a):
    a = np.array(a, float)
    a.setflags(write=False)
    return a


def _every_other(a):
    b = np.full((2 * a.shape[0] + 1,) + a.shape[1:], 77.0)
    b[1::2] = a
    return b[1::2]


def _inner(a):
    b = np.full(tuple(k + 2 for k in a.shape), -55.0)
    b[tuple(slice(1, k + 1) for k in a.shape)] = a
    return b[tuple(slice(1, k + 1) for k in a.shape)]


NPFORMS = {
    "i64": lambda a: np.array(a, np.int64),
    "i32": lambda a: np.array(a, np.int32),
    "i8": lambda a: np.array(a, np.int8),
    "f32": lambda a: np.array(a, np.float32),
    "f64": lambda a: np.array(a, float),
    "fortran": lambda a: np.asfortranarray(np.array(a, float)),
    "reversed": lambda a: np.array(a, float)[::-1].copy()[::-1],
    "flipped": lambda a: np.array(a, float)[..., ::-1].copy()[..., ::-1],
    "strided": lambda a: _every_other(np.array(a, float)),
    "inner": lambda a: _inner(np.array(a, float)),
    "readonly": _ro,
    "bigendian": lambda a: np.array(a, ">f8"),
}
if TORCH:
    import torch

    NATIVE = {
        "tensor": lambda a: torch.tensor(np.array(a, float)),
        "tensor-t": lambda a: torch.tensor(np.array(a, float).T.copy()).T if np.ndim(a) == 2 else torch.tensor(np.array(a, float)),
        "tensor-strided": lambda a: torch.tensor(np.repeat(np.array(a, float), 2, axis=0))[::2],
        "tensor-grad-off": lambda a: torch.tensor(np.array(a, float), requires_grad=True).detach(),
    }
    NATIVE_INT = {
        "tensor-i64": lambda a: torch.tensor(np.array(a, np.int64)),
        "tensor-i32": lambda a: torch.tensor(np.array(a, np.int32)),
        "tensor-f32": lambda a: torch.tensor(np.array(a, np.float32)),
    }
    del NPFORMS["bigendian"]  # refused by torch
else:
    NATIVE = dict(NPFORMS)
    NATIVE_INT = {}
LISTS = {"list": lambda a: np.array(a).tolist(), "floats": lambda a: np.array(a, float).tolist()}
FORMS = {**NPFORMS, **NATIVE, **NATIVE_INT, **LISTS}

ALL = list(NPFORMS) + list(NATIVE) + list(NATIVE_INT)  # converted arrays
ANY = ALL + list(LISTS)  # converted array-likes
NAT = [f for f in NATIVE if f not in ("f32", "i8")]  # arrays of the backend; short types are computed in short precision
IDX = ["i64", "i32", "list", "i8"] + (["tensor-i64"] if TORCH else [])


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def flat(v):
    """All numbers of a result, in order."""
    if v is None:
        return np.zeros(0)
    if isinstance(v, str):
        return np.zeros(0)
    if isinstance(v, dict):
        v = [v[k] for k in v]
    if isinstance(v, (list, tuple)):
        return np.concatenate([flat(u) for u in v]) if len(v) else np.zeros(0)
    return np.asarray(N(v), float).ravel()


# ---------------------------------------------------------------- operations
def mdl(c, cp=None, meantype=None):
    mean = c["mean"] if meantype is None else meantype
    m = model_of(mean, c["p"])
    m.covparam = A(np.array(c["cp"], float)) if cp is None else cp
    return m


def model_of(mean, p):
    cov = lambda x, y, cp, pairwise=False: K.maternp_covariance(x, y, p, cp, pairwise)
    if mean == "zero":
        return gp.Model(None, cov, None, None, "zero")
    if mean == "constant":
        return gp.Model(lambda x, q: gnp.ones((x.shape[0], 1)), cov, None, None, "linear_predictor")
    if mean == "linear":
        return gp.Model(
            lambda x, q: gnp.hstack((gnp.ones((x.shape[0], 1)), x)), cov, None, None, "linear_predictor"
        )
    m = gp.Model(lambda x, q: q[0] + q[1] * x[:, :1], cov, None, None, "parameterized")
    m.meanparam = A(np.array([1.0, -2.0]))
    return m


def reml(m, cp, x, z):
    return m.negative_log_restricted_likelihood(cp, x, z)


def selected(c, a, f):
    """The optimisation that is set up: its start and its criterion at a given point (where it ends is ill-conditioned)."""
    m = mdl(c, meantype="constant")
    _, info = quiet(lambda: f(m, a))
    check(np.all(np.isfinite(N(m.covparam))), "selected parameters are not finite", "select:finite")
    return [info["covparam0"], info["selection_criterion_nograd"](A(np.array(c["cp"], float)))]


def path_seed(f):
    gnp.set_seed(11)
    return f()


def cond_paths(c, a):
    m = mdl(c, meantype="zero" if c["mean"] != "constant" else "constant")
    xa = np.vstack((np.array(c["x"], float), np.array(c["xt"], float)))
    n = len(c["x"])
    zpm, zpv, lam = m.predict(A(np.array(c["x"], float)), A(np.array(c["z"], float)), A(xa), return_lambdas=True)
    gnp.set_seed(5)
    zs = m.sample_paths(A(xa), 3, method="svd")
    return m.conditional_sample_paths(zs, a["ii"], a["z"], a["it"], A(N(lam)[:, n:]))


OPS = {}


def op(name, spec, rtol=1e-9):
    def deco(f):
        OPS[name] = (f, spec, rtol)
        return f

    return deco


DATA = {"x": ALL, "z": ALL, "xt": ALL, "cp": NAT}


@op("predict", DATA)
def _(c, a):
    m = mdl(c, a["cp"])
    return m.predict(a["x"], a["z"], a["xt"], return_lambdas=True)


@op("loo", {"x": ALL, "z": ALL, "cp": NAT})
def _(c, a):
    return mdl(c, a["cp"]).loo(a["x"], a["z"])


@op("fisher", {"x": NAT, "cp": ALL})
def _(c, a):
    m = mdl(c)
    return m.fisher_information(a["x"], a["cp"])


@op("fisher-cpd", {"x": NAT, "cp": ALL})
def _(c, a):
    return mdl(c, meantype="constant").fisher_information_cpd(a["x"], a["cp"])


@op("likelihood", {"x": NAT, "z": NAT, "cp": NAT})
def _(c, a):
    if c["mean"] == "zero":
        m = mdl(c)
        return [m.negative_log_likelihood_zero_mean(a["cp"], a["x"], a["z"]), m.norm_k_sqrd_with_zero_mean(a["x"], a["z"], a["cp"])]
    if c["mean"] == "param":
        return mdl(c).negative_log_likelihood(A(np.array([1.0, 2.0])), a["cp"], a["x"], a["z"])
    m = mdl(c)
    return [reml(m, a["cp"], a["x"], a["z"]), m.norm_k_sqrd(a["x"], a["z"], a["cp"])]


@op("criterion", {"x": ANY, "z": ANY, "cp": ANY})
def _(c, a):
    m = mdl(c, meantype="constant")
    f, g, *_ = K.make_selection_criterion_with_gradient(m, reml, a["x"], a["z"])
    v = f(gnp.asdouble(a["cp"]))
    return [v, g(gnp.asdouble(a["cp"]))]


@op("penalised", {"x": NAT, "z": NAT, "cp": NAT})
def _(c, a):
    m = mdl(c, meantype="constant")
    return [
        K.neg_log_restricted_posterior_power_laws_prior(m, a["cp"], a["x"], a["z"]),
        gp.kernel.priors.neg_log_restricted_posterior_with_jeffreys_prior(m, a["cp"], a["x"], a["z"]),
    ]


@op("covariance", {"x": NAT, "xt": NAT, "cp": NAT})
def _(c, a):
    return [
        K.maternp_covariance(a["x"], a["xt"], c["p"], a["cp"]),
        K.maternp_covariance(a["x"], None, c["p"], a["cp"]),
        K.maternp_covariance(a["x"], None, c["p"], a["cp"], True),
    ]


@op("guess", {"x": ANY, "z": ANY})
def _(c, a):
    m = mdl(c, meantype="constant")
    return [
        K.anisotropic_parameters_initial_guess(m, a["x"], a["z"]),
        K.anisotropic_parameters_initial_guess_zero_mean(m, a["x"], a["z"]),
        *K.anisotropic_parameters_initial_guess_constant_mean(m, a["x"], a["z"]),
    ]


@op("bounds", {"x": ANY, "z": ANY})
def _(c, a):
    return K.empirical_bounds_factory(a["x"], a["z"])


@op("prior-bound", {"x": ANY})
def _(c, a):
    return gp.kernel.prior_helpers.compute_logrho_min_from_xi(a["x"])


@op("select-reml", {"x": ANY, "z": ANY})
def _(c, a):
    return selected(c, a, lambda m, a: K.select_parameters_with_reml(m, a["x"], a["z"], info=True, method_options={"maxiter": 4}))


@op("select-from", {"x": ANY, "z": ANY, "cp": ANY})
def _(c, a):
    return selected(c, a, lambda m, a: K.select_parameters_with_reml(m, a["x"], a["z"], covparam0=a["cp"], info=True, method_options={"maxiter": 4}))


@op("select-remap", {"x": ALL, "z": ALL})
def _(c, a):
    return selected(c, a, lambda m, a: K.select_parameters_with_remap(m, a["x"], a["z"], info=True, method_options={"maxiter": 4}))


@op("update", {"x": ALL, "z": ALL, "cp": ALL})
def _(c, a):
    def f(m, a):
        m.covparam = a["cp"]
        return K.update_parameters_with_reml(m, a["x"], a["z"], info=True, method_options={"maxiter": 4})

    return selected(c, a, f)


@op("dataset", {"x": ALL, "z": ALL})
def _(c, a):
    d = DL.Dataset(a["x"], a["z"])
    out = [d[i] for i in range(len(d))]
    for k in ("x", "z"):
        for r in ("min", "max", "mean", "std", "var", "median"):
            out.append(getattr(d, f"{k}_{r}")())
        out.append(getattr(d, f"{k}_quantile")(0.3))
    out += list(DL.DataLoader(d, batch_size=c["k"], shuffle=False))
    s = d.subset(gnp.asarray(np.arange(0, len(d), 2)))
    return out + [s.x_mean(), s.z_std()]


@op("loader-guess", {"x": ALL, "z": ALL})
def _(c, a):
    m = mdl(c, meantype="constant")
    d = DL.DataLoader(DL.Dataset(a["x"], a["z"]), batch_size=c["k"], shuffle=False)
    return K.anisotropic_parameters_initial_guess(m, dataloader=d)


@op("scalers", {"x": NAT, "z": NAT})
def _(c, a):
    out = []
    for n in ("Normalizer", "RobustScaler", "MinMaxScaler"):
        s = getattr(DL, n).fit(a["x"])
        out += [s.transform(a["x"]), s.inverse_transform(a["x"])]
    s = DL.ObservationScaler.fit(a["z"])
    return out + [s.transform(a["z"]), s.inverse_transform(a["z"])]


@op("performance", {"x": ANY, "z": ANY, "xt": ANY, "zt": ANY})
def _(c, a):
    r = MD.compute_performance(mdl(c, meantype="constant"), a["x"], a["z"], xtzt=(a["xt"], a["zt"]))
    return [v for v in r.values()]


@op("performance-test", {"xt": ANY, "zt": ANY})
def _(c, a):
    m = mdl(c, meantype="constant")
    x, z = A(np.array(c["x"], float)), A(np.array(c["z"], float))
    return list(MD.compute_performance(m, x, z, loo=False, xtzt=(a["xt"], a["zt"]), compute_pit=True).values())


@op("describe", {"x": [f for f in ALL if f not in ("f32", "tensor-f32")]})
def _(c, a):
    return MD.describe_array(a["x"], [f"r{j}" for j in range(len(c["x"][0]))], 1.5).data


@op("paths", {"xt": ALL, "cp": NAT})
def _(c, a):
    m = mdl(c, a["cp"], meantype="zero")
    return path_seed(lambda: m.sample_paths(a["xt"], 2, method="svd"))


@op("conditional-paths", {"z": ALL, "ii": IDX, "it": IDX})
def _(c, a):
    return cond_paths(c, a)


@op("scores", {"z": NAT, "x": NAT})
def _(c, a):
    s = gnp.exp(gnp.asdouble(a["x"])[:, 0] / 9.0)
    return [SR.crps_gaussian(a["z"], s, a["z"] * 0.0), SR.tcrps_gaussian(a["z"], s, a["z"] * 0.0, a=-1.0, b=2.0)]


@op("distances", {"x": NAT, "xt": NAT, "cp": NAT})
def _(c, a):
    return [gnp.scaled_distance(a["cp"][1:], a["x"], a["xt"]), gnp.cdist(a["x"], a["xt"])]


@op("design-box", {"box": ["list", "floats", "i64", "f64", "f32", "fortran", "reversed", "inner"]})
def _(c, a):
    d = len(c["x"][0])
    return [DE.scale(A(np.linspace(0, 1, 6 * d).reshape(6, d)), a["box"]), DE.regulargrid(d, 3, a["box"])]


@op("testfunctions", {"x": NAT})
def _(c, a):
    x = a["x"]
    return [TF.twobumps(x[:, :1]), TF.wave(A(np.ones((len(c["x"]), 2))) * x[:, :1])]


@op("table", {"x": ALL})
def _(c, a):
    d = len(c["x"][0])
    t = DataFrame(N(a["x"]), [f"c{j}" for j in range(d)], [f"r{i}" for i in range(len(c["x"]))])
    return t.data


@op("param", {"cp": ANY})
def _(c, a):
    p = Param(a["cp"], [["covparam"]] * len(c["cp"]), ["log"] * len(c["cp"]))
    return [p.values, p.denormalized_values]


def drawn(f):
    """Points of all the curves a call draws."""
    plt.close("all")
    try:
        quiet(f)
        return [[ln.get_xdata(orig=False), ln.get_ydata(orig=False)] for k in plt.get_fignums() for ax in plt.figure(k).axes for ln in ax.lines]
    finally:
        plt.close("all")


@op("sections", {"x": ALL, "z": ALL, "box": ["list", "i64", "f64", "i8"]})
def _(c, a):
    return drawn(lambda: PU.crosssections(mdl(c, meantype="constant"), a["x"], a["z"], a["box"], ind_i=[0, 2], nt=5))


def bowl(p):
    p = np.asarray(N(p), float)
    return float(np.sum(np.cosh((p - 0.25) / 3.0)))


@op("criterion-sections", {"cp": ANY})
def _(c, a):
    return drawn(lambda: MP.plot_selection_criterion_crosssections(selection_criterion=bowl, covparam=a["cp"], n_points=6, delta=1.3))


@op("one-parameter", {"cp": ANY})
def _(c, a):
    return [MD.make_single_param_criterion_function(bowl, a["cp"], j)(0.6) for j in range(len(c["cp"]))]


@op("statistics", {"cp": ANY, "x": NAT})
def _(c, a):
    r = MD.selection_criterion_statistics_fast(model=mdl(c, meantype="constant"), xi=a["x"], selection_criterion=bowl, covparam=a["cp"], n_points=40)
    return [r["parameter_statistics"].data, r["fisher_information"]]


def gauss(q):
    q = gnp.asarray(q)
    return -0.5 * gnp.sum((q - 0.3) ** 2) / 4.0


@op("nuts", {"x": NAT})
def _(c, a):
    s, info = quiet(lambda: NU.nuts_sample(gauss, a["x"][:2], 4, num_warmup=3, seed=c["k"], progress=False, verbose=0))
    return s


@op("mh", {"x": NAT})
def _(c, a):
    d = len(c["x"][0])
    mh = MH.MetropolisHastings(gauss, None, MH.MHOptions(dim=d, n_chains=2, adaptation_interval=3, init_msg=None))
    gnp.set_seed(c["k"])
    quiet(lambda: mh.scheduler(a["x"][:2], 12, 4))
    return mh.x


@op("svgd", {"x": ALL})
def _(c, a):
    return quiet(lambda: SV.svgd_sample(gauss, a["x"], options=SV.SVGDOptions(n_steps=3, step_size=0.1, verbose=0, progress=False))[0])


# ---------------------------------------------------------------- the check
DRAWN = ("sections", "criterion-sections")  # figures: slower


def g_drawn(draw):
    return g_case(draw, DRAWN)


def g_case(draw, ops=None):
    d = integer(draw, 1, 3)
    n = integer(draw, d + 3, 10)
    cells = 12 if d == 1 else 6
    rows = draw(st.lists(st.tuples(*[st.integers(-cells, cells - 1)] * d), min_size=n, max_size=n, unique=True))
    rows = [list(r) for r in rows] + [[cells] * d]  # no constant coordinate
    n += 1
    unit = pick(draw, 1, 1, 2, 9)  # gaps larger than one, ranges beyond the short integers
    rows = [[unit * v for v in r] for r in rows]
    k = integer(draw, 1, 5)
    xt = [rows[integer(draw, 0, n - 1)] if chance(draw, 1, 4) else [unit * integer(draw, -cells, cells) for _ in range(d)] for _ in range(k)]
    z = [integer(draw, -9, 9) for _ in range(n)]
    z[0], z[1], z[2] = 5, -4, 1
    zt = [integer(draw, -9, 9) for _ in range(k)]
    cp = [integer(draw, -1, 2)] + [integer(draw, -1, 1) for _ in range(d)]
    lo = [integer(draw, -5, 2) for _ in range(d)]
    box = [lo, [v + integer(draw, 1, 7) for v in lo]]
    name = pick(draw, *(ops or [o for o in sorted(OPS) if o not in DRAWN]))
    spec = OPS[name][1]
    forms = {a: pick(draw, *spec[a], *(f for f in spec[a] if "i64" in f)) for a in spec}
    return {
        "op": name, "forms": forms, "x": rows, "z": z, "xt": xt, "zt": zt, "cp": cp, "box": box,
        "p": integer(draw, 0, 2), "k": integer(draw, 1, n),
        "mean": pick(draw, "constant", "zero", "linear", "param"),
    }


def values(case):
    n, k = len(case["x"]), len(case["xt"])
    v = {a: np.array(case[a]) for a in ("x", "z", "xt", "zt", "cp", "box")}
    v["ii"], v["it"] = np.arange(n)[::-1][::-1], np.arange(n, n + k)
    return v


@PROP.case("forms", g_case, quick=2200, thorough=20000, budget=(45, 400))
def c_forms(case, ctx):
    fn, spec, rtol = OPS[case["op"]]
    if TORCH:  # distances lose half of the digits near zero: rougher profiles would show it
        case = {**case, "p": max(case["p"], 1)}
        rtol = 1e-5 if case["op"] == "distances" else 1e-6
    ctx.tag(case["op"])
    vals = values(case)
    native = {a: (vals[a] if a in ("ii", "it") else A(np.array(vals[a], float))) for a in spec}
    if "box" in spec:
        native["box"] = np.array(vals["box"], float).tolist()
    try:
        want = flat(fn(case, native))
    except ValueError:
        check(case["op"] == "select-remap", f"{case['op']} refuses plain double arrays", f"{case['op']}:refused")
        want = None  # the documented refusal of a default anchor below the smallest length scale
    given = {a: FORMS[case["forms"][a]](vals[a]) for a in spec}
    for a in spec:
        ctx.tag(case["forms"][a])
    if want is None:
        try:
            fn(case, given)
        except ValueError:
            ctx.tag("refused")
            return
        check(False, f"{case['op']} with {case['forms']}: accepted, but refused as double arrays", f"{case['op']}:refused")
    got = flat(fn(case, given))
    ctx.nontrivial(any(f not in ("f64", "tensor") for f in case["forms"].values()) and len(want) > 0 and np.ptp(want) > 0 or len(want) == 1)
    what = f"{case['op']} with {case['forms']}"
    check(got.shape == want.shape, f"{what}: {got.shape} numbers instead of {want.shape}", f"{case['op']}:shape")
    check(np.array_equal(np.isfinite(got), np.isfinite(want)), f"{what}: finite pattern differs", f"{case['op']}:finite")
    f = np.isfinite(want)
    scale = float(np.max(np.abs(want[f]), initial=1.0))
    close(what, got[f], want[f], rtol=rtol, atol=rtol * scale, sig=f"{case['op']}:value")


@PROP.case("drawn-forms", g_drawn, quick=60, thorough=600, budget=(20, 120))
def c_drawn(case, ctx):
    c_forms(case, ctx)
