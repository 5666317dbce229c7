"""P23: one-dimensional parameter distributions are proper and consistent."""
import math
import types
import warnings

import numpy as np

from vf import ref
from vf.core import Prop, st
from vf.util import A, F, N, check, chance, close, fail, gnp, gp, integer, make_model, pick, raises, real, reals, same, shape

from gpmp.modeldiagnosis import param_stats as PS
from gpmp.modeldiagnosis.un1ddist import Unnormalized1DDistribution as Dist

PROP = Prop(
    "P23",
    rule="a density that is neither constant nor symmetric about the middle of the interval",
    assumptions=[
        "densities are those of smooth log-concave or two-mode functions whose width is at least 2 percent of the interval",
        "the unnormalised density itself is of order one (the criterion statistics are given criteria of any level)",
        "tolerances: 1e-6 of the interval for quadrature, one grid step for the gridded variant",
    ],
)

XG, WG = np.polynomial.legendre.leggauss(24)


def g_den(draw, kinds=("normal", "gumbel", "bimodal", "student", "exp", "uniform", "cosh")):
    a = pick(draw, 0.0, -3.0, 2.0, -40.0)
    w = pick(draw, 1.0, 10.0, 0.1, 100.0)
    return {"kind": pick(draw, *kinds), "a": a, "w": w, "m": real(draw, 0.1, 0.9), "s": real(draw, 0.03, 0.5), "t": real(draw, 0.2, 0.8), "c": real(draw, -3, 3)}


def logd(q, u):
    """log-density on the unit interval, vectorised."""
    u = np.asarray(u, float)
    y = (u - q["m"]) / q["s"]
    k = q["kind"]
    if k == "normal":
        v = -0.5 * y**2
    elif k == "gumbel":
        v = y - np.exp(y) + 1
    elif k == "bimodal":
        v = np.logaddexp(-0.5 * y**2, -0.5 * ((u - q["t"]) / 0.08) ** 2 - 0.3)
    elif k == "student":
        v = -2.0 * np.log1p(y**2 / 3)
    elif k == "exp":
        v = -u / q["s"]
    elif k == "uniform":
        v = 0.0 * u
    else:
        v = -np.log(np.cosh(y))
    return v


class Truth:
    """Moments, distribution function and quantiles by composite Gauss-Legendre on [0, 1]."""

    def __init__(self, q, lo=0.0, hi=1.0, panels=60):
        self.q, self.lo, self.hi = q, lo, hi
        self.Z = self.integ(lambda u: 1.0, lo, hi)
        self.mu = self.integ(lambda u: u, lo, hi) / self.Z
        self.v = self.integ(lambda u: (u - self.mu) ** 2, lo, hi) / self.Z

    def integ(self, f, a, b, panels=60):
        e = np.linspace(a, b, panels + 1)
        h = (e[1:] - e[:-1]) / 2
        u = (e[:-1] + h)[:, None] + h[:, None] * XG[None, :]
        return float(np.sum(h[:, None] * WG[None, :] * np.exp(logd(self.q, u)) * f(u)))

    def cdf(self, u):
        return self.integ(lambda t: 1.0, self.lo, u) / self.Z if u > self.lo else 0.0

    def pdf(self, u):
        return np.exp(logd(self.q, u)) / self.Z

    def quantile(self, p):
        a, b = self.lo, self.hi
        for _ in range(60):
            m = (a + b) / 2
            if self.cdf(m) < p:
                a = m
            else:
                b = m
        return (a + b) / 2


def g_dist(draw):
    c = g_den(draw)
    c["us"] = sorted(reals(draw, 4, -0.1, 1.1))
    c["p"] = [real(draw, 0.02, 0.98), real(draw, 0.02, 0.98)]
    c["arr"] = chance(draw, 1, 2)
    return c


@PROP.case("distribution", g_dist, quick=250, budget=(30, 250))
def c_dist(case, ctx):
    a, w = case["a"], case["w"]
    T = Truth(case)
    calls = []

    def lp(x):
        calls.append(x)
        v = float(logd(case, (x - a) / w)) + case["c"]
        return gnp.asarray(v).reshape(()) if case["arr"] else v

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = Dist(lp, (a, a + w))
        mag = max(abs(a), abs(a + w))
        tol = 2e-6
        close("Z", d.Z, T.Z * w * math.exp(case["c"]), rtol=1e-6, atol=5e-8)
        close("mean", d.mean(), a + w * T.mu, atol=tol * (w + mag))
        close("variance", d.var(), w**2 * T.v, rtol=1e-6, atol=1e-6 * max(mag, w) ** 2 + 5e-7 / d.Z)
        us = np.array(case["us"])
        xs = a + w * us
        inside = (us > 0) & (us < 1)
        if inside.any():
            g = N(d.pdf(list(xs[inside])))
            shape("density", g, (int(inside.sum()),))
            close("density", g, T.pdf(us[inside]) / w, rtol=2e-6, atol=1e-300)
            close("unnormalised density", d.f(list(xs[inside])), np.exp(logd(case, us[inside]) + case["c"]), rtol=1e-9, atol=1e-300)
        cs = [d.cdf(float(x)) for x in xs]
        for u, c in zip(us, cs):
            close("distribution function", c, min(1.0, T.cdf(min(u, 1.0))) if u > 0 else 0.0, atol=2e-6)
        check(all(c2 >= c1 - 1e-6 for c1, c2 in zip(cs, cs[1:])), "the distribution function decreases", "monotone")
        check(d.cdf(a) == 0.0 and d.cdf(a + w) == 1.0 and d.cdf(a - 1) == 0.0 and d.cdf(a + w + 1) == 1.0, "the distribution function is not 0 and 1 at the ends", "ends")
        for p in case["p"]:
            q = d.quantile(p, xtol=1e-9 * max(w, 1e-3))
            check(a <= q <= a + w, f"quantile {p} is outside the interval", "range")
            check(abs(T.cdf((q - a) / w) - p) < 5e-6, f"quantile {p}: distribution function {T.cdf((q - a) / w)} there", "quantile")
        for p in (0.0, 1.0, -0.1, 1.5):
            check(raises(lambda: d.quantile(p), ValueError), f"quantile accepts level {p}", "level")
        check(raises(lambda: Dist(lp, (a + w, a)), ValueError), "reversed bounds are accepted", "bounds")
    ctx.tag(case["kind"])
    ctx.nontrivial(case["kind"] != "uniform" and abs(case["m"] - 0.5) > 0.01)


def g_inf(draw):
    return {"m": real(draw, -3, 3), "s": real(draw, 0.3, 3), "half": pick(draw, "none", "left", "right"), "u": real(draw, -2, 2), "nu": pick(draw, 0, 1)}


@PROP.case("unbounded", g_inf, quick=80, budget=(15, 100))
def c_inf(case, ctx):
    from scipy import stats

    m, s = case["m"], case["s"]
    lo = -math.inf if case["half"] in ("none", "left") else m - s
    hi = math.inf if case["half"] in ("none", "right") else m + s
    al, be = (lo - m) / s, (hi - m) / s
    tn = stats.truncnorm(al, be, loc=m, scale=s)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = Dist(lambda x: -0.5 * ((x - m) / s) ** 2, (lo, hi))
        close("Z", d.Z, s * math.sqrt(2 * math.pi) * (stats.norm.cdf(be) - stats.norm.cdf(al)), rtol=1e-6)
        close("mean", d.mean(), tn.mean(), atol=1e-6 * (1 + abs(m)))
        close("variance", d.var(), tn.var(), atol=2e-5 * (1 + m * m + s * s))
        x = m + s * case["u"]
        close("distribution function", d.cdf(x), float(tn.cdf(x)), atol=1e-6)
        check(raises(lambda: d.quantile(0.3), ValueError), "quantiles of an unbounded interval", "quantile")
    ctx.nontrivial(True)


# ------------------------------------------------------------ gridded statistics
def g_fast(draw):
    c = g_den(draw)
    c["n"] = pick(draw, 400, 200, 1500)
    c["off"] = pick(draw, 0.0, 900.0, -900.0, 1e6)
    c["lo"] = pick(draw, 0.0, 0.1)
    c["cut"] = pick(draw, None, 0.4, 0.7)
    c["form"] = pick(draw, "float", "array", "array1")
    return c


def stats_close(name, got, T, a, w, step, tol, mode, lost=0.0):
    """lost: mass that the grid may misplace at the upper end."""
    mean, var, q, md = got
    far = w * (T.hi - T.mu)
    close(f"{name} mean", mean, a + w * T.mu, atol=tol + lost * far)
    close(f"{name} variance", var, w**2 * T.v, atol=2 * tol * max(w * math.sqrt(T.v), step) + 1e-9 * (abs(a) + w) ** 2 + lost * (far**2 + w**2 * T.v))
    for p, v in q.items():
        u = (v - a) / w
        s = tol / w
        check(T.cdf(u - s) - 1e-5 - lost <= float(p) <= T.cdf(min(u + s, T.hi)) + 1e-5 + lost, f"{name} quantile {p}: {v} has level {T.cdf(u)}", "quantile")
    if mode:
        u = np.linspace(T.lo, T.hi, 4001)
        best = np.max(logd(T.q, u))
        near = np.linspace(max(T.lo, (md - step - a) / w), min(T.hi, (md + step - a) / w), 201)
        check(T.lo - 1e-9 <= (md - a) / w <= T.hi + 1e-9, f"{name} mode {md} is outside the interval", "mode")
        check(np.max(logd(T.q, near)) >= best - 2e-3, f"{name} mode {md} is not where the density is largest", "mode")


@PROP.case("gridded", g_fast, quick=300, budget=(25, 200))
def c_fast(case, ctx):
    a, w = case["a"], case["w"]
    lo, hi = case["lo"], 1.0
    cut = case["cut"]
    seen = []

    def crit(x):
        seen.append(x)
        u = (x - a) / w
        v = math.inf if cut is not None and u > cut else case["off"] - float(logd(case, u))
        return v if case["form"] == "float" else (A(v).reshape(()) if case["form"] == "array" else A(v).reshape((1,)))

    out = PS.fast_univariate_stats(crit, a + w * lo, a + w * hi, n_points=case["n"])
    step = w * (hi - lo) / (case["n"] - 1)
    T = Truth(case, lo, hi if cut is None else cut)
    check(len(out) == 4 and set(out[2]) == {"0.1", "0.25", "0.5", "0.75", "0.9"}, "unexpected result", "shape")
    qs = [out[2][k] for k in ("0.1", "0.25", "0.5", "0.75", "0.9")]
    check(all(y >= x for x, y in zip(qs, qs[1:])), "quantiles are not increasing", "monotone")
    # smooth integrand: the grid error is second order; a cut costs up to one step
    smooth = 0.5 * step * (step / w) / min(case["s"], 0.08) + 2e-6 * (w + abs(a))
    lost = 0.0 if cut is None else 1.1 * step / w * float(np.max(T.pdf(np.linspace(max(lo, cut - step / w), cut, 21))))
    stats_close("gridded", out, T, a, w, step, smooth if cut is None else 1.01 * step + smooth, True, lost)
    check(min(seen) >= a + w * lo - 1e-9 * (abs(a) + w) and max(seen) <= a + w * hi + 1e-9 * (abs(a) + w), "the criterion is evaluated outside the interval", "range")
    ctx.tag(case["kind"])
    ctx.nontrivial(case["kind"] != "uniform" and abs(case["m"] - 0.5) > 0.01)


# ----------------------------------------------------------- criterion statistics
def g_crit(draw):
    d = integer(draw, 1, 2)
    return {
        "d": d, "cp": reals(draw, d + 1, -1, 1), "cs": reals(draw, d + 1, -0.5, 0.5), "prec": reals(draw, d + 1, 0.5, 30), "rho": real(draw, -0.8, 0.8), "skew": real(draw, 0, 0.3),
        "off": pick(draw, 0.0, 1500.0, -1500.0, 60.0), "ind": integer(draw, 0, d), "box": pick(draw, None, [1.0, 2.0], [3.0, 1.0]), "delta": pick(draw, 5.0, 2.0),
        "info": chance(draw, 1, 2), "fast": chance(draw, 2, 3), "n": pick(draw, 400, 150), "all": chance(draw, 1, 3), "list": chance(draw, 1, 2),
    }


@PROP.case("criterion-statistics", g_crit, quick=150, budget=(40, 300), guard=120.0)
def c_crit(case, ctx):
    d = case["d"]
    cs, prec = np.array(case["cs"]), np.array(case["prec"])
    cp = np.array(case["cp"])
    m = d + 1
    Q = np.diag(prec)
    for i in range(m - 1):
        Q[i, i + 1] = Q[i + 1, i] = case["rho"] * math.sqrt(prec[i] * prec[i + 1]) / 2
    sk = case["skew"]

    def crit_np(v):
        y = v - cs
        return case["off"] + 0.5 * y @ Q @ y + sk * float(np.sum(np.log(np.cosh(v + 0.7))))

    Qg, csg = A(Q), A(cs)

    def crit(v):
        y = v - csg
        return case["off"] + 0.5 * gnp.sum(y * gnp.matmul(Qg, y)) + sk * gnp.sum(gnp.log(0.5 * gnp.exp(v + 0.7) + 0.5 * gnp.exp(-v - 0.7)))

    model = make_model({"type": "zero"}, 1, cp)
    x = [[0.1 + 0.3 * i + 0.05 * j * i for j in range(d)] for i in range(4)]
    ind = None if case["all"] else [case["ind"]]
    box = None
    if case["box"] is not None:
        box = np.array([cp - case["box"][0], cp + case["box"][1]])
    arg = cp.tolist() if case["list"] else A(cp)
    kw = {"ind": ind, "param_box": box, "delta": case["delta"]}
    if case["info"]:
        kw["info"] = types.SimpleNamespace(selection_criterion_nograd=crit, covparam=arg, model=model, xi=A(x))
    else:
        kw.update(model=model, xi=A(x), selection_criterion=crit, covparam=arg)
    if case["fast"]:
        kw["n_points"] = case["n"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = (PS.selection_criterion_statistics_fast if case["fast"] else PS.selection_criterion_statistics)(**kw)
    df = out["parameter_statistics"]
    idx = list(range(m)) if ind is None else ind
    check(list(df.rownames) == [f"param_{j}" for j in idx], f"rows {df.rownames}", "labels")
    vals = N(df.data).astype(float)
    check(vals.shape == (len(idx), 8), f"statistics of shape {vals.shape}", "shape")
    for j, row in zip(idx, vals):
        lo, hi = (cp[j] - case["delta"], cp[j] + case["delta"]) if box is None else (box[0, j], box[1, j])

        def one(t):
            v = cp.copy()
            v[j] = t
            return crit_np(v)

        e = np.linspace(lo, hi, 161)
        h = (e[1:] - e[:-1]) / 2
        u = (e[:-1] + h)[:, None] + h[:, None] * XG
        f = np.vectorize(one)(u)
        wt = np.exp(-(f - f.min())) * h[:, None] * WG
        Z = wt.sum()
        mu = (wt * u).sum() / Z
        var = (wt * (u - mu) ** 2).sum() / Z
        step = (hi - lo) / ((case["n"] if case["fast"] else 4000) - 1)
        tol = (0.5 * step**2 / max(math.sqrt(var), step) if case["fast"] else 0) + 2e-5
        close("mean", row[0], mu, atol=tol)
        close("variance", row[1], var, atol=2 * tol * math.sqrt(var) + 1e-5)
        cum = np.concatenate([[0.0], np.cumsum(wt.sum(1)) / Z])
        for k, p in enumerate((0.1, 0.25, 0.5, 0.75, 0.9)):
            # distribution function at edges brackets the quantile to one panel
            i = min(int(np.searchsorted(cum, p)), len(e) - 1)
            check(e[max(i - 1, 0)] - tol - 1e-9 <= row[2 + k] <= e[i] + tol + 1e-9, f"quantile {p} of parameter {j}: {row[2 + k]}, expected in [{e[max(i-1,0)]}, {e[i]}]", "quantile")
        tm = f.reshape(-1)
        check(lo - 1e-9 <= row[7] <= hi + 1e-9 and one(row[7]) <= tm.min() + 0.5 * prec[j] * step**2 + 1e-3, f"mode of parameter {j}: criterion {one(row[7])} there, {tm.min()} at best", "mode")
    close("parameter vector", arg, cp, sig="mutated")
    close("model parameters", model.covparam, cp, sig="mutated")
    close("Fisher information", out["fisher_information"], N(model.fisher_information(A(x), A(cp), epsilon=1e-3)), rtol=1e-9, atol=1e-12)
    ctx.tag("fast" if case["fast"] else "quadrature")
    ctx.nontrivial(True)


def g_prof(draw):
    n = integer(draw, 1, 4)
    return {"cp": reals(draw, n), "i": integer(draw, 0, n - 1), "t": reals(draw, 3)}


@PROP.case("profile", g_prof, quick=300, budget=(10, 60))
def c_prof(case, ctx):
    cp = np.array(case["cp"])
    arg = A(cp)
    seen = []

    def crit(v):
        seen.append(N(v).copy())
        return gnp.sum(v * v)

    g = PS.make_single_param_criterion_function(crit, arg, case["i"])
    for t in case["t"]:
        r = g(t)
        want = cp.copy()
        want[case["i"]] = t
        close("profile point", seen[-1], want, rtol=1e-15)
        close("profile value", F(r), float(want @ want), rtol=1e-12, atol=1e-14)
    close("parameter vector", arg, cp, sig="mutated")
    ctx.nontrivial(len(cp) > 1)
