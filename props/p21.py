"""P21: SVGD steps follow the Stein update exactly."""
import contextlib
import io
import math

import numpy as np
from scipy import stats

from vf.core import Prop
from vf.util import A, N, F, check, chance, close, fail, gnp, integer, pick, raises, real, reals, same, shape

import gpmp.mcmc.svgd as SV

PROP = Prop(
    "P21",
    rule="at least two live particles (steps), at least two steps (runs)",
    assumptions=[
        "scores: automatic with torch, central differences with NumPy (tolerance 5e-6 relative to the scores' size); the update is compared with the formula on the library's own scores at 1e-9",
        "particles at least 1e-3 away from the border of the target's support; with NumPy, particles on the bounds of the sampling box only in the subcheck `boundary`",
    ],
)

KINDS = ("gauss", "logistic", "mixture", "half", "half-raise", "half-nan")


class Target:
    """Scalar log-density of a vector, analytic score, region of zero density."""

    def __init__(self, kind, m, s):
        self.kind, self.m, self.s = kind, np.array(m, float), np.array(s, float)
        self.gm, self.gs = A(self.m), A(self.s)

    def alive(self, q):
        return not self.kind.startswith("half") or bool(((q - self.m) / self.s)[0] > 0)

    def __call__(self, q):
        u = (q - self.gm) / self.gs
        if self.kind == "gauss":
            return -0.5 * gnp.sum(u * u)
        if self.kind == "logistic":
            return gnp.sum(-gnp.abs(u) - 2.0 * gnp.log(1.0 + gnp.exp(-gnp.abs(u))))
        if self.kind == "mixture":
            a, b = -0.5 * gnp.sum((u - 1.0) ** 2), math.log(2.0) - 0.5 * gnp.sum((u + 1.0) ** 2)
            g = gnp.abs(a - b)
            return 0.5 * (a + b + g) + gnp.log(1.0 + gnp.exp(-g))
        if not bool(u[0] > 0):
            if self.kind == "half-raise":
                raise ValueError("outside the support")
            return gnp.sum(u) * 0.0 + (gnp.nan if self.kind == "half-nan" else -gnp.inf)
        return -gnp.sum(u) - 0.25 * gnp.sum(u * u)

    def ref(self, q):
        u = (q - self.m) / self.s
        if self.kind == "gauss":
            return -0.5 * u @ u
        if self.kind == "logistic":
            return float(np.sum(-np.abs(u) - 2 * np.log1p(np.exp(-np.abs(u)))))
        if self.kind == "mixture":
            return float(np.logaddexp(-0.5 * np.sum((u - 1) ** 2), math.log(2) - 0.5 * np.sum((u + 1) ** 2)))
        return -u.sum() - 0.25 * u @ u

    def score(self, q):
        u = (q - self.m) / self.s
        if self.kind == "gauss":
            g = -u
        elif self.kind == "logistic":
            g = -np.tanh(u / 2)
        elif self.kind == "mixture":
            a = -0.5 * np.sum((u - 1) ** 2)
            b = math.log(2) - 0.5 * np.sum((u + 1) ** 2)
            w = 1 / (1 + math.exp(min(b - a, 700.0)))
            g = -w * (u - 1) - (1 - w) * (u + 1)
        else:
            g = -1 - 0.5 * u
        return g / self.s


def ref_bandwidth(D, case, jitter):
    n = D.shape[0]
    sc = case["bw_scale"]
    if case["bw"] is not None:
        h = sc * case["bw"]
    else:
        pos = D[D > 0]
        h = sc if pos.size == 0 else sc * float(np.median(pos)) / math.log(n + 1)
    if not math.isfinite(h) or h <= jitter:
        h = max(sc, jitter)
    if case["bw_min"] is not None:
        h = max(h, case["bw_min"])
    return h


def sqd(X):
    return np.sum((X[:, None, :] - X[None, :, :]) ** 2, axis=2)


def ref_velocity(X, S, alive, h, pre):
    """Particle by particle; zero for the dead ones."""
    n = len(X)
    V = np.zeros_like(X)
    m = max(int(alive.sum()), 1)
    for i in range(n):
        if not alive[i]:
            continue
        for j in range(n):
            if alive[j]:
                k = math.exp(-float(np.sum((X[i] - X[j]) ** 2)) / h)
                V[i] += k * (S[j] + 2 / h * (X[i] - X[j])) / m
    return V * pre


def g_step(draw):
    d = integer(draw, 1, 3)
    n = integer(draw, 1, 7)
    rows = [reals(draw, d, -2.5, 2.5) for _ in range(n)]
    if n > 2 and chance(draw, 1, 5):
        rows[1] = list(rows[0])  # coincident particles
    return {
        "d": d,
        "u": rows,
        "m": reals(draw, d, -3, 3),
        "s": reals(draw, d, 0.3, 3),
        "T": pick(draw, 1.0, 0.3, 7.0),
        "eps": real(draw, 0.005, 0.5),
        "bw": pick(draw, None, 0.7, None, 3.0, 1e-14),
        "bw_scale": pick(draw, 1.0, 0.4, 2.5),
        "bw_min": pick(draw, None, None, 0.9),
        "pre": pick(draw, None, "scalar", "vector"),
        "box": pick(draw, None, "wide", "tight", "scalar"),
        "perm": integer(draw, 0, 10**6),
        "unit": pick(draw, 1e-4, 0.01, 100.0, 1e5),
    }


def setup(case, kind):
    tg = Target(kind, case["m"], case["s"])
    u = np.array(case["u"], float)
    if kind.startswith("half"):  # keep off the border of the support
        u[:, 0] = np.where(np.abs(u[:, 0]) < 0.05, 0.1, u[:, 0])
    X = tg.m + tg.s * u
    pre = None if case["pre"] is None else (1.7 if case["pre"] == "scalar" else [0.4 + 0.9 * j for j in range(case["d"])])
    box = None
    if case["box"] == "wide":
        box = [list(X.min(0) - 50), list(X.max(0) + 50)]
    elif case["box"] == "tight":
        box = [list(X.min(0) - 0.01), list(X.max(0) + 0.01)]
    elif case["box"] == "scalar":
        box = [float(X.min() - 0.02), float(X.max() + 0.02)]
    return tg, X, pre, box


@PROP.case("step", g_step, quick=150, budget=(25, 200), rule="at least two live particles")
def c_step(case, ctx):
    most = 0
    for kind in KINDS:
        tg, X, pre, box = setup(case, kind)
        n, d = X.shape
        alive = np.array([tg.alive(x) for x in X])
        most = max(most, alive.sum())
        kw = dict(step_size=case["eps"], temperature=case["T"], bandwidth=case["bw"], bandwidth_scale=case["bw_scale"], bandwidth_min=case["bw_min"], preconditioner_diag=None if pre is None else A(pre), sampling_box=box)
        XA = A(X)
        Y, info = SV.svgd_step(tg, XA, **kw)
        same("input particles", XA, X)
        D = sqd(X)
        h = ref_bandwidth(D, case, 1e-12)
        close("bandwidth", F(info["bandwidth"]), h, rtol=1e-9)
        K, D1, h1 = SV.rbf_kernel_matrix(XA, bandwidth=case["bw"], bandwidth_scale=case["bw_scale"], bandwidth_min=case["bw_min"])
        close("kernel bandwidth", F(h1), h, rtol=1e-9)
        close("squared distances", D1, D, rtol=1e-10, atol=1e-14)
        close("kernel matrix", K, np.exp(-D / h), rtol=1e-9, atol=1e-300)
        # the same cloud in other units
        DU = sqd(X * case["unit"])
        hU = ref_bandwidth(DU, case, 1e-12)
        KU, DU1, hU1 = SV.rbf_kernel_matrix(A(X * case["unit"]), bandwidth=case["bw"], bandwidth_scale=case["bw_scale"], bandwidth_min=case["bw_min"])
        close("kernel bandwidth in other units", F(hU1), hU, rtol=1e-9)
        close("squared distances in other units", DU1, DU, rtol=1e-10, atol=1e-14 * case["unit"] ** 2)
        close("kernel matrix in other units", KU, np.exp(-DU / hU), rtol=1e-6, atol=1e-300)
        same("live particles", N(info["alive_mask"]).astype(float).reshape(-1), alive.astype(float))
        check(int(info["alive_count"]) == alive.sum(), "count of live particles")
        S = N(info["score_values"])
        shape("scores", S, (n, d))
        want = np.array([tg.score(x) / case["T"] if a else np.zeros(d) for x, a in zip(X, alive)])
        sc = 1 + np.abs(want).max()
        lps = np.array([tg.ref(x) / case["T"] if a else 0.0 for x, a in zip(X, alive)])
        close("scores", S, want, rtol=0, atol=5e-6 * (sc + np.abs(lps).max()))
        L = N(info["log_prob_values"]).reshape(-1)
        close("log-densities of live particles", L[alive], lps[alive], rtol=1e-9, atol=1e-9)
        check(not np.any(np.isfinite(L[~alive])), "finite log-density of a particle of zero density")
        pv = np.ones(d) if pre is None else np.broadcast_to(np.array(pre, float), (d,))
        V = ref_velocity(X, S, alive, h, pv)
        vs = 1 + np.abs(V).max()
        close("velocity", info["velocity"], V, rtol=0, atol=1e-9 * vs)
        Z = X + case["eps"] * V
        if box is not None:
            Z = np.clip(Z, np.array(box[0]), np.array(box[1]))
        close("updated particles", Y, Z, rtol=1e-12, atol=1e-9 * vs)
        check(np.all(np.isfinite(N(Y))), "a particle moved to a non-finite value")
        check(np.array_equal(N(Y)[~alive], X[~alive]), "a particle of zero density moved", sig="dead")
        if box is not None:
            check(np.all(N(Y) >= np.array(box[0])) and np.all(N(Y) <= np.array(box[1])), "a particle left the box", sig="box")
        # permuting the particles permutes the result
        p = np.random.default_rng(case["perm"]).permutation(n)
        Yp, _ = SV.svgd_step(tg, A(X[p]), **kw)
        close("permuted particles", Yp, N(Y)[p], rtol=1e-10, atol=1e-9 * vs)
    ctx.nontrivial(most >= 2)


# ------------------------------------------------------------------ boundaries
def g_bound(draw):
    c = g_step(draw)
    c["box"] = None
    c["side"] = [pick(draw, 0, 1, -1) for _ in c["u"]]
    c["axis"] = integer(draw, 0, c["d"] - 1)
    return c


@PROP.case("boundary", g_bound, quick=120, budget=(15, 100), rule="a particle on a bound")
def c_bound(case, ctx):
    """Particles on (or projected onto) the bounds of the box: the score is the target's."""
    tg, X, pre, _ = setup(case, "gauss")
    n, d = X.shape
    lo, hi = X.min(0) - 0.3, X.max(0) + 0.3
    ax = case["axis"]
    on = np.zeros((n, d), bool)
    out = X.copy()
    for i, s in enumerate(case["side"]):
        if s:
            X[i, ax] = hi[ax] if s > 0 else lo[ax]
            out[i, ax] = X[i, ax] + s * (0.5 if i % 2 else 0.0)  # on the bound or beyond
            on[i, ax] = True
    kw = dict(step_size=case["eps"], temperature=case["T"], bandwidth=case["bw"], bandwidth_scale=case["bw_scale"], bandwidth_min=case["bw_min"], sampling_box=[list(lo), list(hi)])
    Y, info = SV.svgd_step(tg, A(out), **kw)
    Y, S = N(Y), N(info["score_values"])
    shape("scores", S, (n, d))
    shape("updated particles", Y, (n, d))
    check(np.all(Y >= lo) and np.all(Y <= hi), "a particle left the box", sig="box")
    h = ref_bandwidth(sqd(X), case, 1e-12)
    V = ref_velocity(X, S, np.ones(n, bool), h, np.ones(d))
    close("updated particles", Y, np.clip(X + case["eps"] * V, lo, hi), rtol=1e-12, atol=1e-9 * (1 + np.abs(V).max()))
    want = np.array([tg.score(x) / case["T"] for x in X])
    tol = 5e-6 * (1 + np.abs(want).max() + max(abs(tg.ref(x)) / case["T"] for x in X))
    close("scores away from the bounds", np.where(on, 0, S), np.where(on, 0, want), rtol=0, atol=tol)
    ctx.nontrivial(on.any())
    close("scores on the bounds of the box", np.where(on, S, 0), np.where(on, want, 0), rtol=0, atol=tol, sig="boundary-score")


# ------------------------------------------------------------------------ runs
def g_run(draw):
    c = g_step(draw)
    c.update(
        n_steps=pick(draw, 4, 1, 2, 9, 0),
        T0=pick(draw, 10.0, 1.0, 0.5),
        T1=pick(draw, 1.0, 2.0, 0.7),
        schedule=pick(draw, "geometric", "linear"),
        history=pick(draw, True, False),
        progress=pick(draw, False, True),
        kind=pick(draw, *KINDS),
        init=pick(draw, "given", "given", "box", "vector"),
        seed=integer(draw, 0, 10**6),
    )
    return c


@PROP.case("runs", g_run, quick=200, budget=(25, 200), rule="at least two steps")
def c_run(case, ctx):
    tg, X, pre, box = setup(case, case["kind"])
    n, d = X.shape
    T = case["n_steps"]
    opts = SV.SVGDOptions(
        n_steps=T,
        step_size=case["eps"],
        bandwidth=case["bw"],
        bandwidth_scale=case["bw_scale"],
        bandwidth_min=case["bw_min"],
        preconditioner_diag=None if pre is None else A(pre),
        initial_temperature=case["T0"],
        final_temperature=case["T1"],
        annealing_schedule=case["schedule"],
        sampling_box=box,
        store_particles_history=case["history"],
        progress=case["progress"],
        log_every=2,
    )
    buf = io.StringIO()
    gnp.set_seed(case["seed"])
    with contextlib.redirect_stdout(buf):
        if case["init"] == "given":
            XA = A(X)
            P, info = SV.svgd_sample(tg, XA, options=opts)
            same("initial particles", XA, X)
        elif case["init"] == "vector":
            X = X[:1]
            P, info = SV.svgd_sample(tg, A(X[0]), options=opts)
        else:
            ib = [list(tg.m - 3 * tg.s), list(tg.m + 2 * tg.s)]
            opts.store_particles_history = True
            P, info = SV.svgd_sample(tg, n_particles=n, init_box=ib, options=opts)
            X = N(info["particles_history"])[0]
            shape("initial particles", X, (n, d))
            check(np.all(X >= np.array(ib[0])) and np.all(X <= np.array(ib[1])), "initial particle outside the box", sig="box")
    n = len(X)
    check(bool(buf.getvalue()) == (case["progress"] and T > 0), "progress messages printed or missing against the option")
    # replay with single steps
    cur, hist, lps, hs, vs = A(X), [X], [], [], []
    temps = []
    for k in range(T):
        u = k / (T - 1) if T > 1 else 1.0
        t = case["T0"] + u * (case["T1"] - case["T0"]) if case["schedule"] == "linear" else case["T0"] * (case["T1"] / case["T0"]) ** u
        temps.append(t)
        cur, st_ = SV.svgd_step(tg, cur, step_size=case["eps"], temperature=t, bandwidth=case["bw"], bandwidth_scale=case["bw_scale"], bandwidth_min=case["bw_min"], preconditioner_diag=None if pre is None else A(pre), sampling_box=box)
        hist.append(N(cur))
        lps.append(N(st_["log_prob_values"]).reshape(-1))
        hs.append(F(st_["bandwidth"]))
        vs.append(float(np.mean(np.linalg.norm(N(st_["velocity"]), axis=1))))
    sc = 1 + max(np.abs(h).max() for h in hist)
    tol = dict(rtol=1e-7, atol=1e-9 * sc)
    shape("returned particles", P, (n, d))
    close("returned particles", P, hist[-1], **tol)
    same("recorded final particles", info["particles_final"], N(P))
    if T:
        close("temperatures", N(info["temperature_trace"]).reshape(-1), temps, rtol=1e-12)
        close("bandwidths", N(info["bandwidth_trace"]).reshape(-1), hs, rtol=1e-7)
        shape("log-density trace", info["log_prob_trace"], (T, n))
        LT, LW = N(info["log_prob_trace"]), np.array(lps)
        same("finite log-densities", np.isfinite(LT).astype(float), np.isfinite(LW).astype(float))
        close("log-density trace", np.where(np.isfinite(LT), LT, 0), np.where(np.isfinite(LW), LW, 0), rtol=1e-7, atol=1e-7)
        close("velocity norms", N(info["velocity_norm_trace"]).reshape(-1), vs, rtol=1e-6, atol=1e-9)
    if case["history"] or case["init"] == "box":
        shape("history", info["particles_history"], (T + 1, n, d))
        close("history", info["particles_history"], np.array(hist), **tol)
    else:
        check("particles_history" not in info, "history stored although not requested")
    LF = N(info["log_prob_final"]).reshape(-1)
    shape("final log-densities", LF, (n,))
    for i in range(n):
        q = N(P)[i]
        if tg.alive(q):
            close("final log-density", LF[i], tg.ref(q), rtol=1e-8, atol=1e-8)
        else:
            check(not np.isfinite(LF[i]), "finite final log-density at a point of zero density")
    ctx.nontrivial(T >= 2)
    ctx.tag(case["kind"])


# ------------------------------------------------------------------- behaviour
def g_conv(draw):
    d = integer(draw, 1, 2)
    return {"d": d, "m": reals(draw, d, -2, 2), "s": reals(draw, d, 0.5, 2), "off": real(draw, -2, 2), "seed": integer(draw, 0, 10**6)}


def g_steep(draw):
    n, d = integer(draw, 2, 5), integer(draw, 1, 3)
    return {"x": [reals(draw, d, 0.2, 3) for _ in range(n)], "i": integer(draw, 0, n - 1), "j": integer(draw, 0, d - 1), "a": real(draw, 0.3, 2), "step": real(draw, 0.01, 0.3)}


@PROP.case("steep", g_steep, quick=60, budget=(10, 60), rule="several coordinates")
def c_steep(case, ctx):
    """A slope that is not finite at one coordinate of one particle leaves the cloud finite and the other scores alone."""
    x, a = np.array(case["x"], float), case["a"]
    x[case["i"], case["j"]] = 0.0

    def lp(u):
        return gnp.sum(a * gnp.sqrt(u) - 0.5 * u * u)

    with np.errstate(all="ignore"):
        Y, info = SV.svgd_step(lp, A(x), step_size=case["step"])
        Y, S = N(Y), N(info["score_values"])
        want = 0.5 * a / np.sqrt(x) - x
    check(np.all(np.abs(Y) < 1e100), f"particles {Y} after a step from {x}", "steep")
    m = x > 0
    close("scores where the slope is finite", S[m], want[m], rtol=1e-4, atol=1e-4, sig="steep")
    ctx.nontrivial(x.shape[1] > 1)


@PROP.case("transport", g_conv, quick=4, thorough=30, budget=(20, 200), rule="always")
def c_conv(case, ctx):
    """A long run on a Gaussian target centres the cloud and gives it the target's spread."""
    tg = Target("gauss", case["m"], case["s"])
    rng = np.random.default_rng(case["seed"])
    X = tg.m + tg.s * (case["off"] + 0.5 * rng.standard_normal((16, case["d"])))
    opts = SV.SVGDOptions(n_steps=200, step_size=0.3, preconditioner_diag=A(tg.s**2), initial_temperature=3.0, progress=False)
    P, info = SV.svgd_sample(tg, A(X), options=opts)
    z = (N(P) - tg.m) / tg.s
    check(np.all(np.abs(z.mean(0)) < 0.25), f"cloud centred at {z.mean(0)} standard deviations from the mean", sig="transport")
    check(np.all(z.std(0) > 0.45) and np.all(z.std(0) < 1.4), f"spread {z.std(0)} times the target's", sig="transport")
    ctx.nontrivial(True)


def g_ref(draw):
    return {"n": integer(draw, 1, 4), "d": integer(draw, 1, 3)}


@PROP.case("refusals", g_ref, quick=12, budget=(10, 20), rule="always")
def c_refuse(case, ctx):
    d = case["d"]
    tg = Target("gauss", [0.0] * d, [1.0] * d)
    X = A(np.arange(case["n"] * d).reshape(case["n"], d) / 7.0)
    for name, fn in {
        "step size": lambda: SV.svgd_step(tg, X, step_size=0.0),
        "temperature": lambda: SV.svgd_step(tg, X, step_size=0.1, temperature=-1.0),
        "vector of particles": lambda: SV.svgd_step(tg, X[0], step_size=0.1),
        "bandwidth scale": lambda: SV.svgd_step(tg, X, step_size=0.1, bandwidth_scale=0.0),
        "bandwidth minimum": lambda: SV.svgd_step(tg, X, step_size=0.1, bandwidth_min=0.0),
        "preconditioner sign": lambda: SV.svgd_step(tg, X, step_size=0.1, preconditioner_diag=A([-1.0] * d)),
        "preconditioner length": lambda: SV.svgd_step(tg, X, step_size=0.1, preconditioner_diag=A([1.0] * (d + 2))),
        "box": lambda: SV.svgd_step(tg, X, step_size=0.1, sampling_box=[0.0]),
        "box dimension": lambda: SV.svgd_step(tg, X, step_size=0.1, sampling_box=[[0.0] * (d + 2), [1.0] * (d + 2)]),
        "nothing to start from": lambda: SV.svgd_sample(tg),
        "particle count": lambda: SV.svgd_sample(tg, init_box=[[0.0] * d, [1.0] * d]),
        "inconsistent count": lambda: SV.svgd_sample(tg, X, n_particles=case["n"] + 1),
        "inconsistent dimension": lambda: SV.svgd_sample(tg, X, dim=d + 1),
        "negative steps": lambda: SV.svgd_sample(tg, X, options=SV.SVGDOptions(n_steps=-1)),
        "schedule": lambda: SV.svgd_sample(tg, X, options=SV.SVGDOptions(n_steps=2, annealing_schedule="other", progress=False)),
    }.items():
        check(raises(fn, ValueError), f"accepted: invalid {name}", sig="refuse")
    ctx.nontrivial(True)
