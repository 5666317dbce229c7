"""P31: figures show the values they are about."""
import contextlib
import io
import math
import types

import matplotlib

matplotlib.use("Agg")
import matplotlib.axes
import matplotlib.cbook
import matplotlib.pyplot as plt
import numpy as np
from scipy import stats

from vf.core import Prop
from vf.util import A, N, chance, check, close, gnp, gp, gp_case, integer, make_model, pick, real, reals, same

import gpmp.mcmc.mh as MH
import gpmp.mcmc.nuts as NU
import gpmp.mcmc.smc as SM
import gpmp.mcmc.svgd as SV
import gpmp.modeldiagnosis.plotting as MP
import gpmp.plot.plotutils as PU

PROP = Prop(
    "P31",
    rule="at least two curves, bands or panels with different values",
    assumptions=[
        "figures are drawn with a non-interactive backend and read back from the drawn artists (colours, sizes and fonts are not judged)",
        "densities of samples are the Gaussian kernel estimates or normalised histograms of the values, compared to 1e-8",
    ],
)


@contextlib.contextmanager
def drawing():
    """Run a plotting call; yields the list of figures it leaves open."""
    plt.close("all")
    figs = []
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield figs
        figs += [plt.figure(k) for k in plt.get_fignums()]
    except BaseException:
        plt.close("all")
        raise


def xy(line):
    x, y = np.asarray(line.get_xdata(orig=False), float), np.asarray(line.get_ydata(orig=False), float)
    return x, y


def vertical(line, at):
    """A line drawn across the panel at one abscissa."""
    x, y = xy(line)
    return len(x) == 2 and x[0] == x[1] and abs(x[0] - at) <= 1e-9 * (1 + abs(at)) and sorted(y) == [0.0, 1.0]


def curves(ax):
    """Lines drawn with data, without the markers of a single abscissa."""
    out = []
    for ln in ax.lines:
        x, y = xy(ln)
        if len(x) == 2 and x[0] == x[1] and sorted(y) == [0.0, 1.0]:
            continue
        out.append(ln)
    return out


def has_curve(ax, x, y, what, rtol=1e-9, atol=0.0):
    """Some line of the panel has these points."""
    best = None
    for ln in curves(ax):
        a, b = xy(ln)
        if a.shape == np.shape(x) and np.allclose(a, x, rtol=1e-12, atol=1e-12):
            e = float(np.max(np.abs(b - y))) if len(y) else 0.0
            best = e if best is None else min(best, e)
    check(best is not None, f"{what}: no line with the expected abscissas", "abscissas")
    tol = atol + rtol * (1e-12 + float(np.max(np.abs(y)))) if len(y) else 0.0
    check(best <= tol, f"{what}: the line drawn differs by {best:.3g}", "curve")


def band(ax, label, x, lo, hi, what):
    """The filled area with this label has these edges."""
    got = [p for p in ax.patches if p.get_label() == label] + [c for c in ax.collections if c.get_label() == label]
    check(len(got) == 1, f"{what}: {len(got)} filled areas labelled {label!r}", "band")
    p = got[0]
    V = np.asarray(p.get_xy(), float) if hasattr(p, "get_xy") else np.vstack([q.vertices for q in p.get_paths()])
    tol = 1e-9 * (1e-12 + np.max(np.abs(np.concatenate([lo, hi]))))
    for e in (lo, hi):
        for a, b in zip(x, e):
            d = np.min(np.where(np.abs(V[:, 0] - a) <= 1e-12 * (1 + abs(a)), np.abs(V[:, 1] - b), np.inf))
            check(d <= tol, f"{what}: band {label!r} misses ({a:.6g}, {b:.6g}) by {d:.3g}", "band")
    inside = np.interp(V[:, 0], x, lo) - 1e-6 * (1 + tol), np.interp(V[:, 0], x, hi) + 1e-6 * (1 + tol)
    if np.all(np.diff(x) > 0):
        check(np.all((V[:, 1] >= inside[0]) & (V[:, 1] <= inside[1])), f"{what}: band {label!r} reaches outside", "band")


# ------------------------------------------------------------ bands
def g_gp(draw):
    n = integer(draw, 2, 8)
    levels = pick(draw, None, [0.5, 0.8, 0.9], [0.6827, 0.95, 0.999])
    return {
        "x": sorted(set(round(v, 6) for v in reals(draw, n, -3, 3))), "m": reals(draw, n), "v": reals(draw, n, 0.0, 4.0), "levels": levels,
        "scheme": pick(draw, "default", "bw", "simple", "hue"), "col": chance(draw, 1, 2), "name": pick(draw, "posterior mean", "GP"), "panel": integer(draw, 1, 4), "unit": pick(draw, 1.0, 1e-4, 1e4),
    }


@PROP.case("bands", g_gp, quick=120, budget=(20, 150), rule="positive variances")
def c_gp(case, ctx):
    x = np.array(case["x"])
    m, v = np.array(case["m"])[: len(x)] * case["unit"], np.array(case["v"])[: len(x)] * case["unit"] ** 2
    kw = {}
    levels = case["levels"] or [0.95, 0.99, 0.999]
    labels = ["CI 95%", "CI 99%", "CI 99.9%"]
    if case["levels"]:
        labels = [f"level {p}" for p in levels]
        kw = {"ci": levels, "ci_labels": labels}
    with drawing() as figs:
        F = PU.Figure(2, 2)
        F.subplot(case["panel"])
        c = (lambda a: a.reshape(-1, 1)) if case["col"] else (lambda a: a)
        F.plotgp(c(x), c(m), c(v), colorscheme=case["scheme"], rgb_hue=[10, 200, 30], mean_label=case["name"], **kw)
        F.plotdata(x[:2], m[:2])
    for k, ax in enumerate(figs[0].axes):
        if k != case["panel"] - 1:
            check(not ax.lines and not ax.patches, "drawn in another panel", "panel")
    ax = figs[0].axes[case["panel"] - 1]
    has_curve(ax, x, m, "mean")
    check([ln.get_label() for ln in ax.lines if np.array_equal(xy(ln)[1], m)][:1] == [case["name"]], "label of the mean", "label")
    for k, p in enumerate(levels):
        q = stats.norm.ppf((1 + p) / 2) * np.sqrt(v)
        if k == 0 or case["scheme"] == "default":
            band(ax, labels[k], x, m - q, m + q, case["scheme"])
            if case["scheme"] == "bw":
                has_curve(ax, x, m - q, "lower edge")
                has_curve(ax, x, m + q, "upper edge")
        else:
            check(labels[k] not in [a.get_label() for a in ax.patches], "a band that was not asked for", "band")
    ctx.tag(case["scheme"])
    ctx.nontrivial(len(x) > 1 and np.all(v > 0))


# ------------------------------------------------------- cross sections
def g_cross(draw):
    c = gp_case(draw, nmin=3, nmax=7, dmax=3, pmax=3, nt=None, condmax=1e4, scales=(1.0, 5.0))
    n, d = len(c["x"]), len(c["x"][0])
    c["anchor"] = pick(draw, None, "min", "max", "one", "several")
    c["which"] = [integer(draw, 0, n - 1) for _ in range(2)]
    c["dims"] = pick(draw, None, "one", "some")
    c["d0"] = integer(draw, 0, d - 1)
    c["nt"] = integer(draw, 2, 12)
    c["data"] = chance(draw, 2, 3)
    c["column"] = chance(draw, 1, 3)
    return c


@PROP.case("cross-sections", g_cross, quick=60, budget=(25, 200), rule="at least two panels")
def c_cross(case, ctx):
    X, z = np.array(case["x"]), np.array(case["z"])
    n, d = X.shape
    m = make_model(case["mean"], case["p"], case["covparam"])
    box = np.array([X.min(0) - 0.3, X.max(0) + 0.2])
    ind = {"one": case["which"][0], "several": case["which"]}.get(case["anchor"], case["anchor"])
    anchors = {"one": case["which"][:1], "several": case["which"], "max": [int(np.argmax(z))]}.get(case["anchor"], [int(np.argmin(z))])
    dims = {"one": case["d0"], "some": [case["d0"], d - 1][: 1 + (case["d0"] != d - 1)]}.get(case["dims"])
    dl = list(range(d)) if dims is None else [dims] if isinstance(dims, int) else dims
    with drawing() as figs:
        PU.crosssections(m, A(X), A(z.reshape(-1, 1) if case["column"] else z), box.tolist(), ind_i=ind, ind_dim=dims, nt=case["nt"], show_data=case["data"])
    fig = figs[0]
    check(len(fig.axes) == len(dl) * len(anchors), f"{len(fig.axes)} panels for {len(dl)} coordinates and {len(anchors)} anchors", "panels")
    q = stats.norm.ppf([0.975, 0.995, 0.9995])
    for r, j in enumerate(dl):
        for s, a in enumerate(anchors):
            ax = fig.axes[r * len(anchors) + s]
            cand = [ln for ln in curves(ax) if len(xy(ln)[0]) == case["nt"] and ln.get_linestyle() != "None"]
            check(len(cand) == 1, f"{len(cand)} mean curves", "panels")
            t, y = xy(cand[0])
            check(np.all(np.diff(t) >= 0), "abscissas not in order", "abscissas")
            for e in (box[0, j], X[a, j]) + ((box[1, j],) if case["nt"] > 2 else ()):
                check(np.min(np.abs(t - e)) <= 1e-12 * (1 + abs(e)), f"{e} is not on the section", "abscissas")
            xt = np.tile(X[a], (len(t), 1))
            xt[:, j] = t
            zm, zv = m.predict(A(X), A(z), A(xt))
            zm, sd = N(zm).reshape(-1), np.sqrt(np.maximum(N(zv).reshape(-1), 0.0))
            s2 = math.exp(case["covparam"][0])
            close("mean along the section", y, zm, rtol=1e-7, atol=1e-8 * (np.abs(z).max() + math.sqrt(s2)), sig="section")
            polys = [np.asarray(p.get_xy(), float) for p in ax.patches]
            check(len(polys) == 3, f"{len(polys)} bands", "band")
            half = sorted((float(np.max(V[:, 1]) - np.min(V[:, 1])), k) for k, V in enumerate(polys))
            for (h, k), qq in zip(half, q):
                want = np.concatenate([zm - qq * sd, zm + qq * sd])
                close("extent of the band", h, want.max() - want.min(), rtol=1e-4, atol=1e-3 * math.sqrt(s2), sig="band")
            if case["data"]:
                pts = [ln for ln in curves(ax) if ln.get_linestyle() == "None"]
                ok = any(np.array_equal(xy(ln)[0], X[:, j]) and np.array_equal(xy(ln)[1], z) for ln in pts)
                check(ok, "observations are not shown at their coordinate", "data")
                check(any(len(xy(ln)[0]) == 1 and xy(ln)[0][0] == X[a, j] and xy(ln)[1][0] == z[a] for ln in pts), "anchor not shown", "data")
            check(any(vertical(ln, X[a, j]) for ln in ax.lines), "no line at the anchor", "data")
    ctx.nontrivial(len(dl) * len(anchors) > 1)


# -------------------------------------------------------- leave-one-out, PIT
def g_loo(draw):
    n = integer(draw, 1, 9)
    return {"z": reals(draw, n), "m": reals(draw, n), "v": reals(draw, n, 0.01, 3), "p": reals(draw, n, 0.0, 1.0), "ties": chance(draw, 1, 3)}


@PROP.case("diagnosis", g_loo, quick=100, budget=(20, 150), rule="at least three values")
def c_loo(case, ctx):
    z, m, v = (np.array(case[k]) for k in ("z", "m", "v"))
    n = len(z)
    with drawing() as figs:
        PU.plot_loo(A(z), A(m), A(v))
    ax = figs[0].axes[0]
    has_curve(ax, z, m, "leave-one-out predictions")
    segs = [np.asarray(s) for c in ax.collections for s in c.get_segments()]
    check(len(segs) == n, f"{len(segs)} error bars for {n} values", "bars")
    half = 1.96 * np.sqrt(v)
    for i, s in enumerate(segs):
        close("position of the error bar", s[:, 0], [z[i], z[i]], rtol=1e-12, atol=1e-12)
        close("ends of the error bar", np.sort(s[:, 1]), [m[i] - half[i], m[i] + half[i]], rtol=1e-4, atol=1e-4 * half[i], sig="bars")
    diag = [xy(ln) for ln in curves(ax) if len(xy(ln)[0]) == 2 and np.array_equal(*xy(ln))]
    lo, hi = min(np.min(z), np.min(m - half)), max(np.max(z), np.max(m + half))
    if n != 2:
        check(any(min(a) <= lo and max(a) >= hi for a, _ in diag), "no diagonal over the range of the values", "diagonal")
    # probability integral transforms
    p = np.array(case["p"])
    if case["ties"]:
        p = np.round(p, 1)
    with drawing() as figs:
        MP.plot_pit_ecdf(A(p))
    ax = figs[0].axes[0]
    steps = [ln for ln in ax.lines if ln.get_drawstyle() != "default"]
    check(len(steps) == 1, f"{len(steps)} step curves", "ecdf")
    X, Y = matplotlib.cbook.STEP_LOOKUP_MAP[steps[0].get_drawstyle()](*xy(steps[0]))
    s = np.sort(p)
    for a, b in zip(np.concatenate([[0.0], s[:-1]]), s):
        if b - a > 1e-6:
            t = 0.5 * (a + b)
            k = int(np.searchsorted(X, t))
            check(0 < k < len(X) and Y[k - 1] == Y[k], f"the curve is not constant between {a} and {b}", "ecdf")
            close(f"empirical distribution of {n} values at {t:.3g}", Y[k], np.mean(p <= t), rtol=1e-9, atol=1e-9, sig="ecdf")
    check(abs(Y[-1] - 1.0) < 1e-9 and abs(X[-1] - max(s[-1], X[-1])) == 0.0, "the curve does not end at one", "ecdf")
    ctx.nontrivial(n >= 3)


# ------------------------------------------------------- selection criterion
def g_crit(draw):
    d = integer(draw, 2, 4)
    return {
        "p": reals(draw, d, -2, 2), "c": reals(draw, d, -1, 1), "n": integer(draw, 2, 9), "two": chance(draw, 1, 3), "info": chance(draw, 1, 2),
        "ind": pick(draw, None, "some", "one"), "pool": pick(draw, None, "some"), "i0": integer(draw, 0, d - 1), "box": chance(draw, 1, 2), "names": chance(draw, 1, 2), "delta": pick(draw, 5.0, 1.5),
        "i1": integer(draw, 0, d - 1), "shift": chance(draw, 2, 3), "factor": pick(draw, 4.0, 2.0), "grid": integer(draw, 2, 6),
    }


@PROP.case("criterion-sections", g_crit, quick=80, budget=(25, 200), rule="a section of a parameter that is not the first, in a box")
def c_crit(case, ctx):
    p0, c = np.array(case["p"]), np.array(case["c"])
    d, n = len(p0), case["n"]

    def f(p):
        p = N(p)
        return float(np.sum((1 + np.arange(d)) * (p - c) ** 2) + np.sin(p[0] * p[-1]))

    def g(p):
        return 2.0 - f(p)

    box = np.array([p0 - 1.0 - 0.1 * np.arange(d), p0 + 2.0 + 0.3 * np.arange(d)])
    ind = {"some": [d - 1, case["i0"]][: 1 + (case["i0"] != d - 1)], "one": [case["i0"]]}.get(case["ind"])
    pool = [d - 1, 0] if case["pool"] else None
    crits = [f, g] if case["two"] else [f]
    kw = {"n_points": n, "ind": ind, "ind_pooled": pool, "delta": case["delta"], "param_names": [f"t{j}" for j in range(d)] if case["names"] else None}
    if case["box"]:
        kw.update(param_box=box.tolist(), param_box_pooled=(box + 0.25).tolist())
    if case["two"]:
        kw["selection_criteria"] = crits
    elif not case["info"]:
        kw["selection_criterion"] = f
    if case["info"]:
        kw["info"] = types.SimpleNamespace(selection_criterion_nograd=f, covparam=A(p0))
    else:
        kw["covparam"] = A(p0)
    with drawing() as figs:
        MP.plot_selection_criterion_crosssections(**kw)
    want = [ind if ind is not None else (list(range(d)) if pool is None else None), pool]
    check(len(figs) == sum(w is not None for w in want), f"{len(figs)} figures", "panels")
    k = 0

    def section(ax, j, bx):
        lo, hi = (bx[0][j], bx[1][j]) if bx is not None else (p0[j] - case["delta"], p0[j] + case["delta"])
        t = np.linspace(lo, hi, n)
        P = np.tile(p0, (n, 1))
        P[:, j] = t
        for h in crits:
            has_curve(ax, t, np.array([h(p) for p in P]), f"section of parameter {j}", atol=1e-9)
        check(any(vertical(ln, p0[j]) for ln in ax.lines), f"parameter {j}: reference value not marked", "reference")

    if want[0] is not None:
        check(len(figs[k].axes) == len(want[0]), "panels", "panels")
        for ax, j in zip(figs[k].axes, want[0]):
            section(ax, j, box if case["box"] else None)
            check(ax.get_title() == (f"t{j}" if case["names"] else f"param {j}"), f"panel of parameter {j} has title {ax.get_title()!r}", "title")
            check(len(curves(ax)) == len(crits), "curves", "panels")
        k += 1
    if pool is not None:
        ax = figs[k].axes[0]
        for j in pool:
            section(ax, j, box + 0.25 if case["box"] else None)
        check(len(curves(ax)) == len(crits) * len(pool), "curves", "panels")
    ctx.nontrivial(case["box"] and want[0] is not None and want[0] != list(range(d)))


@PROP.case("criterion-maps", g_crit, quick=60, budget=(20, 150), rule="two different parameters")
def c_map(case, ctx):
    p0, c = np.array(case["p"]), np.array(case["c"])
    d, n = len(p0), case["grid"]
    i, j = case["i0"], case["i1"]
    if i == j:
        j = (i + 1) % d
    m = make_model({"type": "zero"}, 1, case["p"])
    calls = []

    def f(p):
        p = N(p)
        return float(np.sum((1 + np.arange(d)) * (p - c) ** 2) - 3.0)

    info = types.SimpleNamespace(selection_criterion_nograd=f, covparam=A(p0), covparam0=A(p0 + 0.3))
    orig = matplotlib.axes.Axes.contourf

    def contourf(self, *a, **k):
        calls.append([np.asarray(N(v), float) for v in a[:3]])
        return orig(self, *a, **k)

    matplotlib.axes.Axes.contourf = contourf
    try:
        with drawing() as figs:
            if i == 0 and j == 1:
                MP.plot_selection_criterion_sigma_rho(m, info, n=n, factor=case["factor"], shift_criterion=case["shift"])
            else:
                MP.plot_selection_criterion_2d(m, info, param_indices=(i, j), n=n, factor=case["factor"], shift_criterion=case["shift"])
    finally:
        matplotlib.axes.Axes.contourf = orig
    check(len(calls) == 1, f"{len(calls)} maps drawn", "map")
    X, Y, Z = calls[0]
    nat = lambda k, v: 0.5 * v / math.log(10) if k == 0 else -v / math.log(10)
    w = math.log10(case["factor"])
    gx, gy = np.linspace(nat(i, p0[i]) - w, nat(i, p0[i]) + w, n), np.linspace(nat(j, p0[j]) - w, nat(j, p0[j]) + w, n)
    close("horizontal axis", X, np.tile(gx, (n, 1)), rtol=1e-9, atol=1e-9)
    close("vertical axis", Y, np.tile(gy[:, None], (1, n)), rtol=1e-9, atol=1e-9)
    V = np.zeros((n, n))
    back = lambda k, v: 2 * v * math.log(10) if k == 0 else -v * math.log(10)
    for a in range(n):
        for b in range(n):
            p = p0.copy()
            p[i], p[j] = back(i, gx[b]), back(j, gy[a])
            V[a, b] = f(p)
    s = -V.min() if case["shift"] else 0.0
    close("criterion on the map", Z, np.log10(np.maximum(1e-2, V + s)), rtol=1e-7, atol=1e-6, sig="map")
    marks = [tuple(float(v[0]) for v in xy(ln)) for ln in figs[0].axes[0].lines if len(xy(ln)[0]) == 1]
    for q, what in ((p0, "selected"), (p0 + 0.3, "initial")):
        w_ = (nat(i, q[i]), nat(j, q[j]))
        check(any(abs(a - w_[0]) < 1e-9 and abs(b - w_[1]) < 1e-9 for a, b in marks), f"{what} parameters not marked at {w_}", "marks")
    same("reference parameters", N(info.covparam), p0, sig="changed")
    ctx.nontrivial(n >= 2)


# ------------------------------------------------------------------ samplers
def kde_curve(ax, vals, what, tol=1e-8):
    lo, hi = vals.min(), vals.max()
    t = np.linspace(lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo), 100)
    k = stats.gaussian_kde(vals)
    has_curve(ax, t, k(t), what, rtol=tol)


def heights(ax, vals, bins, what):
    h, e = np.histogram(vals, bins=bins, density=True)
    rects = [p for p in ax.patches if hasattr(p, "get_height")]
    got = [(r.get_x(), r.get_width(), r.get_height()) for r in rects]
    for a, b, y in zip(e[:-1], e[1:], h):
        ok = any(abs(g[0] - a) < 1e-6 * (b - a) + 1e-12 and abs(g[2] - y) <= 1e-6 * (1e-9 + h.max()) for g in got)
        check(ok, f"{what}: no bar at {a:.4g} of height {y:.4g}", "histogram")


def g_samp(draw):
    d = integer(draw, 1, 3)
    return {"dim": d, "nc": integer(draw, 1, 3), "n": integer(draw, 8, 30), "burn": pick(draw, 0, 3, 5), "seed": integer(draw, 0, 10**6), "i": integer(draw, 0, d - 1), "sel": chance(draw, 1, 2), "rate": chance(draw, 2, 3), "smooth": chance(draw, 1, 2), "window": pick(draw, 1, 3, 7, 50), "bins": pick(draw, 5, 12), "which": pick(draw, "mh", "nuts", "svgd", "smc"), "same": chance(draw, 1, 6)}


@PROP.case("samplers", g_samp, quick=80, budget=(30, 200), rule="at least two curves")
def c_samp(case, ctx):
    d, nc = case["dim"], case["nc"]
    rng = np.random.default_rng(case["seed"])
    ind = [case["i"]] if case["sel"] else None
    shown = ind or list(range(d))
    ctx.tag(case["which"])
    if case["which"] == "mh":
        gnp.set_seed(case["seed"])
        mh = MH.MetropolisHastings(lambda p: -0.5 * gnp.sum(p**2), options=MH.MHOptions(dim=d, n_chains=nc, n_pool=1, adaptation_interval=5))
        with contextlib.redirect_stdout(io.StringIO()):
            mh.scheduler(A(rng.normal(size=(nc, d))), case["n"], case["burn"])
        x, it, b = N(mh.x), mh.global_iter, mh.burnin_period
        with drawing() as figs:
            mh.plot_chains(parameter_indices=ind, show_rate=case["rate"])
        axes = figs[0].axes
        check(len(axes) == len(shown) + case["rate"], f"{len(axes)} panels", "panels")
        for ax, j in zip(axes, shown):
            check(len(curves(ax)) == nc, f"{len(curves(ax))} curves for {nc} chains", "panels")
            for k in range(nc):
                has_curve(ax, np.arange(it), x[k, :it, j], f"trace of coordinate {j}, chain {k}", rtol=0.0)
            if b > 0:
                check(any(vertical(ln, b) for ln in ax.lines), "end of burn-in not marked", "burn-in")
        if case["rate"]:
            for k in range(nc):
                has_curve(axes[-1], np.arange(it), N(mh.rates)[k, :it], "acceptance rates", rtol=0.0)
        part = x[:, b:it]
        if min(np.ptp(part[k, :, j]) for k in range(nc) for j in shown) > 0 and part.shape[1] > 3:
            with drawing() as figs:
                mh.plot_empirical_distributions(parameter_indices=ind, smooth=case["smooth"], bins=case["bins"])
            check(len(figs[0].axes) == len(shown), "panels", "panels")
            for ax, j in zip(figs[0].axes, shown):
                for k in range(nc):
                    if case["smooth"]:
                        kde_curve(ax, part[k, :, j], f"density of coordinate {j}, chain {k}")
                    else:
                        h, e = np.histogram(part[k, :, j], bins=case["bins"], density=True)
                        ys = [np.asarray(p.get_xy())[:, 1] for p in ax.patches]
                        check(any(abs(y.max() - h.max()) <= 1e-9 * h.max() for y in ys), "no histogram of this chain", "histogram")
        ctx.nontrivial(nc * len(shown) > 1)
        return
    if case["which"] == "nuts":
        W, n = case["n"], case["n"] + 3
        mk = lambda k: rng.random((k, nc)) if nc > 1 else rng.random(k)
        info = {"warmup_step_size": A(rng.random(W)), "warmup_accept_stat": A(mk(W)), "warmup_divergent": A(mk(W)) > 0.8, "accept_stat": A(mk(n)), "divergent": A(mk(n)) > 0.9}
        with drawing() as figs:
            out = NU.plot_nuts_diagnostics(info, window=case["window"], show=False)
        check(len(figs) == 5 and len(out) == 5, f"{len(figs)} figures", "panels")
        avg = lambda v: N(v).astype(float).mean(axis=1) if N(v).ndim > 1 else N(v).astype(float)
        has_curve(figs[0].axes[0], np.arange(W), N(info["warmup_step_size"]), "step sizes", rtol=0.0)
        for k, key in ((1, "warmup_accept_stat"), (2, "warmup_divergent"), (3, "accept_stat"), (4, "divergent")):
            v = avg(info[key])
            ax = figs[k].axes[0]
            has_curve(ax, np.arange(len(v)), v, key, rtol=1e-12)
            w = case["window"]
            if k in (1, 3) and w > 1 and len(v) >= w:
                ma = np.array([v[t - w + 1 : t + 1].mean() for t in range(w - 1, len(v))])
                has_curve(ax, np.arange(w - 1, len(v)), ma, f"moving average of {key}", rtol=1e-9)
                ctx.tag("moving average")
        ctx.nontrivial(True)
        return
    n = max(case["n"], 6)
    P = rng.normal(size=(n, d)) * 2.0 + 1.0
    if case["which"] == "svgd":
        if case["same"]:
            P[:, 0] = 0.7
        lp = np.where(rng.random(n) < 0.2, -math.inf, -1.0)
        lp[:4] = -1.0
        arg, keep = (A(P), P) if case["rate"] else ({"particles_final": A(P), "log_prob_final": A(lp)}, P[lp > -2])
        with drawing() as figs:
            out = SV.plot_svgd_empirical_distributions(arg, parameter_indices=shown, parameter_indices_pooled=shown if case["smooth"] else None, bins=case["bins"])
        check((out["pooled"] is not None) == case["smooth"] and len(figs) == 1 + case["smooth"], "figures", "panels")
    else:
        S = SM.SMC([[-9.0] * d, [9.0] * d], n, rng=np.random.default_rng(case["seed"]))
        S.particles.x = A(P)
        keep = P
        with drawing() as figs:
            S.plot_empirical_distributions(parameter_indices=shown, parameter_indices_pooled=shown if case["smooth"] else None, bins=case["bins"])
    check(len(figs[0].axes) == len(shown), "panels", "panels")
    for ax, j in list(zip(figs[0].axes, shown)) + ([(figs[1].axes[0], j) for j in shown] if case["smooth"] else []):
        heights(ax, keep[:, j], case["bins"], f"coordinate {j}")
        if np.ptp(keep[:, j]) > 0:
            kde_curve(ax, keep[:, j], f"density of coordinate {j}")
    ctx.nontrivial(len(shown) > 1)


# -------------------------------------------------------------- SMC history
def g_state(draw):
    k = integer(draw, 1, 5)
    return {"stages": [{"rates": reals(draw, integer(draw, 0, 3), 0, 1), "target": real(draw, 0.1, 2), "cur": real(draw, 0, 2), "ess": real(draw, 1, 50)} for _ in range(k)]}


@PROP.case("history", g_state, quick=40, budget=(12, 80), rule="at least two stages")
def c_state(case, ctx):
    S = SM.SMC([[0.0], [1.0]], 50, rng=np.random.default_rng(1))
    S.log = [{"stage": i + 1, "target_logpdf_param": s["target"], "current_logpdf_param": s["cur"], "ess": s["ess"], "acceptation_rate_sequence": s["rates"], "execution_state": "move"} for i, s in enumerate(case["stages"])]
    with drawing() as figs:
        S.plot_state()
    rep = lambda key: [v for s in case["stages"] for v in [s[key]] * max(1, len(s["rates"]))]
    rates = [v for s in case["stages"] for v in (s["rates"] or [0.0])]
    by = {}
    for ax in figs[0].axes:
        for ln in curves(ax):
            by[ln.get_label()] = ln
    for label, key in (("Target logpdf_param", "target"), ("Current logpdf_param", "cur"), ("ESS", "ess")):
        check(label in by, f"no curve {label!r}", "history")
        X, Y = matplotlib.cbook.STEP_LOOKUP_MAP[by[label].get_drawstyle()](*xy(by[label]))
        v = rep(key)
        for t in range(len(v)):
            k = int(np.searchsorted(X, t + 0.5))
            check(0 < k < len(X), f"{label}: nothing drawn at step {t}", "history")
            close(f"{label} at step {t}", [Y[k - 1], Y[k]], [v[t], v[t]], rtol=1e-12, sig="history")
    check("Acceptation Rate" in by, "no curve of acceptance rates", "history")
    close("acceptance rates", xy(by["Acceptation Rate"])[1], rates, rtol=1e-12, sig="history")
    ctx.nontrivial(len(case["stages"]) > 1)
