"""P14: scalers normalise as documented and invert exactly."""
import numpy as np

from vf.core import Prop, st
from vf import ref
from vf.util import A, F, N, check, chance, close, gnp, gp, gp_case, integer, make_model, pick, raises, real, reals, ref_predict, same, shape, tol_for

PROP = Prop(
    "P14",
    rule="scalers: at least two rows and one column with spread; predictions: at least two observations",
    assumptions=["columns whose spread is below the documented threshold 1e-8 keep scale one", "spreads between 1e-9 and 1e-7 are not generated"],
)


def column(draw, n):
    kind = pick(draw, "spread", "constant", "ties", "tiny")
    off = pick(draw, 0.0, 1.0, -30.0, 500.0)
    sc = pick(draw, 1.0, 1e-3, 100.0)
    v = reals(draw, n, -2, 2)
    if kind == "constant":
        return [off] * n
    if kind == "ties":
        return [off + sc * round(a) for a in v]
    if kind == "tiny":
        return [off + 1e-5 * a for a in v]
    return [off + sc * a for a in v]


def g_sc(draw):
    n, d = integer(draw, 1, 9), integer(draw, 1, 3)
    cols = [column(draw, n) for _ in range(d)]
    return {
        "x": [list(r) for r in zip(*cols)], "kind": pick(draw, "normal", "robust", "minmax", "robust-q"),
        "new": [reals(draw, d, -5, 5) for _ in range(integer(draw, 1, 4))], "q": pick(draw, (0.25, 0.75), (0.1, 0.9), (0.0, 1.0), (0.2, 0.6)),
        "copy": chance(draw, 3, 4), "z": column(draw, n), "z2": chance(draw, 1, 3),
        "again": [reals(draw, d, -5, 5) for _ in range(integer(draw, 1, 4))],
    }


@PROP.case("scalers", g_sc, quick=900, budget=(20, 200))
def c_sc(case, ctx):
    D = gp.dataloader
    x = np.asarray(case["x"], float)
    n, d = x.shape
    ql, qh = case["q"] if case["kind"] == "robust-q" else (0.25, 0.75)
    if case["kind"] == "normal":
        fit, loc, spread = D.Normalizer.fit, x.mean(0), x.std(0)
    elif case["kind"] == "minmax":
        fit, loc, spread = D.MinMaxScaler.fit, x.min(0), x.max(0) - x.min(0)
    else:
        loc, spread = np.median(x, axis=0), np.quantile(x, qh, axis=0) - np.quantile(x, ql, axis=0)
        fit = D.RobustScaler.fit if case["kind"] == "robust" else (lambda v: D.RobustScaler.fit(v, 100 * ql, 100 * qh))
    mag = np.max(np.abs(x), axis=0) + 1e-6
    if np.any((spread > 1e-9) & (spread < 1e-7)):
        return
    flat = spread <= 1e-9
    sc = np.where(flat, 1.0, spread)
    xa = A(x)
    s = fit(xa)
    fit(A(case["again"]))  # a later fit does not change an earlier scaler
    same("data not modified by fitting", xa, x)
    t = s.transform(xa)
    same("data not modified by transform", xa, x)
    # rounding of the location relative to the spread
    eps = 4e-16 * n * mag / sc + 1e-13
    close("transformed data", t, (x - loc) / sc, atol=1e-12 + 20 * np.max(eps), rtol=1e-9, sig="transform")
    tn = N(t)
    if case["kind"] == "normal":
        close("mean after scaling", tn.mean(0), np.zeros(d), atol=1e-12 + 20 * np.max(eps))
        close("deviation after scaling", tn.std(0)[~flat], np.ones(d)[~flat], rtol=1e-9 + 20 * np.max(eps))
    elif case["kind"] == "minmax":
        close("minimum after scaling", tn.min(0), np.zeros(d), atol=1e-12 + 20 * np.max(eps))
        close("maximum after scaling", tn.max(0)[~flat], np.ones(d)[~flat], rtol=1e-9 + 20 * np.max(eps))
    else:
        close("median after scaling", np.median(tn, axis=0), np.zeros(d), atol=1e-12 + 20 * np.max(eps))
        iq = np.quantile(tn, qh, axis=0) - np.quantile(tn, ql, axis=0)
        close("interquantile range after scaling", iq[~flat], np.ones(d)[~flat], rtol=1e-9 + 20 * np.max(eps))
    tol = 1e-14 * np.max(mag + np.abs(loc)) + 1e-14
    close("undoing the transform", s.inverse_transform(t), x, atol=10 * tol, sig="inverse")
    new = np.asarray(case["new"]) * 3.0
    tn = s.transform(A(new))
    close("new data", tn, (new - loc) / sc, rtol=1e-9 + 20 * np.max(eps), atol=1e-12 + 20 * np.max(eps + 1e-15 * np.abs(new).max() / sc), sig="transform")
    close("undoing on new data", s.inverse_transform(tn), new, atol=1e-13 * np.max(np.abs(new).max() + mag) + 1e-13, sig="inverse")
    raw = A(new)
    back = s.transform(s.inverse_transform(raw))
    close("scaled to original and back", back, new, rtol=1e-11, atol=1e-12 + 100 * np.max(eps), sig="inverse")
    same("argument untouched", raw, new)
    # in place
    w = A(x)
    u = s.transform(w, copy=False)
    same("in-place transform returns the same values", u, N(t))
    v = s.inverse_transform(u, copy=False)
    close("in-place inverse", v, x, atol=10 * tol, sig="inverse")
    # observations
    z = np.asarray(case["z"], float)
    za = A(z).reshape(-1, 1) if case["z2"] else A(z)
    zs = float(z.std())
    if not 1e-9 < zs < 1e-7:
        o = D.ObservationScaler.fit(za)
        zsc = 1.0 if zs <= 1e-9 else zs
        e = 1e-12 + 1e-14 * n * (np.abs(z).max() + 1) / zsc
        tz = o.transform(za)
        shape("scaled responses", tz, N(za).shape)
        close("scaled responses", N(tz).reshape(-1), (z - z.mean()) / zsc, rtol=1e-9, atol=20 * e, sig="transform")
        close("responses restored", N(o.inverse_transform(tz)).reshape(-1), z, atol=1e-13 * (np.abs(z).max() + 1), sig="inverse")
        same("responses untouched", N(za).reshape(-1), z)
    ctx.nontrivial(n >= 2 and not np.all(flat))
    ctx.tag(case["kind"])
    if np.any(flat):
        ctx.tag("constant column")
    if n == 1:
        ctx.tag("one row")


def g_pr(draw):
    c = gp_case(draw, nmin=2, nmax=8, dmax=3, pmax=2, kinds=("linear_predictor", "zero"), scales=(1.0, 10.0))
    c["kind"] = pick(draw, "normal", "minmax", "robust")
    c["off"] = pick(draw, 0.0, 5.0, -20.0)
    return c


@PROP.case("predictions", g_pr, quick=250, budget=(15, 150))
def c_pr(case, ctx):
    """kriging on scaled data, mapped back, is kriging with the rescaled kernel on the data."""
    D = gp.dataloader
    x, xt = np.asarray(case["x"]), np.asarray(case["xt"])
    z = np.asarray(case["z"]) + case["off"]
    mean = {"type": "linear_predictor", "kind": "const"} if case["mean"]["type"] != "zero" else {"type": "zero"}
    sx = {"normal": D.Normalizer, "minmax": D.MinMaxScaler, "robust": D.RobustScaler}[case["kind"]].fit(A(x))
    if case["kind"] == "normal":
        loc, spr = x.mean(0), x.std(0)
    elif case["kind"] == "minmax":
        loc, spr = x.min(0), np.ptp(x, axis=0)
    else:
        loc, spr = np.median(x, 0), np.quantile(x, 0.75, axis=0) - np.quantile(x, 0.25, axis=0)
    spr = np.where(spr < 1e-8, 1.0, spr)
    zs = z.std()
    if zs < 1e-6 * (np.abs(z).max() + 1e-300) or zs < 1e-7:
        return
    so = D.ObservationScaler.fit(A(z))
    cp = np.asarray(case["covparam"])
    cs = np.concatenate([[cp[0]], cp[1:] + np.log(spr)])  # same correlation on scaled coordinates
    t = tol_for(ctx.backend, case["p"], x, cp, xt)
    if t is None:
        return
    m = make_model(mean, case["p"], list(cs))
    xs, zs_ = sx.transform(A(x)), so.transform(A(z))
    pm, pv = m.predict(xs, zs_, sx.transform(A(xt)))
    shape("prediction", pm, (len(xt),))
    back = N(so.inverse_transform(A(N(pm))))
    zz = (z - z.mean()) / zs
    rm, C, lam = ref_predict(mean, case["p"], list(cp), x, zz, xt)
    lm = np.abs(lam).sum(0).max()
    close("prediction mapped back", back, rm * zs + z.mean(), atol=t * zs * (1 + lm) * (np.abs(zz).max() + 1) + 1e-12 * np.abs(z).max(), sig="predict")
    s2 = np.exp(cp[0])
    close("variance mapped back", N(pv) * zs**2, np.diag(C) * zs**2, atol=t * s2 * zs**2 * (1 + lm) ** 2, sig="predict")
    ctx.nontrivial(len(x) >= 2)
