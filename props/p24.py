"""P24: performance metrics and diagnosis reports are computed as documented."""
import contextlib
import io
import math
import types

import numpy as np

from vf import ref
from vf.core import Prop, st
from vf.util import A, F, N, check, chance, close, fail, gnp, gp, gp_case, integer, make_model, pick, raises, real, reals, same, shape

import gpmp.modeldiagnosis as MD
from gpmp.modeldiagnosis import performance as PF
from gpmp.modeldiagnosis import report as RP
from gpmp.modeldiagnosis import utils as UT

PROP = Prop(
    "P24",
    rule="at least three observations with different responses",
    assumptions=[
        "responses are not all equal (ratios to the total sum of squares are then undefined)",
        "PIT values are compared where the predictive variance is positive",
        "printed numbers are compared to the three or four digits they show",
    ],
)

Phi = np.vectorize(lambda t: 0.5 * math.erfc(-t / math.sqrt(2)))


def g_perf(draw):
    c = gp_case(draw, nmin=3, nmax=9, dmax=3, pmax=3, nt=(1, 5))
    m = len(c["xt"])
    c["zt"] = reals(draw, m)
    c.update(loo=chance(draw, 4, 5), test=chance(draw, 4, 5), pit=chance(draw, 3, 4), pass_loo=pick(draw, None, "backend", "numpy"), pass_pred=pick(draw, None, "numpy", "backend"), zcol=chance(draw, 1, 2), ztcol=chance(draw, 1, 2), lists=chance(draw, 1, 3), off=pick(draw, 0.0, 10.0))
    return c


def metrics(z, e, what):
    z, e = np.asarray(z, float).reshape(-1), np.asarray(e, float).reshape(-1)
    tss = float(np.sum((z - z.mean()) ** 2))
    sse = float(np.sum(e**2))
    n = len(z)
    sd = math.sqrt(tss / n)
    names = ("press", "loo_Q2") if what == "loo" else ("rss", "test_R2")
    r = sse / tss if tss > 0 else math.nan
    k = names[0]
    return {
        f"{what}_n": n, f"{what}_std": sd, f"{what}_tss": tss, f"{what}_{k}": sse, f"{what}_{k}_over_tss": r, f"{what}_log10_{k}_over_tss": math.log10(r) if r > 0 else -math.inf,
        f"{what}_rmse": math.sqrt(sse / n), f"{what}_rmse_over_std": math.sqrt(sse / n) / sd if sd > 0 else math.nan, names[1]: 1 - r,
    }


@PROP.case("metrics", g_perf, quick=500, budget=(30, 250))
def c_perf(case, ctx):
    x, z, xt, zt = (np.asarray(case[k], float) for k in ("x", "z", "xt", "zt"))
    sz = max(np.ptp(z), 1e-6)
    z, zt = z + case["off"] * sz, zt * sz
    if np.ptp(z) < 1e-9 * max(1, np.abs(z).max()) or (len(zt) > 1 and np.ptp(zt) < 1e-9):
        return
    if case["test"] and len(zt) < 2:
        zt = np.concatenate([zt, zt + sz])
        xt = np.vstack([xt, xt + 0.013])
    model = make_model(case["mean"], case["p"], case["covparam"])
    zz = z.reshape(-1, 1) if case["zcol"] else z
    ztt = zt.reshape(-1, 1) if case["ztcol"] else zt
    if case["lists"]:
        args = (x.tolist(), zz.tolist())
        xtzt = (xt.tolist(), ztt.tolist())
    else:
        args, xtzt = (A(x), A(zz)), (A(xt), A(ztt))
    kw = {"loo": case["loo"], "compute_pit": case["pit"]}
    zl, vl, el = model.loo(A(x), A(z))
    zl, vl, el = N(zl).reshape(-1), N(vl).reshape(-1), N(el).reshape(-1)
    pm, pv = model.predict(A(x), A(z), A(xt))
    pm, pv = N(pm).reshape(-1), N(pv).reshape(-1)
    # values passed in are used as they are: make them recognisable
    if case["pass_loo"]:
        zl, vl, el = zl + 0.1 * sz, vl * 1.5 + 0.01 * sz**2, el - 0.1 * sz
        conv = A if case["pass_loo"] == "backend" else np.array
        kw["loo_res"] = tuple(conv(v) for v in (zl, vl, el))
    if case["test"]:
        kw["xtzt"] = xtzt
        if case["pass_pred"]:
            pm, pv = pm + 0.1 * sz, pv * 1.5 + 0.01 * sz**2
            conv = A if case["pass_pred"] == "backend" else np.array
            kw["zpmzpv"] = (conv(pm), conv(pv))
    vok = np.all(vl > 1e-12 * np.max(np.abs(vl))) and np.all(pv > 1e-9 * math.exp(case["covparam"][0]))
    if case["pit"] and not vok:
        kw["compute_pit"] = False
    out = PF.compute_performance(model, *args, **kw)
    want, pits = {}, {}
    if case["loo"]:
        want.update(metrics(z, el, "loo"))
        pits["loo_pit"] = (z, zl, vl)
    if case["test"]:
        want.update(metrics(zt, zt - pm, "test"))
        pits["test_pit"] = (zt, pm, pv)
    if not kw["compute_pit"]:
        pits = {}
    check(set(out) == set(want) | set(pits), f"keys {sorted(set(out) ^ (set(want) | set(pits)))} are missing or unexpected", "keys")
    big = max(np.abs(z).max(), np.abs(zt).max())
    for k, v in want.items():
        g = F(out[k])
        if k.endswith("_n"):
            check(g == v, f"{k} is {g} for {v} values", k)
        elif math.isfinite(v):
            s = 1e-6
            close(k, g, v, rtol=s, atol=1e-10 * (big if "rmse" in k or "std" in k else big**2 if ("ss" in k and "over" not in k) else 1) + (1e-7 if "Q2" in k or "R2" in k or "log10" in k else 0))
    for k, (a, m, v) in pits.items():
        g = out[k]
        shape(k, g, (len(a),))
        t = (a - m) / np.sqrt(v)
        close(k, g, Phi(t), atol=1e-7 + 1e-7 * np.max(np.abs(t)) * (1 + big / np.sqrt(v.min())) * 1e-3)
        check(np.all(N(g) >= 0) and np.all(N(g) <= 1), f"{k} outside [0, 1]", k)
        ctx.tag(k)
    # printed version
    buf = io.StringIO()
    kw.pop("compute_pit")
    with contextlib.redirect_stdout(buf):
        PF.perf(model, *args, **kw)
    sect = None
    labels = {"std(z)": "std", "tss": "tss", "press": "press", "rss": "rss", "press/tss": "press_over_tss", "rss/tss": "rss_over_tss", "log10(press/tss)": "log10_press_over_tss", "log10(rss/tss)": "log10_rss_over_tss", "rmse": "rmse", "rmse/std(z)": "rmse_over_std", "Q2": "Q2", "R2": "R2"}
    seen = set()
    for ln in buf.getvalue().splitlines():
        s = ln.strip()
        for t, name in (("LOO (n=", "loo"), ("Test (n=", "test")):
            if s.startswith(t):
                sect = name
                check(int(s[len(t) : s.index(")")]) == want[name + "_n"], f"printed size {s!r}", "print")
        lab, _, v = s.rpartition(":")
        if sect and lab in labels:
            key = f"{sect}_{labels[lab]}"
            seen.add(key)
            check(printed(F(out[key]), v), f"{key}: printed {v}, value {F(out[key])}", "print")
    check(seen == {k for k in want if not k.endswith("_n")}, f"not printed: {sorted(set(want) - seen)}", "print")
    ctx.nontrivial(True)


def printed(v, tok, digits=3):
    try:
        x = float(tok)
    except ValueError:
        return False
    if not math.isfinite(v) or v == 0:
        return x == v or (x != x and v != v)
    a = abs(v)
    unit = 1.0 if 0.1 <= a < 1000 else 0.1 if 0.01 <= a < 0.1 else 10.0 ** math.floor(math.log10(a) + 1e-12)
    return abs(x - v) <= 0.51 * 10.0**-digits * unit


# ---------------------------------------------------------------- reports
def g_rep(draw):
    d = integer(draw, 1, 3)
    n = integer(draw, 3, 8)
    noisy = chance(draw, 1, 3)
    k = d + 1 + (1 if noisy else 0)
    cp = reals(draw, k, -2, 2)
    mp = pick(draw, 0, 1, 2)
    b = []
    for _ in range(mp + k + (1 if chance(draw, 1, 6) else 0)):
        lo, hi = real(draw, -9, -3), real(draw, 3, 9)
        t = pick(draw, 0, 1, 2, 3)
        b.append([lo if t in (0, 1) else "-inf", hi if t in (0, 2) else "inf"])
    return {
        "d": d, "n": n, "noisy": noisy, "cp": cp, "mp": reals(draw, mp), "bounds": b, "has_bounds": chance(draw, 4, 5), "x": [reals(draw, d, -2, 5) for _ in range(n)], "z": [reals(draw, pick(draw, 1, 1, 2), -20, 20) for _ in range(n)] if chance(draw, 1, 2) else reals(draw, n, -20, 20),
        "init": reals(draw, mp + k), "success": chance(draw, 1, 2), "nfev": integer(draw, 1, 500), "time": real(draw, 0.1, 20), "fun": real(draw, -50, 50), "given": chance(draw, 1, 3),
    }


@PROP.case("report", g_rep, quick=400, budget=(25, 200))
def c_rep(case, ctx):
    d, n = case["d"], case["n"]
    cp = np.array(case["cp"])
    mp = np.array(case["mp"])
    z = case["z"]
    if isinstance(z[0], list):
        m = min(len(r) for r in z)
        z = [r[:m] for r in z]
    z = np.array(z, float)
    x = np.array(case["x"], float)
    model = types.SimpleNamespace(covparam=A(cp), meanparam=A(mp) if len(mp) else None)
    crit = lambda p: gnp.sum(p * p) + 1.5
    bounds = np.array([[float(u) for u in r] for r in case["bounds"]]) if case["has_bounds"] else None
    info = types.SimpleNamespace(success=case["success"], best_value_returned=False, nfev=case["nfev"], total_time=case["time"], selection_criterion=crit, initial_params=A(case["init"]), fun=case["fun"])
    if bounds is not None:
        info.bounds = bounds if case["given"] else [tuple(r) for r in bounds.tolist()]
    mt = "linear_mean_matern_anisotropic" + ("_noisy" if case["noisy"] else "")
    kw = {"model_type": mt}
    if case["given"]:
        f = RP.param_from_covparam_anisotropic_noisy if case["noisy"] else RP.param_from_covparam_anisotropic
        kw["param_obj"] = f(A(cp), None, None, name_prefix="")
    md = RP.modeldiagnosis_init(model, info, **kw)
    ps = md["param_selection"]
    check(ps["cvg_reached"] == case["success"] and ps["n_evals"] == case["nfev"], "selection summary differs from the optimisation record", "summary")
    close("initial value", F(ps["initial_val"]), float(np.sum(np.square(case["init"])) + 1.5), rtol=1e-12)
    close("final value", F(ps["final_val"]), case["fun"], rtol=1e-14)
    close("time", F(ps["time"]), case["time"], rtol=1e-14)
    names = ["sigma2"] + (["sigma2_noise"] if case["noisy"] else []) + [f"rho_{i}" for i in range(d)]
    nv = 2 if case["noisy"] else 1
    nat = np.concatenate([np.exp(cp[:nv]), np.exp(-cp[nv:])])
    check(list(md["parameters"]) == names, f"parameters {list(md['parameters'])}", "names")
    for k, v in zip(names, nat):
        close(k, F(md["parameters"][k]), v, rtol=1e-10)
    po = md["param_obj"]
    close("stored parameters", N(po.values).reshape(-1), cp, rtol=1e-14)
    if bounds is not None:
        for j, nm in enumerate(names):
            lo, hi = bounds[len(mp) + j]
            got = po.bounds[j]
            if math.isinf(lo) and math.isinf(hi):
                check(got is None, f"unbounded {nm} has bounds {got}", "bounds")
            else:
                check(got is not None and len(got) == 2 and got[0] == lo and got[1] == hi, f"bounds of {nm}: {got}, expected {(lo, hi)}", "bounds")
    close("model parameters", model.covparam, cp, sig="mutated")
    check(raises(lambda: RP.modeldiagnosis_init(model, info, model_type="other"), ValueError), "an unknown model type is accepted", "type")
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        RP.diag(model, info, A(x), A(z), **kw)
    lines = buf.getvalue().splitlines()
    rows = {}
    for ln in lines:
        t = ln.split()
        if len(t) > 1 and t[0].endswith(":"):
            rows.setdefault(t[0][:-1], t[1:])
    check(rows.get("count") == [str(n)], f"printed count {rows.get('count')} for {n} observations", "print")
    for key, v in (("initial_val", float(np.sum(np.square(case["init"])) + 1.5)), ("final_val", case["fun"])):
        check(key in rows and printed(v, rows[key][0]), f"{key} printed as {rows.get(key)}, value {v}", "print")
    check(rows.get("n_evals") == [str(case["nfev"])] and rows.get("cvg_reached") == [str(case["success"])], "selection summary not printed", "print")
    if case["given"]:
        # a parameter object that is not the model's own is the one reported
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            RP.diag(model, info, A(x), A(z), **{**kw, "param_obj": f(A(cp + 0.4), None, None, name_prefix="")})
        own = {t[0][:-1]: t[1:] for t in map(str.split, buf.getvalue().splitlines()) if len(t) == 7 and t[0].endswith(":")}
        for j in range(d):
            v = np.ptp(x[:, j]) * math.exp(cp[nv + j] + 0.4)
            check(f"xi_{j}" in own and printed(v, own[f"xi_{j}"][5]), f"range over length scale of the given parameters printed as {own.get(f'xi_{j}')}, value {v}", "print")
    z2 = z.reshape(n, -1)
    zn = ["zi"] if z.ndim == 1 else [f"zi_{j}" for j in range(z2.shape[1])]
    for nm, col, sig in [(nm, z2[:, j], math.sqrt(nat[0])) for j, nm in enumerate(zn)] + [(f"xi_{j}", x[:, j], nat[nv + j]) for j in range(d)]:
        want = [col.min(), col.max(), np.ptp(col), col.mean(), col.std(), np.ptp(col) / sig]
        check(nm in rows and len(rows[nm]) == 6, f"row {nm} of the data table: {rows.get(nm)}", "print")
        for what, v, tok in zip(("min", "max", "delta", "mean", "std", "delta_over_sigma"), want, rows[nm]):
            check(printed(float(v), tok) or abs(v) < 1e-12, f"{what} of {nm} printed as {tok}, expected {v}", what)
    ctx.tag("noisy" if case["noisy"] else "plain")
    ctx.nontrivial(True)


def g_desc(draw):
    n, d = integer(draw, 1, 6), integer(draw, 1, 4)
    return {"x": [reals(draw, d, -5, 9) for _ in range(n)], "flat": d == 1 and chance(draw, 1, 2), "sf": pick(draw, None, "scalar", "vector"), "f": reals(draw, d, 0.1, 4), "cp": reals(draw, d + 1), "times": pick(draw, 1, 1, 13)}


@PROP.case("description", g_desc, quick=500, budget=(15, 100))
def c_desc(case, ctx):
    x = np.vstack([np.array(case["x"]) * (1 + 0.1 * k) for k in range(case["times"])])
    n, d = x.shape
    sf = None if case["sf"] is None else (case["f"][0] if case["sf"] == "scalar" else case["f"])
    arg = x[:, 0].copy() if case["flat"] else x.copy()
    names = [f"v{j}" for j in range(d)]
    df = UT.describe_array(A(arg), names, sf)
    cols = ["min", "max", "delta", "mean", "std"] + (["delta_over_sigma"] if sf is not None else [])
    check(list(df.colnames) == cols and list(df.rownames) == names, "labels of the description", "labels")
    for j in range(d):
        c = x[:, j]
        f = None if sf is None else np.broadcast_to(np.asarray(sf, float), (d,))[j]
        want = [c.min(), c.max(), np.ptp(c), c.mean(), c.std()] + ([] if sf is None else [np.ptp(c) * f])
        close("description", [F(df[names[j], k]) for k in cols], want, rtol=1e-12, atol=1e-12)
    if d > 1:
        check(raises(lambda: UT.describe_array(A(arg), names, [1.0] * (d + 1)), ValueError), "a scaling of the wrong length is accepted", "length")
    r = UT.sigma_rho_from_covparam(A(case["cp"]))
    check(list(r) == ["sigma"] + [f"rho{j}" for j in range(d)], f"names {list(r)}", "labels")
    close("sigma", F(r["sigma"]), math.exp(case["cp"][0] / 2), rtol=1e-12)
    for j in range(d):
        close("rho", F(r[f"rho{j}"]), math.exp(-case["cp"][j + 1]), rtol=1e-12)
    ctx.nontrivial(n > 1)
