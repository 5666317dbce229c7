"""P10: both numerical backends give the same results."""
import math

import numpy as np

from vf import ref
from vf.core import Prop, st
from vf.util import check, chance, close, fail, gp_case, integer, kernel_slack, pick, points, real, reals, tol_for, well_posed
from vf.peer import Peer

from props import p10ops

PROP = Prop(
    "P10",
    rule="at least three observations and results that are finite numbers on both backends",
    assumptions=[
        "one process per backend runs the same script; NumPy results serve as the reference",
        "tolerances follow the stated rounding bound of distance computations and cond(K) below 1e6; cases where that bound exceeds 1e-3 are skipped",
        "gradients: automatic differentiation against central differences, tolerance 1e-5 relative to the gradient's size and the conditioning",
        "selected parameters are compared through criterion values, tolerance 1e-3 for well-scaled problems",
    ],
)

_PEER = []


def both(op, case):
    if not _PEER:
        _PEER.append(Peer("torch"))
    _PEER[0].send("props.p10ops", op, case)
    a = p10ops.run(op, case)
    b = _PEER[0].receive()
    check(list(a) == list(b), f"different operations: {list(a)} / {list(b)}", "ops")
    return a, b


def cmp(name, a, b, rtol, atol=0.0, scale=None):
    ra, rb = isinstance(a, dict) and "raises" in a, isinstance(b, dict) and "raises" in b
    if ra or rb:
        check(ra and rb, f"{name}: {'NumPy' if ra else 'PyTorch'} raises {(a if ra else b)['raises']} ({(a if ra else b)['text']}), the other backend does not", f"raise:{name}")
        return False
    if isinstance(a, dict):
        check(isinstance(b, dict) and list(a) == list(b), f"{name}: keys differ", f"keys:{name}")
        return all([cmp(f"{name}.{k}", a[k], b[k], rtol, atol, scale) for k in a])
    if a is None or isinstance(a, (bool, str)):
        check(a == b, f"{name}: {a!r} / {b!r}", f"value:{name}")
        return True
    try:
        va, vb = np.array(a, float), np.array(b, float)
        if va.dtype == object:
            raise ValueError
    except (ValueError, TypeError):
        check(isinstance(b, list) and len(a) == len(b), f"{name}: {len(a)} and {len(b) if isinstance(b, list) else b} parts", f"shape:{name}")
        return all([cmp(f"{name}[{i}]", u, v, rtol, atol, scale) for i, (u, v) in enumerate(zip(a, b))])
    check(va.shape == vb.shape, f"{name}: NumPy gives shape {va.shape}, PyTorch {vb.shape}", f"shape:{name}")
    close(f"{name} (PyTorch against NumPy)", vb, va, rtol=rtol, atol=atol, scale=scale, sig=f"value:{name}")
    return bool(np.all(np.isfinite(va)))


def g_model(draw):
    c = gp_case(draw, nmin=1, nmax=10, dmax=3, pmax=3)
    c["zcol"] = chance(draw, 1, 3)
    return c


def loo_ok(c, condmax=30.0):
    """The mean stays well determined when any one point is removed."""
    if c["mean"]["type"] != "linear_predictor":
        return True
    P = ref.basis(c["mean"]["kind"], np.asarray(c["x"]))
    n, q = P.shape
    return n > q and all(well_posed(np.delete(P, i, 0), condmax) for i in range(n))


def scales(c):
    z = np.asarray(c["z"])
    s = math.exp(c["covparam"][0])
    return max(np.abs(z).max(), 1e-12), s


@PROP.case("models", g_model, quick=400, backends=("numpy",), budget=(40, 300))
def c_model(case, ctx):
    t = tol_for("torch", case["p"], case["x"], case["covparam"], case["xt"], base=1e-6)
    a, b = both("model", case)
    zs, s2 = scales(case)
    ks = kernel_slack("torch", case["p"], case["x"], case["covparam"], case["xt"])
    fin = True
    for k in a:
        if k.startswith("k"):
            cmp(k, a[k], b[k], 1e-10, atol=s2 * (4 * ks + 1e-12))
        elif t is None:
            continue
        elif k.startswith("prediction"):
            fin = cmp(k, a[k][:1] if isinstance(a[k], list) else a[k], b[k][:1] if isinstance(b[k], list) else b[k], t, atol=t * zs * 10) and fin
            if isinstance(a[k], list) and isinstance(b[k], list):
                cmp(k + " variance", a[k][1:], b[k][1:], t, atol=10 * t * s2)
        elif k == "weights":
            cmp(k, a[k], b[k], t, atol=10 * t)
        elif k == "loo" and not loo_ok(case):
            continue
        elif k == "loo" and isinstance(a[k], list) and isinstance(b[k], list):
            cond = 1e-6 + 100 * t
            cmp(k, [a[k][0], a[k][2]], [b[k][0], b[k][2]], cond, atol=cond * zs)
            cmp(k + " variance", a[k][1], b[k][1], cond, atol=cond * s2)
        else:
            cmp(k, a[k], b[k], 100 * t, atol=1e-9)
    ctx.tag(case["mean"]["type"])
    ctx.nontrivial(len(case["z"]) >= 3 and fin and t is not None)


@PROP.case("criteria", g_model, quick=300, backends=("numpy",), budget=(40, 300))
def c_crit(case, ctx):
    t = tol_for("torch", case["p"], case["x"], case["covparam"], base=1e-7)
    if case["mean"]["type"] == "parameterized" and case["mean"]["kind"] != "const":
        case = dict(case, mean=dict(case["mean"], kind="const"))
    a, b = both("criteria", case)
    zs, s2 = scales(case)
    for k in a:
        if k.startswith("log-prior") or k in ("below the barrier", "minimal length scale"):
            cmp(k, a[k], b[k], 1e-10, atol=1e-10)
            continue
        if k == "bounds":
            cmp(k, a[k], b[k], 1e-8, atol=1e-8)
            continue
        if t is None:
            continue
        v = a["criterion"]
        size = max(1.0, abs(v) if isinstance(v, float) else 1.0)
        if k == "value and gradient":
            if cmp(k, a[k] if "raises" in a[k] else a[k][0], b[k] if "raises" in b[k] else b[k][0], t, atol=t * size):
                g = np.abs(np.array(a[k][1], float)).max()
                cmp("gradient", a[k][1], b[k][1], 1e-5 + 100 * t, atol=(1e-5 + 100 * t) * max(1.0, g, size))
        elif k == "initial guess":
            x = np.asarray(case["x"])
            if np.all(np.ptp(x, axis=0) > 1e-6):
                cmp(k, a[k], b[k], 1e-4, atol=1e-3) if initial_ok(case) else None
        elif k == "Fisher":
            g = np.abs(np.array(a[k], float)).max() if not isinstance(a[k], dict) else 1.0
            cmp(k, a[k], b[k], 1e-4 + 100 * t, atol=(1e-4 + 100 * t) * max(1.0, g))
        elif k.endswith("variance") or k.endswith("no gradient"):
            # out of range: both infinite (or both the same finite value)
            cmp(k, a[k], b[k], 1e-6)
        else:
            cmp(k, a[k], b[k], 10 * t, atol=10 * t * size)
    ctx.tag(case["mean"]["type"])
    ctx.nontrivial(len(case["z"]) >= 3 and t is not None)


def initial_ok(case):
    """The correlation matrix at the initial length scales is well conditioned."""
    x = np.asarray(case["x"])
    d = x.shape[1]
    rho = math.exp(math.lgamma(d / 2 + 1) / d) / math.sqrt(math.pi) * np.ptp(x, axis=0)
    t = tol_for("torch", case["p"], x, np.concatenate([[0.0], -np.log(rho)]))
    return t is not None and np.ptp(np.asarray(case["z"])) > 1e-6 * np.abs(case["z"]).max()


def g_data(draw):
    n, d = integer(draw, 1, 9), integer(draw, 1, 3)
    return {"x": [reals(draw, d, -5, 5) for _ in range(n)], "z": reals(draw, n, -9, 9) if chance(draw, 1, 2) else [reals(draw, pick(draw, 1, 1, 2)) for _ in range(n)], "xt": [[0.0]], "cut": integer(draw, 0, n), "bs": integer(draw, 1, 5), "seed": integer(draw, 0, 50)}


@PROP.case("data", g_data, quick=300, backends=("numpy",), budget=(25, 200))
def c_data(case, ctx):
    if isinstance(case["z"][0], list):
        w = min(len(r) for r in case["z"])
        case = dict(case, z=[r[:w] for r in case["z"]])
    x = np.asarray(case["x"])
    a, b = both("data", case)
    for k in a:
        if k in ("Normalizer", "RobustScaler", "MinMaxScaler", "ObservationScaler") and (np.min(np.ptp(x, axis=0)) < 1e-3 or np.min(np.ptp(np.asarray(case["z"]), axis=0)) < 1e-3):
            continue
        if k == "RobustScaler" and np.min(np.percentile(x, 75, axis=0) - np.percentile(x, 25, axis=0)) < 1e-3:
            continue
        cmp(k, a[k], b[k], 1e-9, atol=1e-9)
    ctx.nontrivial(len(x) >= 3)


def g_scores(draw):
    n = integer(draw, 1, 5)
    return {"m": reals(draw, n), "s": reals(draw, n, 0.1, 3), "zz": reals(draw, n), "covparam": reals(draw, 3)}


@PROP.case("scores-and-parameters", g_scores, quick=250, backends=("numpy",), budget=(15, 100))
def c_scores(case, ctx):
    a, b = both("scores", case)
    for k in a:
        cmp(k, a[k], b[k], 1e-8, atol=1e-4 if k == "ei2" else 1e-9)
    ctx.nontrivial(len(case["m"]) > 1)


def g_perf(draw):
    c = gp_case(draw, nmin=3, nmax=8, dmax=2, pmax=2, nt=(2, 4))
    c["zt"] = reals(draw, len(c["xt"]))
    return c


@PROP.case("performance", g_perf, quick=200, backends=("numpy",), budget=(20, 150))
def c_perf(case, ctx):
    z = np.asarray(case["z"])
    zs = max(np.abs(z).max(), np.abs(case["zt"]).max())
    if np.ptp(z) < 0.05 * zs or np.ptp(case["zt"]) < 0.05 * zs or not loo_ok(case):
        return
    t = tol_for("torch", case["p"], case["x"], case["covparam"], case["xt"], base=1e-8, cap=1e-6)
    if t is None:
        return
    a, b = both("performance", case)
    pa, pb = a["performance"], b["performance"]
    check(("raises" in pa) == ("raises" in pb), f"performance: {pa} / {pb}", "raise:performance")
    if "raises" in pa:
        return
    check(list(pa) == list(pb), "different metrics", "keys")
    for k in pa:
        if "press" in k or "rmse" in k or "rss" in k or k.endswith("Q2") or k.endswith("R2"):
            if "log10" in k and pa[k.replace("log10_", "")] < 1e-3:
                continue
            cmp(k, pa[k], pb[k], 1e-3, atol=1e-4 * (zs**2 if k.endswith("ss") else zs if k.endswith("rmse") else 1))
        else:
            cmp(k, pa[k], pb[k], 1e-9, atol=1e-12)
    check(a["printed"] == b["printed"], f"printed labels differ: {a['printed']} / {b['printed']}", "printed")
    ctx.nontrivial(True)


def g_fail(draw):
    n, d = integer(draw, 3, 7), integer(draw, 1, 2)
    return {"x": points(draw, n, d), "z": reals(draw, n), "xt": [[0.0] * d], "covparam": [real(draw, -2, 2)] + reals(draw, d, 0.5, 2.5), "shift": pick(draw, 1.5, 0.0, 0.6, 3.0), "reml": chance(draw, 1, 2)}


@PROP.case("failures", g_fail, quick=250, backends=("numpy",), budget=(20, 150))
def c_fail(case, ctx):
    x = np.asarray(case["x"])
    K = np.exp(-ref.dist(x, x, np.exp(case["covparam"][1:]))) - case["shift"]
    if case["reml"]:
        W = ref.contrasts(np.ones((len(x), 1)))
        K = W.T @ K @ W
    ev = np.linalg.eigvalsh(K)
    if abs(ev[0]) < 1e-3:  # borderline: rounding decides
        return
    a, b = both("fail", case)
    for k in a:
        if k.startswith("batch"):
            continue
        cmp(k, a[k], b[k], 1e-6, atol=1e-6)
    if ev[0] > 1e-3 and case["shift"] == 0.0:
        for k in a:
            cmp(k, a[k], b[k], 1e-6, atol=1e-6)
    ctx.tag("valid" if ev[0] > 0 else "not positive definite")
    ctx.nontrivial(ev[0] < 0 or case["shift"] > 0)


def g_sel(draw):
    n, d = integer(draw, 6, 10), integer(draw, 1, 2)
    x = points(draw, n, d, cells=max(4, n // 2 + 2))
    w = reals(draw, 4, -2, 2)
    z = [math.sin(3 * r[0] + w[0]) + w[1] * r[-1] + 0.3 * math.cos(7 * r[0] + w[2]) + 0.4 * w[3] * math.sin(11 * r[-1]) for r in x]
    return {"x": x, "z": z, "xt": [[0.0] * d], "p": integer(draw, 0, 2), "method": pick(draw, "reml", "power", "remap")}


@PROP.case("selection", g_sel, quick=30, backends=("numpy",), budget=(40, 300))
def c_sel(case, ctx):
    x = np.asarray(case["x"])
    if np.min(np.ptp(x, axis=0)) < 0.2:
        return
    a, b = both("select", case)
    a, b = a["selection"], b["selection"]
    if isinstance(a, dict) or isinstance(b, dict):
        cmp("selection", a, b, 1.0)
        return
    cmp("starting point", a[1], b[1], 1e-4, atol=1e-3)
    cmp("bounds", a[4], b[4], 1e-4, atol=1e-3)
    # optimisers differ: the final criteria must describe optima of the same function
    cmp("criterion at the reported parameters (NumPy)", a[2], a[3], 1e-6, atol=1e-6)
    cmp("criterion at the reported parameters (PyTorch)", b[2], b[3], 1e-6, atol=1e-6)
    if abs(a[2] - b[2]) > 1e-2 * max(1.0, abs(a[2])):
        ctx.tag("different optima")
    else:
        ctx.tag("same optimum")
    ctx.nontrivial(True)
