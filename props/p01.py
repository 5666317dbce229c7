"""P01: predictions are the exact kriging posterior."""
import numpy as np

from vf import ref
from vf.core import Prop
from vf.util import (
    WIDE, A, N, check, close, chance, covparam_for, fail, gnp, gp, gp_case, gnp_basis,
    integer, make_model, mean_spec, pick, points, raises, real, reals, ref_predict,
    shape, tol_for, user_kernel, well_posed,
)

PROP = Prop(
    "P01",
    rule="the posterior differs visibly from the prior at some target (at least one variance below 99% of the prior, or a linear mean) and the data vector is not zero",
    assumptions=[
        "kriging systems are kept well posed by construction (condition number of the covariance matrix at most 1e6, scaled mean basis condition below 1e3), except in the subchecks that only assert sign and interpolation",
        "tolerance 1e-7 relative to the size of the weights times the data, and to the prior variance; with torch, whose distances expand squared norms, an explicit bound on the rounding of the covariance matrix times the norm of its inverse is added (comparisons whose bound exceeds 1e-3 are skipped and counted)",
    ],
)

def interesting(ctx, case, C, prior):
    ctx.nontrivial(
        any(v != 0 for v in case["z"])
        and (np.min(np.diag(C)) < 0.99 * prior or case["mean"]["type"] == "linear_predictor")
    )
    ctx.tag(case["mean"]["type"])


def layouts(draw):
    return {
        "zcol": chance(draw, 1, 3),
        "plain": chance(draw, 1, 2),
        "cin": chance(draw, 3, 4),
        "cout": chance(draw, 1, 2),
        "znv": chance(draw, 3, 4),
        "lam": chance(draw, 1, 2),
    }


def g_predict(draw):
    c = gp_case(draw, nmin=1, nmax=12, condmax=1e6, **WIDE)
    c.update(layouts(draw))
    return c


def pass_in(case):
    """Inputs in the layout asked for; plain arrays only when conversion is on."""
    plain = case["plain"] and case["cin"]
    conv = (lambda v: np.array(v, float)) if plain else A
    z = conv(case["z"])
    if case["zcol"]:
        z = z.reshape(-1, 1)
    return conv(case["x"]), z, conv(case["xt"])


def zsize(case):
    """Size of what the weights multiply: the data, or the data minus the known mean."""
    z = np.asarray(case["z"])
    if case["mean"]["type"] == "parameterized":
        z = z - ref.param_mean(case["mean"]["kind"], case["mean"]["theta"], case["x"])
    return np.max(np.abs(z)) + np.max(np.abs(case["z"]))


def compare(case, m, v, lam, out, rt, want=None):
    xi = np.asarray(case["x"])
    mr, C, lr = want or ref_predict(case["mean"], case["p"], case["covparam"], xi, case["z"], case["xt"])
    zmax = zsize(case)
    shape("mean", m, (len(case["xt"]),))
    shape("variance", v, (len(case["xt"]),))
    mscale = np.sum(np.abs(lr), axis=0) * zmax + np.abs(mr)
    prior = np.exp(case["covparam"][0])
    vscale = prior * (1.0 + np.max(np.sum(np.abs(lr), axis=0))) + np.max(np.abs(C))
    close("posterior mean", m, mr, rtol=rt, scale=mscale)
    vr = np.diag(C)
    close("posterior variance", v, np.maximum(vr, 0.0) if out["znv"] else vr, rtol=rt, scale=vscale)
    if out["znv"]:
        check(np.all(N(v) >= 0.0), f"negative variance reported: {N(v).min()}", "negvar")
    if lam is not None:
        close("weights", lam, lr, rtol=rt, scale=1.0 + np.max(np.abs(lr)))
    return mr, C, lr


@PROP.case("predict", g_predict, quick=1200, budget=(25, 300))
def c_predict(case, ctx):
    model = make_model(case["mean"], case["p"], case["covparam"])
    xi, zi, xt = pass_in(case)
    r = model.predict(
        xi, zi, xt, return_lambdas=case["lam"], zero_neg_variances=case["znv"],
        convert_in=case["cin"], convert_out=case["cout"],
    )
    check(len(r) == (3 if case["lam"] else 2), f"{len(r)} results", "shape")
    if case["cout"]:
        check(isinstance(r[0], np.ndarray) and isinstance(r[1], np.ndarray),
              "convert_out=True did not return NumPy arrays", "type")
    rt = tol_for(ctx.backend, case["p"], case["x"], case["covparam"], case["xt"])
    if rt is None:
        ctx.tag("skipped: rounding of distances")
        return
    mr, C, _ = compare(case, r[0], r[1], r[2] if case["lam"] else None, case, rt=rt)
    interesting(ctx, case, C, np.exp(case["covparam"][0]))
    # targets that are observed points
    xi_, xt_ = np.asarray(case["x"]), np.asarray(case["xt"])
    zmax = max(zsize(case), 1e-300)
    it = 10 * rt
    for j, t in enumerate(xt_):
        hit = np.where((xi_ == t).all(1))[0]
        if len(hit):
            ctx.tag("observed target")
            close("value at an observed point", N(r[0])[j], np.float64(case["z"][hit[0]]), rtol=it, scale=zmax)
            close("variance at an observed point", N(r[1])[j], np.float64(0.0),
                  atol=it * np.exp(case["covparam"][0]))


def g_cov(draw):
    c = gp_case(draw, nmin=2, nmax=9, nt=(1, 6), **WIDE)
    c["rt"] = pick(draw, 1, 1, 0, -1)
    return c


@PROP.case("posterior-covariance", g_cov, quick=800, budget=(20, 250))
def c_cov(case, ctx):
    model = make_model(case["mean"], case["p"], case["covparam"])
    f = model.kriging_predictor if case["mean"]["type"] == "linear_predictor" else model.kriging_predictor_with_zero_mean
    lam, V = f(A(case["x"]), A(case["xt"]), case["rt"])
    _, C, lr = ref_predict(case["mean"], case["p"], case["covparam"], case["x"], case["z"], case["xt"])
    rt = tol_for(ctx.backend, case["p"], case["x"], case["covparam"], case["xt"])
    if rt is None:
        ctx.tag("skipped: rounding of distances")
        return
    close("weights", lam, lr, rtol=rt, scale=1.0 + np.max(np.abs(lr)))
    prior = np.exp(case["covparam"][0])
    vscale = prior * (1.0 + np.max(np.sum(np.abs(lr), axis=0))) + np.max(np.abs(C))
    if case["rt"] == -1:
        check(V is None, "return_type=-1 must return None", "rt")
    elif case["rt"] == 0:
        close("variance", V, np.diag(C), rtol=rt, scale=vscale)
    else:
        close("covariance", V, C, rtol=rt, scale=vscale)
    if len(case["xt"]) == 1 and case["rt"] == -1:
        check(raises(lambda: f(A(case["x"]), A(case["xt"]), 2)), "return_type=2 accepted", "rt")
    interesting(ctx, case, C, prior)


# ------------------------------------------------------ other kernels, CPD
def g_user(draw):
    kind = pick(draw, "exp", "varying", "noisy", "rq", "minus_h", "minus_h_shift", "cubic")
    d = 1 if kind == "cubic" else integer(draw, 1, 3)
    n = integer(draw, d + 3, 10)
    x = points(draw, n, d)
    if kind in ("exp", "rq", "varying", "noisy"):
        mean = mean_spec(draw, x)
        if mean["type"] == "linear_predictor" and (mean["kind"] == "quad" or kind == "noisy" and mean["kind"] == "linear"):
            mean["kind"] = "const"
    else:
        k = pick(draw, "linear", "first") if kind == "cubic" else pick(draw, "const", "linear", "first")
        if not well_posed(ref.basis(k, np.asarray(x)), 300.0):
            k = "const" if kind != "cubic" else "linear"
        mean = {"type": "linear_predictor", "kind": k}
    z = reals(draw, n)
    m = integer(draw, 1, 5)
    xt = [list(x[integer(draw, 0, n - 1)]) if chance(draw, 1, 4) else reals(draw, d, -0.3, 1.3) for _ in range(m)]
    if kind == "noisy":
        x = [r + [float(chance(draw, 3, 4))] for r in x]
        xt = [r + [float(chance(draw, 1, 4))] for r in xt]
        if chance(draw, 1, 3):  # replicated noisy observations
            x[0][-1] = 1.0
            x[1] = list(x[0])
    return {
        "kind": kind, "x": x, "z": z, "xt": xt, "mean": mean, "p": 0,
        "covparam": [real(draw, -2.0, 2.0)] + reals(draw, d, 0.5, 1.5),
        "route": pick(draw, "block", "fallback"), **layouts(draw),
    }


@PROP.case("user-kernels", g_user, quick=900, budget=(20, 250))
def c_user(case, ctx):
    s2 = float(np.exp(case["covparam"][0]))
    cov, k = user_kernel(case["kind"], s2, case["covparam"][1:])
    model = make_model(case["mean"], 0, case["covparam"], covariance=cov)
    xi_, xt_ = np.asarray(case["x"]), np.asarray(case["xt"])
    K = k(xi_, xi_)
    if case["mean"]["type"] == "linear_predictor":
        P, Pt = ref.basis(case["mean"]["kind"], xi_), ref.basis(case["mean"]["kind"], xt_)
        W = ref.contrasts(P)
        G = W.T @ K @ W
        ev = np.linalg.eigvalsh(G)
        if ev[0] <= 0 or ev[-1] / ev[0] > 1e6:
            ctx.tag("skipped: contrast covariance not well conditioned")
            return
        want = ref.krige_cpd(K, P, k(xi_, xt_), Pt, k(xt_, xt_), np.asarray(case["z"]))
    else:
        if np.linalg.cond(K) > 1e6:
            ctx.tag("skipped: covariance not well conditioned")
            return
        want = ref_predict(case["mean"], 0, case["covparam"], xi_, case["z"], xt_, Kfun=k)
    xi, zi, xt = pass_in(case)
    undo = None
    if case["route"] == "fallback" and case["mean"]["type"] == "linear_predictor":
        # fault injection: the block solve reports a singular system
        undo = gnp.solve

        def broken(*a, **kw):
            raise np.linalg.LinAlgError("singular (injected)")

        gnp.solve = broken
    try:
        m, v, lam = model.predict(xi, zi, xt, return_lambdas=True, zero_neg_variances=case["znv"],
                                  convert_in=case["cin"], convert_out=case["cout"])
        full = None
        if case["mean"]["type"] == "linear_predictor":
            full = model.kriging_predictor(A(case["x"]), A(case["xt"]), 1)
            none = model.kriging_predictor(A(case["x"]), A(case["xt"]), -1)
    finally:
        if undo is not None:
            gnp.solve = undo
    compare(case, m, v, lam, case, rt=1e-6, want=want)
    if full is not None:
        C = want[1]
        vs = np.max(np.abs(C)) + s2 * 4 * (1 + np.max(np.sum(np.abs(want[2]), 0))) ** 2
        close("full covariance", full[1], C, rtol=1e-6, scale=vs)
        close("weights (full)", full[0], want[2], rtol=1e-6, scale=1 + np.max(np.abs(want[2])))
        check(none[1] is None, "return_type=-1 must return None", "rt")
        close("weights (-1)", none[0], want[2], rtol=1e-6, scale=1 + np.max(np.abs(want[2])))
    ctx.nontrivial(any(v != 0 for v in case["z"]))
    ctx.tag(case["kind"] + "/" + (case["route"] if undo is not None else "plain"))


# --------------------------------------------------------------- larger n
def g_large(draw):
    d = integer(draw, 1, 3)
    n = integer(draw, 20, 60)
    x = points(draw, n, d, cells={1: 200, 2: 20, 3: 8}[d])
    p = integer(draw, 0, 3)
    cp = covparam_for(draw, x, p, condmax=1e5)
    mean = mean_spec(draw, x)
    return {
        "x": x, "z": reals(draw, n), "p": p, "covparam": cp, "mean": mean,
        "xt": [reals(draw, d, 0.0, 1.0) for _ in range(integer(draw, 1, 40))],
        **layouts(draw),
    }


@PROP.case("many-points", g_large, quick=150, budget=(20, 250))
def c_large(case, ctx):
    model = make_model(case["mean"], case["p"], case["covparam"])
    xi, zi, xt = pass_in(case)
    m, v, lam = model.predict(xi, zi, xt, return_lambdas=True, zero_neg_variances=case["znv"],
                              convert_in=case["cin"], convert_out=case["cout"])
    rt = tol_for(ctx.backend, case["p"], case["x"], case["covparam"], case["xt"])
    if rt is None:
        ctx.tag("skipped: rounding of distances")
        return
    _, C, _ = compare(case, m, v, lam, case, rt=rt)
    interesting(ctx, case, C, np.exp(case["covparam"][0]))


# ------------------------------------------------- ill-conditioned designs
def g_hard(draw):
    d = integer(draw, 1, 2)
    n = integer(draw, 2, 14)
    x = points(draw, n, d, cells=40 if d == 1 else 8)
    p = integer(draw, 1, 4)
    return {
        "x": x, "z": reals(draw, n), "p": p, "mean": mean_spec(draw, x, n_min_extra=1),
        "covparam": [real(draw, -3, 3)] + [float(-np.log(r)) for r in reals(draw, d, 0.2, 3.0)],
    }


@PROP.case("ill-conditioned", g_hard, quick=500, budget=(20, 200))
def c_hard(case, ctx):
    """Sign of the variances and interpolation, also when K is close to singular."""
    x = np.asarray(case["x"])
    K = ref.matern_cov(x, x, case["p"], case["covparam"])
    cond = np.linalg.cond(K)
    if cond > 1e13:
        ctx.tag("skipped: numerically singular")
        return
    model = make_model(case["mean"], case["p"], case["covparam"])
    z = np.asarray(case["z"])
    try:
        m, v = model.predict(x, z, x)
    except np.linalg.LinAlgError:
        ctx.tag("refused")
        return
    check(np.all(v >= 0), "negative variance", "negvar")
    prior = np.exp(case["covparam"][0])
    tol = 1e-6 + 1e-14 * cond
    if tol < 1e-2:
        close("values at observed points", m, z, rtol=tol * 10, scale=zsize(case) + 1e-12)
        close("variances at observed points", v, 0 * v, atol=tol * prior)
    ctx.nontrivial(cond > 1e6 and np.any(z != 0))


# --------------------------------------------------------- refused inputs
def g_bad(draw):
    c = gp_case(draw, nmin=2, nmax=5, nt=(1, 3))
    c["bad"] = pick(draw, "rows", "cols", "x1d", "xt1d", "z2", "meantype", "zero+mean", "nomean", "noparam")
    return c


@PROP.case("refused", g_bad, quick=80, budget=(10, 60))
def c_bad(case, ctx):
    """Inconsistent shapes and mean specifications are refused, never answered."""
    model = make_model(case["mean"], case["p"], case["covparam"])
    x, z, xt = A(case["x"]), A(case["z"]), A(case["xt"])
    bad = case["bad"]
    cov = model.covariance
    f = {
        "rows": lambda: model.predict(x, z[:-1], xt),
        "cols": lambda: model.predict(x, z, gnp.hstack((xt, xt))),
        "x1d": lambda: model.predict(x.reshape(-1), z, xt),
        "xt1d": lambda: model.predict(x, z, xt.reshape(-1)),
        "z2": lambda: model.predict(x, gnp.hstack((z.reshape(-1, 1), z.reshape(-1, 1))), xt),
        "meantype": lambda: gp.core.Model(None, cov, None, A(case["covparam"]), meantype="other"),
        "zero+mean": lambda: gp.core.Model(gnp_basis("const"), cov, None, A(case["covparam"]), meantype="zero"),
        "nomean": lambda: gp.core.Model(None, cov, None, A(case["covparam"]), meantype="parameterized"),
        "noparam": lambda: gp.core.Model(
            gnp_basis("const"), cov, None, A(case["covparam"]), meantype="parameterized"
        ).predict(x, z, xt),
    }[bad]
    try:
        r = f()
    except Exception:
        ctx.nontrivial()
        return
    fail(f"{bad}: accepted, returned {type(r).__name__}", "accepted:" + bad)
