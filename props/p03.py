"""P03: leave-one-out equals refitting without the point."""
import numpy as np

import gpmp.core.linalg as LA

from vf import ref
from vf.core import Prop
from vf.util import (
    WIDE, A, N, check, chance, close, gp_case, integer, make_model, pick, points, real, reals,
    ref_predict, shape, tol_for, user_kernel, well_posed,
)

PROP = Prop(
    "P03",
    rule="at least three observations, not all zero, and some leave-one-out variance below 99% of the prior (or an unknown linear mean)",
    assumptions=[
        "well-posed systems by construction (condition number at most 1e6; the mean basis stays full rank when the left-out point is removed, other points are skipped and counted)",
        "tolerance 2e-7 relative to the size of the leave-one-out weights times the data and to the prior variance, plus the torch distance-rounding bound",
    ],
)


def loo_ref(case, keep, i, Kfun=None):
    x, z = np.asarray(case["x"]), np.asarray(case["z"])
    k = Kfun or (lambda a, b: ref.matern_cov(a, b, case["p"], case["covparam"]))
    xi, zi, xt = x[keep], z[keep], x[i : i + 1]
    K = k(xi, xi)
    if Kfun is None:
        K = K + ref.nugget(case["covparam"]) * np.eye(len(xi))
    Kit, Ktt = k(xi, xt), k(xt, xt)
    m = case["mean"]
    if m["type"] == "zero":
        return ref.krige_zero(K, Kit, Ktt, zi)
    if m["type"] == "parameterized":
        mi, mt = ref.param_mean(m["kind"], m["theta"], xi), ref.param_mean(m["kind"], m["theta"], xt)
        a, C, lam = ref.krige_zero(K, Kit, Ktt, zi - mi)
        return a + mt, C, lam
    P, Pt = ref.basis(m["kind"], xi), ref.basis(m["kind"], xt)
    if Kfun is None:
        return ref.krige_blup(K, P, Kit, Pt, Ktt, zi)
    return ref.krige_cpd(K, P, Kit, Pt, Ktt, zi)


def run(case, ctx, rt, model, Kfun=None):
    n = len(case["x"])
    x, z = np.asarray(case["x"]), np.asarray(case["z"])
    plain = case["plain"] and case["cin"]
    conv = (lambda v: np.array(v, float)) if plain else A
    xi, zi = conv(x), conv(z)
    if case["zcol"]:
        zi = zi.reshape(-1, 1)
    out = model.loo(xi, zi, convert_in=case["cin"], convert_out=case["cout"])
    check(len(out) == 3, f"{len(out)} results", "shape")
    for nm, v in zip(("zloo", "sigma2loo", "eloo"), out):
        shape(nm, v, (n,))
    if case["cout"]:
        check(all(isinstance(v, np.ndarray) for v in out), "convert_out=True did not return NumPy arrays", "type")
    zl, s2, el = (N(v) for v in out)
    m = case["mean"]
    mz = ref.param_mean(m["kind"], m["theta"], x) if m["type"] == "parameterized" else np.zeros(n)
    close("error is observation minus prediction", el, z - zl, rtol=1e-12, scale=np.abs(z) + np.abs(zl) + np.abs(mz))
    prior = float(np.exp(case["covparam"][0]))
    best = np.inf
    for i in range(n):
        keep = [j for j in range(n) if j != i]
        if m["type"] == "linear_predictor" and not well_posed(ref.basis(m["kind"], x[keep])):
            ctx.tag("left-out point skipped: basis")
            continue
        mr, C, lam = loo_ref(case, keep, i, Kfun)
        ls = np.sum(np.abs(lam))
        zc = z - mz
        zs = (1 + ls) ** 2 * (np.max(np.abs(z)) + np.max(np.abs(zc))) + 1e-300
        vs = prior * (1 + ls) ** 2 + abs(C[0, 0])
        close("leave-one-out prediction", zl[i], mr[0], rtol=rt, scale=zs)
        close("leave-one-out variance", s2[i], C[0, 0], rtol=rt, scale=vs)
        # same thing through the library's own predictor
        pm, pv = model.predict(A(x[keep]), A(z[keep]), A(x[i : i + 1]))[:2]
        close("refitted prediction", zl[i], N(pm)[0], rtol=rt, scale=zs)
        close("refitted variance", s2[i], N(pv)[0], rtol=rt, scale=vs)
        best = min(best, C[0, 0])
    ctx.nontrivial(n >= 3 and np.any(z != 0) and (best < 0.99 * prior or m["type"] == "linear_predictor"))
    ctx.tag(m["type"])


def layouts(draw):
    return {"zcol": chance(draw, 1, 3), "plain": chance(draw, 1, 2), "cin": chance(draw, 3, 4), "cout": chance(draw, 1, 2)}


def g_loo(draw):
    c = gp_case(draw, nmin=2, nmax=12, nt=None, **WIDE)
    c.update(layouts(draw))
    if c["zcol"]:
        c["cin"] = True
    return c


@PROP.case("matern", g_loo, quick=600, budget=(25, 250))
def c_loo(case, ctx):
    rt = tol_for(ctx.backend, case["p"], case["x"], case["covparam"])
    if rt is None:
        ctx.tag("skipped: rounding of distances")
        return
    run(case, ctx, 2 * rt, make_model(case["mean"], case["p"], case["covparam"]))


def g_cpd(draw):
    kind = pick(draw, "minus_h", "exp", "varying", "noisy", "minus_h_shift", "rq", "cubic")
    d = 1 if kind == "cubic" else integer(draw, 1, 3)
    n = integer(draw, d + 4, 11)
    x = points(draw, n, d)
    k = pick(draw, "linear", "first") if kind == "cubic" else pick(draw, "const", "linear", "first")
    if kind == "cubic":
        k = "linear"
    mean = {"type": "linear_predictor", "kind": k}
    if kind == "noisy":
        x = [r + [float(chance(draw, 3, 4))] for r in x]
        mean["kind"] = pick(draw, "const", "first")
    if kind in ("exp", "varying", "noisy", "rq") and chance(draw, 1, 3):
        mean = {"type": pick(draw, "zero", "parameterized"), "kind": pick(draw, "const", "affine", "sin"), "theta": reals(draw, 2, -2.0, 2.0)}
    return {
        "kind": kind, "x": x, "z": reals(draw, n), "mean": mean, "p": 0,
        "covparam": [real(draw, -2.0, 2.0)] + reals(draw, d, 0.5, 1.5), **layouts(draw),
    }


@PROP.case("user-kernels", g_cpd, quick=400, budget=(25, 250))
def c_cpd(case, ctx):
    if case["zcol"]:
        case["cin"] = True
    x = np.asarray(case["x"])
    lin = case["mean"]["type"] == "linear_predictor"
    P = ref.basis(case["mean"]["kind"], x) if lin else np.zeros((len(x), 0))
    if lin and not well_posed(P, 300.0):
        ctx.tag("skipped: basis")
        return
    cov, k = user_kernel(case["kind"], float(np.exp(case["covparam"][0])), case["covparam"][1:])
    W = ref.contrasts(P) if lin else np.eye(len(x))
    ev = np.linalg.eigvalsh(W.T @ k(x, x) @ W)
    if ev[0] <= 0 or ev[-1] / ev[0] > 1e6:
        ctx.tag("skipped: contrast covariance not well conditioned")
        return
    run(case, ctx, 1e-6, make_model(case["mean"], 0, case["covparam"], covariance=cov), Kfun=k)
    ctx.tag(case["kind"])


def g_many(draw):
    d = integer(draw, 1, 3)
    n = integer(draw, 20, 45)
    from vf.util import covparam_for, mean_spec

    x = points(draw, n, d, cells={1: 200, 2: 20, 3: 8}[d])
    p = integer(draw, 0, 3)
    c = {"x": x, "z": reals(draw, n), "p": p, "covparam": covparam_for(draw, x, p, condmax=1e5),
         "mean": mean_spec(draw, x), **layouts(draw)}
    if c["zcol"]:
        c["cin"] = True
    return c


@PROP.case("many-points", g_many, quick=50, budget=(25, 250))
def c_many(case, ctx):
    rt = tol_for(ctx.backend, case["p"], case["x"], case["covparam"])
    if rt is None:
        ctx.tag("skipped: rounding of distances")
        return
    run(case, ctx, 2 * rt, make_model(case["mean"], case["p"], case["covparam"]))


def g_diag(draw):
    n = integer(draw, 1, 7)
    return {"n": n, "L": reals(draw, n * n, -1, 1), "lower": chance(draw, 1, 2), "default": chance(draw, 1, 2)}


@PROP.case("inverse-diagonal", g_diag, quick=100, budget=(10, 40), rule="at least two rows")
def c_diag(case, ctx):
    n = case["n"]
    L = np.tril(np.array(case["L"]).reshape(n, n), -1) + np.diag(1 + np.abs(np.array(case["L"]).reshape(n, n).diagonal()))
    K = L @ L.T
    C, kw = (L, {} if case["default"] else {"lower": True}) if case["lower"] else (L.T.copy(), {"lower": False})
    got = LA.diag_Kinv_from_chol(A(C), **kw)
    shape("diagonal of the inverse", got, (n,))
    close("diagonal of the inverse", got, np.diag(np.linalg.inv(K)), rtol=1e-9, scale=np.linalg.norm(np.linalg.inv(K)))
    ctx.nontrivial(n > 1)
