"""P26: initial guesses and empirical bounds scale with the data."""
import math

import numpy as np

from vf import ref
from vf.core import Prop, st
from vf.util import A, F, N, check, chance, close, gnp, gp, integer, kernel_slack, make_model, pick, points, raises, real, reals, same, shape, well_posed

PROP = Prop(
    "P26",
    rule="at least three observations; for loaders at least two batches of different sizes or rows in several shards",
    assumptions=[
        "every coordinate takes at least two values (a coordinate without spread has no initial length scale)",
        "values are compared where the correlation matrix at the initial length scales has condition number below 1e7",
        "loader versions take the range over the whole dataset and average the per-batch estimates by batch size",
    ],
)


def rho0(x):
    d = x.shape[1]
    return math.exp(math.lgamma(d / 2 + 1) / d) / math.sqrt(math.pi) * np.ptp(x, axis=0)


def quad(kind, basis, p, x, z, rho):
    """(mean estimate or None, z' Q z / n, condition number, smallest eigenvalue)."""
    cp = np.concatenate([[0.0], -np.log(rho)])
    K = ref.matern_cov(x, x, p, cp) + ref.nugget(cp) * np.eye(len(x))
    ev = np.linalg.eigvalsh(K)
    n = len(x)
    if kind == "general":
        W = ref.contrasts(ref.basis(basis, x))
        w = W.T @ z
        return None, float(w @ np.linalg.solve(W.T @ K @ W, w)) / n, ev
    a = np.linalg.solve(K, z)
    b = np.linalg.solve(K, np.ones(n))
    return float(a.sum() / b.sum()), float(z @ a) / n, ev


def g_init(draw):
    n, d = integer(draw, 3, 9), integer(draw, 1, 3)
    sc = pick(draw, 1.0, 50.0, 1e-2)
    x = points(draw, n, d, scale=1.0, lo=pick(draw, 0.0, -0.5))
    for j in range(d):
        if np.ptp([r[j] for r in x]) < 0.05:
            for i, r in enumerate(x):
                r[j] += 0.03 * i
    x = [[sc * v for v in r] for r in x]
    zs = pick(draw, 1.0, 1e3, 1e-3)
    return {
        "x": x, "z": [zs * v for v in reals(draw, n)], "p": integer(draw, 0, 2), "kind": pick(draw, "general", "zero", "constant"),
        "basis": pick(draw, "const", "linear"), "cx": reals(draw, d, 0.1, 8), "cz": real(draw, 0.1, 8), "bs": pick(draw, n, 2, 3, 4),
        "shards": chance(draw, 1, 2), "zcol": chance(draw, 1, 2), "shuffle": chance(draw, 1, 3), "offset": reals(draw, d, -3, 3),
    }


@PROP.case("initial-guess", g_init, quick=700, budget=(20, 200))
def c_init(case, ctx):
    k = gp.kernel
    x, z, p, kind = np.asarray(case["x"]), np.asarray(case["z"]), case["p"], case["kind"]
    n, d = x.shape
    basis = case["basis"]
    if kind == "general" and (n < d + 2 or not well_posed(ref.basis("linear", x))):
        basis = "const"
    if np.max(np.abs(z)) == 0:
        return
    f = {"general": k.anisotropic_parameters_initial_guess, "zero": k.anisotropic_parameters_initial_guess_zero_mean, "constant": k.anisotropic_parameters_initial_guess_constant_mean}[kind]
    mean = {"general": {"type": "linear_predictor", "kind": basis}, "zero": {"type": "zero"}, "constant": {"type": "parameterized", "kind": "const", "theta": [0.0, 0.0]}}[kind]
    model = make_model(mean, p, None)

    def run(x, z, **kw):
        zz = A(z).reshape(-1, 1) if case["zcol"] and not kw else A(z)
        out = f(model, **kw) if kw else f(model, A(x), zz)
        if kind == "constant":
            check(isinstance(out, tuple) and len(out) == 2, "does not return (mean, covariance parameters)", "shape")
            shape("mean", out[0], (1,))
            m, c = F(out[0]), N(out[1])
        else:
            m, c = None, N(out)
        shape("parameters", c, (d + 1,))
        return m, c

    def expect(x, z, batches=None):
        rho = rho0(x)
        acc_m = acc_s = 0.0
        lo, hi = math.inf, 0.0
        slack = 0.0
        for xb, zb in batches or [(x, z)]:
            m, s, ev = quad(kind, basis, p, xb, zb, rho)
            if ev[0] <= 0:
                return None
            lo, hi = min(lo, ev[0]), max(hi, ev[-1])
            acc_s += len(xb) * s
            acc_m += len(xb) * (m or 0.0)
            slack = max(slack, kernel_slack(ctx.backend, p, xb, [0.0] + list(-np.log(rho))))
        s, m = acc_s / len(x), acc_m / len(x)
        t = 1e-9 + 10 * n * slack / lo
        if hi / lo > 1e7 or t > 1e-4 or s <= 1e-9 * float(np.mean(z**2)):
            return None
        # sensitivity of z'Qz and of the estimates to errors in K
        t *= max(1.0, float(np.mean(z**2)) / lo / s)
        return (m, s, rho, t) if t < 1e-3 else None

    def compare(what, got, want, tol_scale=1.0):
        m, s, rho, t = want
        close(f"{what}: length scales", got[1][1:], -np.log(rho), rtol=1e-11, scale=1.0, sig="rho")
        close(f"{what}: variance", got[1][0], math.log(s), atol=10 * t, rtol=1e-12, sig="sigma2")
        if kind == "constant":
            close(f"{what}: mean", got[0], m, atol=20 * t * np.max(np.abs(z)) * n, rtol=1e-9, sig="mean")

    want = expect(x, z)
    got = run(x, z)
    close("length scales", got[1][1:], -np.log(rho0(x)), rtol=1e-11, scale=1.0, sig="rho")
    if want is None:
        ctx.tag("ill-conditioned")
        return
    compare("arrays", got, want)
    # scaling and shifting
    c, cx, off = case["cz"], np.asarray(case["cx"]), np.asarray(case["offset"])
    g2 = run(x, c * z)
    t = want[3]
    close("responses scaled: variance", g2[1][0] - got[1][0], 2 * math.log(c), atol=20 * t, sig="equivariance")
    same("responses scaled: length scales", g2[1][1:], got[1][1:], sig="equivariance")
    if kind == "constant":
        close("responses scaled: mean", g2[0], c * got[0], atol=40 * t * n * c * np.max(np.abs(z)), sig="equivariance")
    g3 = run(x * cx + off * np.ptp(x, axis=0), z) if (kind != "general" or basis == "const") else None
    if g3 is not None:
        close("coordinates scaled: length scales", got[1][1:] - g3[1][1:], np.log(cx), atol=1e-9, sig="equivariance")
        close("coordinates scaled: variance", g3[1][0], got[1][0], atol=40 * t + 1e-7 * (t > 1e-9), sig="equivariance")
    # the same data as one batch, then as several
    xs, zs = A(x), A(z)
    if case["shards"] and n >= 4:
        ds = gp.dataloader.Dataset([xs[:2], xs[2:]], [zs[:2], zs[2:]])
    else:
        ds = gp.dataloader.Dataset(xs, zs)
    one = run(None, None, dataloader=gp.dataloader.DataLoader(ds, batch_size=n, shuffle=case["shuffle"], seed=3))
    close("one batch: parameters", one[1], got[1], rtol=1e-9, atol=20 * t, sig="loader")
    if kind == "constant":
        close("one batch: mean", one[0], got[0], atol=40 * t * n * np.max(np.abs(z)), sig="loader")
    bs = case["bs"]
    need = 1 if kind != "general" else ref.basis(basis, x).shape[1] + 1
    last = n % bs
    if bs < n and bs >= need and (last == 0 or last >= need) and not (basis == "linear" and kind == "general"):
        batches = [(x[i : i + bs], z[i : i + bs]) for i in range(0, n, bs)]
        w2 = expect(x, z, batches)
        if w2 is not None:
            compare("several batches", run(None, None, dataloader=gp.dataloader.DataLoader(ds, batch_size=bs, shuffle=False)), w2)
            ctx.tag("several batches" + (" (uneven)" if last else ""))
    for bad in ({}, {"xi": xs}, {"xi": xs, "zi": zs, "dataloader": gp.dataloader.DataLoader(ds, batch_size=n)}):
        check(raises(lambda: f(model, **bad), ValueError), "ambiguous or missing data accepted", "accept")
    ctx.nontrivial(n >= 3)
    ctx.tag(kind)


def g_bounds(draw):
    n, d = integer(draw, 1, 9), integer(draw, 1, 3)
    kinds = [pick(draw, "spread", "grid", "constant", "close") for _ in range(d)]
    cols = []
    for kd in kinds:
        v = reals(draw, n, -2, 2)
        if kd == "grid":
            v = [float(round(2 * a)) / 2 for a in v]
        elif kd == "constant":
            v = [v[0]] * n
        elif kd == "close":
            v = [a if i % 2 else v[0] + 1e-9 * i for i, a in enumerate(v)]
        cols.append(v)
    return {
        "x": [list(r) for r in zip(*cols)], "z": reals(draw, n), "np": chance(draw, 1, 3), "zcol": chance(draw, 1, 2),
        "kw": draw(st.fixed_dictionaries({}, optional={
            "mean_paramlength": st.sampled_from([0, 1, 3]), "var_lower_factor": st.sampled_from([0.1, 1.0]),
            "var_upper_factor": st.sampled_from([20.0, 100.0]), "length_lower_factor": st.sampled_from([0.5, 1.0, 5.0]),
        })),
        "factor": pick(draw, None, 0.01, 0.5, 2.0), "c": real(draw, 0.2, 5),
    }


@PROP.case("bounds", g_bounds, quick=500, budget=(15, 120))
def c_bounds(case, ctx):
    k = gp.kernel
    x, z = np.asarray(case["x"], float), np.asarray(case["z"], float)
    n, d = x.shape
    give = (lambda v: np.array(v)) if case["np"] else A
    kw = case["kw"]
    gaps = []
    for j in range(d):
        g = np.diff(np.sort(x[:, j]))
        gaps.append(float(g[g > 0].min()) if np.any(g > 0) else None)
    if n >= 2 and z.var() > 1e-12:
        for c in (1.0, case["c"]):
            b = N(k.empirical_bounds_factory(give(x * c), give((z * c).reshape(-1, 1) if case["zcol"] else z * c), **kw))
            q = kw.get("mean_paramlength", 0)
            shape("bounds", b, (q + 1 + d, 2))
            same("mean bounds", b[:q], np.tile([-np.inf, np.inf], (q, 1)))
            v = (z * c).var()
            want = [math.log(kw.get("var_lower_factor", 2.0) * v), math.log(kw.get("var_upper_factor", 10.0) * v)]
            close("variance bounds", b[q], want, rtol=1e-10, scale=1.0, sig="variance")
            for j in range(d):
                if gaps[j] is None:
                    same("coordinate without spread", b[q + 1 + j], [-np.inf, np.inf], sig="length")
                else:
                    # rounding of x * c limits the gap
                    tol = 1e-10 + 4e-16 * c * np.max(np.abs(x)) / (gaps[j] * c)
                    w = -math.log(kw.get("length_lower_factor", 2.0) * gaps[j] * c)
                    if tol < 1e-3:
                        close("length bounds", b[q + 1 + j], [-np.inf, w], rtol=0, atol=10 * tol, sig="length")
        ctx.tag("bounds")
    fac = case["factor"]
    got = k.compute_logrho_min_from_xi(A(x)) if fac is None else k.compute_logrho_min_from_xi(A(x), prior_rho_min_range_factor=fac)
    f = 1 / 20 if fac is None else fac
    want = []
    for j in range(d):
        r = np.ptp(x[:, j])
        want.append(-math.inf if gaps[j] is None else max(math.log(gaps[j]), math.log(r * f)))
    close("minimal length scale", got, want, rtol=1e-10, scale=1.0, atol=1e-6 * any(g is not None and g < 1e-6 for g in gaps), sig="min")
    for bad in (0.0, -1.0):
        check(raises(lambda: k.compute_logrho_min_from_xi(A(x), prior_rho_min_range_factor=bad), ValueError), "non-positive factor accepted", "accept")
    ctx.nontrivial(n >= 3)
    if any(g is None for g in gaps):
        ctx.tag("constant coordinate")
    if any(g is not None and len(set(x[:, j])) < n for j, g in enumerate(gaps)):
        ctx.tag("repeated coordinates")
