"""P02: algebraic invariances of the kriging predictor."""
import numpy as np

from vf import ref
from vf.core import Prop, st
from vf.util import (
    A, N, check, close, chance, gp_case, integer, make_model, pick, real, reals,
    ref_predict, shape, tol_for,
)

PROP = Prop(
    "P02",
    rule="the transformation is not the identity, the data are not all zero and at least one target has a posterior variance below 99% of the prior (or the mean is an unknown linear one)",
    assumptions=[
        "kriging systems well posed by construction (condition number at most 1e6)",
        "tolerance 2e-7 relative to the size of the weights times the data; with torch an explicit bound on the rounding of distances is added and comparisons whose bound exceeds 1e-3 are skipped and counted",
    ],
)


class Run:
    """One model + data; predictions through the public entry points."""

    def __init__(self, case, ctx):
        self.case = case
        self.ok = True
        rt = tol_for(ctx.backend, case["p"], case["x"], case["covparam"], case["xt"])
        if rt is None:
            ctx.tag("skipped: rounding of distances")
            self.ok = False
            return
        self.rt = 2 * rt
        self.x = np.asarray(case["x"], float)
        self.z = np.asarray(case["z"], float)
        self.xt = np.asarray(case["xt"], float)
        self.prior = float(np.exp(case["covparam"][0]))
        _, C, lam = ref_predict(case["mean"], case["p"], case["covparam"], self.x, self.z, self.xt)
        self.lsum = np.sum(np.abs(lam), axis=0)
        zc = self.z
        if case["mean"]["type"] == "parameterized":
            zc = zc - ref.param_mean(case["mean"]["kind"], case["mean"]["theta"], self.x)
        self.zmax = np.max(np.abs(zc)) + np.max(np.abs(self.z)) + 2.0 * (case["mean"]["type"] == "parameterized")
        self.mscale = self.lsum * self.zmax + 1e-300
        self.vscale = self.prior * (1 + self.lsum) ** 2 + np.max(np.abs(C))
        ctx.nontrivial(
            np.any(self.z != 0)
            and (np.min(np.diag(C)) < 0.99 * self.prior or case["mean"]["type"] == "linear_predictor")
        )
        ctx.tag(case["mean"]["type"])
        self.model = make_model(case["mean"], case["p"], case["covparam"])

    def predict(self, x=None, z=None, xt=None, model=None, **kw):
        m = (model or self.model).predict(
            A(self.x if x is None else x), A(self.z if z is None else z), A(self.xt if xt is None else xt), **kw
        )
        nt = len(self.xt if xt is None else xt)
        shape("mean", m[0], (nt,))
        shape("variance", m[1], (nt,))
        return m

    def same(self, what, got, want, ms=None, vs=None):
        close(what + ": mean", got[0], want[0], rtol=self.rt, scale=self.mscale if ms is None else ms)
        close(what + ": variance", got[1], want[1], rtol=self.rt, scale=self.vscale if vs is None else vs)


# ------------------------------------------------------------- linearity
def g_lin(draw):
    c = gp_case(draw, nmin=1, nmax=10)
    c["z2"] = reals(draw, len(c["z"]))
    c["a"] = real(draw, -3, 3)
    c["b"] = real(draw, -3, 3)
    return c


@PROP.case("linear-in-responses", g_lin, quick=700, budget=(20, 200))
def c_lin(case, ctx):
    r = Run(case, ctx)
    if not r.ok:
        return
    m, v, lam = r.predict(return_lambdas=True)
    shape("weights", lam, (len(r.x), len(r.xt)))
    lam = N(lam)
    zc, mt = r.z, 0.0
    if case["mean"]["type"] == "parameterized":
        zc = r.z - ref.param_mean(case["mean"]["kind"], case["mean"]["theta"], r.x)
        mt = ref.param_mean(case["mean"]["kind"], case["mean"]["theta"], r.xt)
    close("weights applied to the responses", m, lam.T @ zc + mt, rtol=1e-10, scale=r.mscale + np.abs(mt))
    z2 = np.asarray(case["z2"])
    a, b = case["a"], case["b"]
    if case["mean"]["type"] == "parameterized":
        # the predictor is affine in the responses
        b = 1.0 - a
    m2, v2 = r.predict(z=z2)[:2]
    m3, v3 = r.predict(z=a * r.z + b * z2)[:2]
    big = (abs(a) + abs(b)) * (r.lsum * (r.zmax + 6.0) + np.abs(mt))
    close("linearity", m3, a * N(m) + b * N(m2), rtol=r.rt, scale=big)
    close("variance does not depend on the responses", v3, v, rtol=1e-12, scale=r.prior)
    close("variance does not depend on the responses", v2, v, rtol=1e-12, scale=r.prior)


# ------------------------------------------------------------ permutations
def g_perm(draw):
    c = gp_case(draw, nmin=2, nmax=10, nt=(2, 6))
    n, m = len(c["x"]), len(c["xt"])
    c["perm"] = draw(st.permutations(range(n)))
    c["tsel"] = draw(st.lists(st.integers(0, m - 1), min_size=1, max_size=8))
    c["cut"] = integer(draw, 1, m - 1)
    return c


@PROP.case("orderings-and-batches", g_perm, quick=700, budget=(20, 200))
def c_perm(case, ctx):
    r = Run(case, ctx)
    if not r.ok:
        return
    p = list(case["perm"])
    base = r.predict(return_lambdas=True)
    got = r.predict(x=r.x[p], z=r.z[p], return_lambdas=True)
    r.same("permuted observations", got, base)
    close("permuted observations: weights", got[2], N(base[2])[p], rtol=r.rt, scale=1 + r.lsum)
    s = list(case["tsel"])
    got = r.predict(xt=r.xt[s], return_lambdas=True)
    r.same("selected targets", got, (N(base[0])[s], N(base[1])[s]), r.mscale[s], r.vscale[s])
    k = case["cut"]
    one, two = r.predict(xt=r.xt[:k]), r.predict(xt=r.xt[k:])
    r.same(
        "targets in two batches",
        (np.concatenate([N(one[0]), N(two[0])]), np.concatenate([N(one[1]), N(two[1])])),
        base,
    )
    single = [r.predict(xt=r.xt[j : j + 1]) for j in range(len(r.xt))]
    r.same("targets one by one", tuple(np.concatenate([N(q[i]) for q in single]) for i in (0, 1)), base)


# ---------------------------------------------------------------- scalings
def g_scale(draw):
    c = gp_case(draw, nmin=2, nmax=10, scales=(1.0,))
    d = len(c["x"][0])
    m = c["mean"]
    if m["type"] == "linear_predictor" and m["kind"] not in ("const", "linear", "quad"):
        m["kind"] = "const"
    if m["type"] == "parameterized":
        m["kind"] = "const"
    c["c"] = pick(draw, 2.0, 0.1, 7.3, 1e3, -1.0, 1e-3)
    c["shift"] = reals(draw, d, -2.0, 2.0)
    c["fac"] = [float(np.exp(v)) for v in reals(draw, d, -2.0, 2.0)]
    c["perm"] = draw(st.permutations(range(d)))
    return c


@PROP.case("units-and-coordinates", g_scale, quick=700, budget=(20, 200))
def c_scale(case, ctx):
    r = Run(case, ctx)
    if not r.ok:
        return
    mean, p, cp = case["mean"], case["p"], np.asarray(case["covparam"])
    base = r.predict()
    c = case["c"]
    # responses in another unit
    mean_c = dict(mean)
    if mean["type"] == "parameterized":
        mean_c["theta"] = [c * t for t in mean["theta"]]
    cp_c = cp.copy()
    cp_c[0] += 2 * np.log(abs(c))
    got = r.predict(z=c * r.z, model=make_model(mean_c, p, cp_c))
    r.same("rescaled responses", got, (c * N(base[0]), c * c * N(base[1])), abs(c) * r.mscale, c * c * r.vscale)
    # translated and rescaled inputs
    s, f = np.asarray(case["shift"]), np.asarray(case["fac"])
    if mean["type"] == "linear_predictor" and mean["kind"] == "quad":
        s = 0 * s  # keeps the basis well conditioned
    cp_f = cp.copy()
    cp_f[1:] -= np.log(f)
    if mean["type"] != "linear_predictor" or mean["kind"] == "const" or np.max(f) / np.min(f) < 30:
        got = r.predict(x=r.x * f + s, xt=r.xt * f + s, model=make_model(mean, p, cp_f))
        r.rt *= 10
        r.same("translated and rescaled inputs", got, base)
    # coordinates in another order
    q = list(case["perm"])
    cp_q = np.concatenate([cp[:1], cp[1:][q]])
    got = r.predict(x=r.x[:, q], xt=r.xt[:, q], model=make_model(mean, p, cp_q))
    r.same("reordered coordinates", got, base)
    if len(q) > 1 and q != list(range(len(q))):
        ctx.tag("coordinates swapped")


# ------------------------------------------------------------- universality
def g_basis(draw):
    c = gp_case(draw, nmin=3, nmax=11, kinds=("linear_predictor",))
    c["beta"] = reals(draw, 9, -3.0, 3.0)
    return c


@PROP.case("basis-functions-reproduced", g_basis, quick=700, budget=(20, 200))
def c_basis(case, ctx):
    r = Run(case, ctx)
    if not r.ok:
        return
    P = ref.basis(case["mean"]["kind"], r.x)
    Pt = ref.basis(case["mean"]["kind"], r.xt)
    m, v, lam = r.predict(return_lambdas=True)
    shape("weights", lam, (len(r.x), len(r.xt)))
    close("weights reproduce the basis", N(lam).T @ P, Pt, rtol=r.rt,
          scale=(1 + r.lsum)[:, None] * np.max(np.abs(P)))
    beta = np.asarray(case["beta"])[: P.shape[1]]
    got = r.predict(z=r.z + P @ beta)
    ms = r.mscale + (1 + r.lsum) * (np.max(np.abs(P @ beta)) + np.max(np.abs(Pt @ beta)))
    close("basis added to the responses: mean", got[0], N(m) + Pt @ beta, rtol=r.rt, scale=ms)
    close("basis added to the responses: variance", got[1], v, rtol=1e-12, scale=r.prior)
    ctx.tag("basis " + case["mean"]["kind"])


# --------------------------------------------------------------- variances
def g_var(draw):
    return gp_case(draw, nmin=3, nmax=10, nt=(1, 6))


@PROP.case("variance-monotone-and-psd", g_var, quick=700, budget=(20, 200))
def c_var(case, ctx):
    r = Run(case, ctx)
    if not r.ok:
        return
    lp = case["mean"]["type"] == "linear_predictor"
    f = r.model.kriging_predictor if lp else r.model.kriging_predictor_with_zero_mean
    m, v = r.predict(zero_neg_variances=False)
    v = N(v)
    _, C = f(A(r.x), A(r.xt), 1)
    shape("posterior covariance", C, (len(r.xt),) * 2)
    C = N(C)
    tol = r.rt * np.max(r.vscale)
    close("symmetry", C, C.T, atol=tol)
    close("diagonal", np.diag(C), v, atol=tol)
    check(np.linalg.eigvalsh(0.5 * (C + C.T))[0] >= -2 * len(r.xt) * tol, "posterior covariance not PSD", "psd")
    if not lp:
        check(np.all(v <= r.prior * (1 + 1e-9)), f"variance {v.max()} exceeds the prior {r.prior}", "prior")
    # dropping observations one after the other
    cur = v
    k = len(r.x)
    qmin = ref.basis(case["mean"]["kind"], r.x).shape[1] if lp else 1
    while k - 1 > qmin:
        k -= 1
        if lp:
            P = ref.basis(case["mean"]["kind"], r.x[:k])
            sv = np.linalg.svd(P / np.linalg.norm(P, axis=0), compute_uv=False)
            if sv[0] > 1e3 * sv[-1]:
                break
        less = N(r.predict(x=r.x[:k], z=r.z[:k], zero_neg_variances=False)[1])
        slack = r.rt * (r.vscale + np.abs(less) + r.prior) * (10 if lp else 1)
        check(np.all(less + slack >= cur), f"variance grows when observation {k} is added: {less} -> {cur}", "monotone")
        cur = less
