"""Helpers shared by the property modules: conversions, comparisons, generators."""

import math

import numpy as np

from vf.core import Violation, st
from vf import ref

import gpmp as gp
import gpmp.num as gnp


# --------------------------------------------------------------- conversions
def A(x):
    """Backend array (float) from nested lists / ndarray."""
    return gnp.asarray(np.array(x, dtype=float))


def N(x):
    """ndarray from anything the library returns."""
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    try:
        return np.array(x)
    except (ValueError, TypeError) as exc:
        raise Violation(f"not an array: {type(x).__name__}: {str(exc)[:120]}", sig="type")


def F(x):
    a = N(x)
    if a.size != 1:
        raise Violation(f"expected a scalar, got shape {a.shape}", sig="shape")
    return float(a.reshape(-1)[0])


# --------------------------------------------------------------- comparisons
def fail(msg, sig=None):
    raise Violation(msg, sig)


def check(cond, msg, sig=None):
    if not cond:
        raise Violation(msg, sig)


def shape(name, x, want):
    got = tuple(N(x).shape)
    if got != tuple(want):
        raise Violation(f"{name}: shape {got}, expected {tuple(want)}", sig="shape")


def close(name, got, want, rtol=1e-8, atol=0.0, sig=None, scale=None):
    """|got - want| <= atol + rtol * max(|want| elementwise, scale); nan only matches nan."""
    try:
        g = N(got).astype(float)
    except (TypeError, ValueError):
        raise Violation(f"{name}: not a numeric array: {str(got)[:80]}", sig="type")
    w = N(want).astype(float)
    if g.shape != w.shape:
        raise Violation(f"{name}: shape {g.shape}, expected {w.shape}", sig="shape")
    ref_ = np.abs(np.where(np.isfinite(w), w, 0.0))
    if scale is not None:
        ref_ = np.maximum(ref_, scale)
    tol = atol + rtol * ref_
    with np.errstate(invalid="ignore"):
        ok = np.where(
            np.isfinite(w),
            np.abs(g - w) <= tol,
            np.where(np.isnan(w), np.isnan(g), g == w),
        )
    if not np.all(ok):
        i = tuple(np.argwhere(~ok)[0]) if g.ndim else ()
        raise Violation(
            f"{name}: got {g[i]!r}, expected {w[i]!r} at {tuple(int(j) for j in i)} "
            f"(max abs diff {np.nanmax(np.abs(np.where(ok, 0.0, g - w))):.3e}, tol {tol[i] if g.ndim else tol})",
            sig=sig or f"value:{name}",
        )


def same(name, got, want, sig=None):
    close(name, got, want, rtol=0.0, atol=0.0, sig=sig)


def raises(fn, *types):
    """True when fn raises one of types (default: any Exception)."""
    try:
        fn()
    except (types or (Exception,)):
        return True
    return False


# ---------------------------------------------------------------- generators
def pick(draw, *xs):
    return draw(st.sampled_from(xs))


def chance(draw, num, den):
    return draw(st.integers(0, den - 1)) < num


def integer(draw, a, b):
    return draw(st.integers(a, b))


def wobble(k, j=0):
    """Deterministic generic offset in (-0.5, 0.5) attached to integers."""
    s = math.sin(12.9898 * k + 78.233 * (j + 1)) * 43758.5453
    return s - math.floor(s) - 0.5


def real(draw, lo=-3.0, hi=3.0, m=600):
    """A generic float in [lo, hi]; integers shrink it towards lo's side simple values."""
    k = draw(st.integers(0, m))
    v = lo + (hi - lo) * k / m
    if 0 < k < m:
        v += (hi - lo) / m * 0.8 * wobble(k)
    return float(v)


def reals(draw, n, lo=-3.0, hi=3.0, m=600):
    ks = draw(st.lists(st.integers(0, m), min_size=n, max_size=n))
    out = []
    for j, k in enumerate(ks):
        v = lo + (hi - lo) * k / m
        if 0 < k < m:
            v += (hi - lo) / m * 0.8 * wobble(k, j)
        out.append(float(v))
    return out


def points(draw, n, d, cells=None, scale=1.0, jitter=0.6, lo=0.0):
    """n distinct well-separated points: distinct cells of an integer grid, jittered.

    Coordinates lie in [lo, lo + scale]; distinct points differ by at least
    (1-jitter)/cells*scale in some coordinate.
    """
    if cells is None:
        cells = max(3, int(math.ceil((4.0 * n) ** (1.0 / d))))
    idx = draw(
        st.lists(
            st.tuples(*[st.integers(0, cells - 1)] * d),
            min_size=n,
            max_size=n,
            unique=True,
        )
    )
    jit = draw(st.integers(0, 1000))
    out = []
    for i, t in enumerate(idx):
        row = []
        for j, c in enumerate(t):
            w = 0.0 if jit == 0 else jitter * wobble(jit + 31 * i + 7 * c, j)
            row.append(float(lo + scale * (c + 0.5 + w) / cells))
        out.append(row)
    return out


def covparam_for(draw, x, p, logs2=(-3.0, 3.0), condmax=1e6, rho=(0.3, 3.0)):
    """[log sigma2, log 1/rho_j]: length scales shrunk until cond(K) <= condmax."""
    x = np.asarray(x, float)
    d = x.shape[1]
    s = real(draw, *logs2)
    ext = np.maximum(x.max(0) - x.min(0), 0.2 * max(np.ptp(x), 1e-3))
    fac = reals(draw, d, math.log(rho[0]), math.log(rho[1]))
    lir = [float(-(math.log(e) + f)) for e, f in zip(ext, fac)]
    for _ in range(60):
        K = ref.matern_h(p, ref.dist(x, x, np.exp(lir)))
        if np.linalg.cond(K) <= condmax:
            break
        lir = [v + 0.2 for v in lir]
    return [s] + lir


def mean_spec(
    draw, x, kinds=("linear_predictor", "zero", "linear_predictor", "parameterized"), n_min_extra=1
):
    """Mean description; bases are reduced until well-posed on x (n >= q + n_min_extra)."""
    x = np.asarray(x, float)
    t = pick(draw, *kinds)
    if t == "zero":
        return {"type": "zero"}
    if t == "parameterized":
        return {
            "type": t,
            "kind": pick(draw, "const", "affine", "sin"),
            "theta": reals(draw, 2, -2.0, 2.0),
        }
    kind = pick(draw, *ref.BASES)
    P = ref.basis(kind, x)
    if P.shape[0] < P.shape[1] + n_min_extra or not well_posed(P):
        kind = "const"
    return {"type": t, "kind": kind}


def well_posed(P, condmax=1e3):
    s = np.linalg.svd(P / np.linalg.norm(P, axis=0), compute_uv=False)
    return s[-1] > 0 and s[0] / s[-1] < condmax


def dist_slack(x, invrho, *more):
    """Bound on the error of a scaled distance computed by expanding squared norms."""
    pts = np.vstack([np.asarray(v, float) for v in (x,) + more if len(v)])
    c = np.asarray(x, float).mean(0)
    r2 = np.max((((pts - c) * invrho) ** 2).sum(1))
    return math.sqrt(8.0 * np.finfo(float).eps * r2 * pts.shape[1])


def kernel_slack(backend, p, x, param, *more):
    """Bound on the relative (to the variance) error of the kernel matrix entries."""
    if backend == "numpy":
        return 1e-14
    delta = dist_slack(x, np.exp(np.asarray(param[1:], float)), *more)
    if p == 0:
        return 1e-14 + 1.5 * delta
    return 1e-14 + 4.0 * (p + 0.5) * delta**2


def tol_for(backend, p, x, param, *more, base=1e-7, cap=1e-3):
    """Relative tolerance on kriging weights; None when rounding could exceed cap."""
    x = np.asarray(x, float)
    K = ref.matern_h(p, ref.dist(x, x, np.exp(np.asarray(param[1:], float))))
    kinv = 1.0 / max(np.linalg.eigvalsh(K)[0], 1e-300)
    t = base + 3.0 * len(x) * kinv * kernel_slack(backend, p, x, param, *more)
    return t if t <= cap else None


WIDE = dict(scales=(1.0, 10.0, 0.01, 1e5, 1e-6), units=(1.0, 1.0, 1e-7, 1e5))


# ---------------------------------------------------------------- model making
def gnp_basis(kind):
    def mean(x, _param):
        one = gnp.ones((x.shape[0], 1))
        if kind == "const":
            return one
        if kind == "linear":
            return gnp.hstack((one, x))
        if kind == "first":
            return gnp.hstack((one, x[:, :1]))
        if kind == "quad":
            return gnp.hstack((one, x, x**2))
        if kind == "sin":
            return gnp.hstack((one, gnp.sin(x[:, :1])))
        if kind == "slope":
            return x[:, :1] + 2.0
        raise ValueError(kind)

    return mean


def gnp_param_mean(kind):
    def mean(x, theta):
        if kind == "const":
            return (theta[0] + 0.0 * x[:, 0]).reshape(-1, 1)
        if kind == "affine":
            return (theta[0] + theta[1] * gnp.sum(x, axis=1)).reshape(-1, 1)
        if kind == "sin":
            return (theta[0] * gnp.sin(x[:, 0]) + theta[1]).reshape(-1, 1)
        raise ValueError(kind)

    return mean


def matern_covariance(p):
    def covariance(x, y, covparam, pairwise=False):
        return gp.kernel.maternp_covariance(x, y, p, covparam, pairwise)

    return covariance


def make_model(mean, p, covparam, covariance=None):
    cov = covariance if covariance is not None else matern_covariance(p)
    cp = None if covparam is None else A(covparam)
    if mean["type"] == "zero":
        return gp.core.Model(None, cov, None, cp, meantype="zero")
    if mean["type"] == "parameterized":
        return gp.core.Model(
            gnp_param_mean(mean["kind"]), cov, A(mean["theta"]), cp, meantype="parameterized"
        )
    return gp.core.Model(gnp_basis(mean["kind"]), cov, None, cp, meantype="linear_predictor")


def ref_predict(mean, p, covparam, xi, zi, xt, Kfun=None):
    """Reference posterior mean / covariance / weights for make_model(mean, p, covparam)."""
    xi = np.asarray(xi, float)
    xt = np.asarray(xt, float)
    zi = np.asarray(zi, float).reshape(-1)
    k = Kfun or (lambda a, b: ref.matern_cov(a, b, p, covparam))
    K = k(xi, xi)
    if Kfun is None:
        K = K + ref.nugget(covparam) * np.eye(len(xi))
    Kit = k(xi, xt)
    Ktt = k(xt, xt)
    if mean["type"] == "zero":
        return ref.krige_zero(K, Kit, Ktt, zi)
    if mean["type"] == "parameterized":
        mi = ref.param_mean(mean["kind"], mean["theta"], xi)
        mt = ref.param_mean(mean["kind"], mean["theta"], xt)
        m, C, lam = ref.krige_zero(K, Kit, Ktt, zi - mi)
        return m + mt, C, lam
    P = ref.basis(mean["kind"], xi)
    Pt = ref.basis(mean["kind"], xt)
    return ref.krige_blup(K, P, Kit, Pt, Ktt, zi)


def gp_case(
    draw,
    nmin=1,
    nmax=12,
    dmax=4,
    pmax=4,
    kinds=("linear_predictor", "zero", "linear_predictor", "parameterized"),
    nt=(1, 6),
    condmax=1e6,
    scales=(1.0, 10.0, 0.01),
    units=(1.0,),
):
    """A dataset, targets and a well-posed model (units: of the responses and the process)."""
    d = integer(draw, 1, dmax)
    n = integer(draw, nmin, nmax)
    scale = pick(draw, *scales)
    lo = pick(draw, 0.0, -0.5, 1.0) * scale
    x = points(draw, n, d, scale=scale, lo=lo)
    p = integer(draw, 0, pmax)
    cp = covparam_for(draw, x, p, condmax=condmax)
    mean = mean_spec(draw, np.asarray(x) / scale, kinds)
    if mean["type"] == "linear_predictor" and n < 2:
        mean = {"type": "zero"}
    if mean["type"] == "linear_predictor":
        P = ref.basis(mean["kind"], x)
        if not well_posed(P):
            mean["kind"] = "const"
    u = pick(draw, *units)
    cp[0] += 2.0 * math.log(u)
    zs = u * pick(draw, 1.0, 100.0, 1e-3)
    z = [zs * v for v in reals(draw, n)]
    m = integer(draw, *nt) if nt else 0
    xt = []
    for _ in range(m):
        if n and chance(draw, 1, 4):
            xt.append(list(x[integer(draw, 0, n - 1)]))
        else:
            xt.append([lo + scale * v for v in reals(draw, d, -0.3, 1.3)])
    return {"x": x, "z": z, "xt": xt, "p": p, "covparam": cp, "mean": mean}


def user_kernel(kind, s2, lir):
    """(gnp covariance, numpy kernel) for kernels written by a user of the library."""
    w = np.exp(np.asarray(lir))

    def prof(h, m):
        if kind in ("exp", "varying", "noisy"):
            return s2 * m.exp(-h)
        if kind == "rq":
            return s2 / (1.0 + h * h)
        if kind == "minus_h":
            return -s2 * h
        if kind == "minus_h_shift":
            return s2 * (3.0 - h)
        if kind == "cubic":
            return s2 * h * h * h
        raise ValueError(kind)

    def dev(x, m):  # standard deviation varying with the point
        return 1.0 + 0.7 * m.sin(3.0 * x[:, 0]) + 0.3 * x[:, -1] ** 2

    if kind == "varying":

        def cov(x, y, covparam, pairwise=False):
            y_ = x if y is None else y
            if pairwise:
                h = gnp.sqrt(gnp.sum((A(w) * (x - y_)) ** 2, axis=1))
                return dev(x, gnp) * dev(y_, gnp) * prof(h, gnp)
            h = gnp.scaled_distance(covparam[1:], x, y_)
            return dev(x, gnp).reshape(-1, 1) * prof(h, gnp) * dev(y_, gnp).reshape(1, -1)

        return cov, lambda a, b: dev(a, np)[:, None] * prof(ref.dist(a, b, w), np) * dev(b, np)[None, :]

    if kind == "noisy":  # last column: 1 for a noisy observation, 0 for the latent process

        def cov(x, y, covparam, pairwise=False):
            if y is x or y is None:
                noise = 0.2 * s2 * x[:, -1]
                if pairwise:
                    return s2 + noise
                return prof(gnp.scaled_distance(covparam[1:], x[:, :-1], x[:, :-1]), gnp) + gnp.diag(noise)
            if pairwise:
                h = gnp.sqrt(gnp.sum((A(w) * (x[:, :-1] - y[:, :-1])) ** 2, axis=1))
            else:
                h = gnp.scaled_distance(covparam[1:], x[:, :-1], y[:, :-1])
            return prof(h, gnp)

        def knoisy(a, b):
            K = prof(ref.dist(a[:, :-1], b[:, :-1], w), np)
            return K + np.diag(0.2 * s2 * a[:, -1]) if a is b else K

        return cov, knoisy

    def cov(x, y, covparam, pairwise=False):
        if pairwise:
            if y is None:
                h = gnp.zeros((x.shape[0],))
            else:
                h = gnp.sqrt(gnp.sum((A(w) * (x - y)) ** 2, axis=1))
            return prof(h, gnp) + 0.0 * h
        y_ = x if y is None else y
        h = gnp.scaled_distance(covparam[1:], x, y_)
        return prof(h, gnp)

    return cov, lambda a, b: prof(ref.dist(a, b, w), np)
