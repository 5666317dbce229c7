"""P11: the numerical layer follows one array semantics on both backends."""
import math

import numpy as np
import scipy.linalg as sl
from scipy import special, stats
from scipy.spatial.distance import cdist

from vf.core import Prop, st
from vf.util import A, F, N, check, chance, close, fail, gnp, gp, integer, pick, raises, real, reals, shape

PROP = Prop(
    "P11",
    rule="an array with at least two elements (matrix routines: at least two rows)",
    assumptions=[
        "axes, orders, boundary indices and grid indexing are given explicitly where the two libraries have different defaults",
        "matrix routines are called with right-hand sides given as matrices and condition numbers below 1e6",
        "laws of random routines are compared at significance 1e-10 per comparison",
    ],
)


def arr(draw, shp, kind="real"):
    n = int(np.prod(shp))
    if kind == "real":
        v = reals(draw, n, -4, 4)
    elif kind == "pos":
        v = reals(draw, n, 0.05, 6)
    elif kind == "unit":
        v = reals(draw, n, -0.99, 0.99)
    elif kind == "int":
        v = [float(integer(draw, -3, 3)) for _ in range(n)]
    elif kind == "wide":
        v = [pick(draw, 1.0, -1.0) * 10.0 ** integer(draw, -8, 8) for _ in range(n)]
    elif kind == "special":
        v = [pick(draw, 1.5, math.nan, math.inf, -math.inf, 0.0, -2.0) for _ in range(n)]
    return {"shape": list(shp), "v": [x if math.isfinite(x) else str(x) for x in v]}


def mk(a):
    return np.array([float(v) for v in a["v"]], float).reshape(a["shape"])


UNARY = {
    "log": "pos", "log10": "pos", "log1p": "pos", "exp": "real", "sqrt": "pos", "sin": "real", "cos": "real", "tan": "unit", "tanh": "real", "abs": "real", "floor": "real", "ceil": "real",
    "isfinite": "special", "isnan": "special", "isinf": "special", "gammaln": "pos", "nan_to_num": "special", "inftobigf": "special", "zeros_like": "real", "ones_like": "real", "copy": "real", "empty_like": "real", "logical_not": "int", "asdouble": "real",
}
REDUCE = ("sum", "mean", "prod", "std", "var", "min", "max", "all", "any", "argmin", "argmax", "cumsum", "diff", "sort", "norm", "percentile", "std1", "var1", "unique")
BINARY = ("maximum", "minimum", "clip", "where", "logical_and", "logical_or", "isclose", "allclose", "array_equal")
SHAPE = ("reshape", "hstack", "vstack", "stack", "concatenate", "tile", "expand_dims", "transpose", "split", "meshgrid", "diag", "full", "eye", "linspace", "arange", "logspace", "full_like")
MATRIX = ("matmul", "inner", "einsum", "trace", "cov", "cov0", "inv", "cholesky", "solve", "solve_triangular", "cho", "cholesky_solve", "cholesky_inv", "logdet", "svd", "qr", "qr_complete", "cond")
DENS = ("normal.cdf", "normal.logcdf", "normal.pdf", "normal.logpdf", "mvn.logpdf", "mvn.cdf", "mvn1.logpdf", "mvn1.cdf")


def same_val(name, got, want, rtol=1e-12, atol=1e-13):
    w = np.asarray(want)
    g = N(got)
    if w.dtype == bool or g.dtype == bool:
        check(g.dtype == w.dtype, f"{name}: element type {g.dtype}, expected {w.dtype}", f"type:{name}")
    if np.issubdtype(w.dtype, np.floating):
        check(g.dtype == np.float64, f"{name}: precision {g.dtype}, expected float64", f"type:{name}")
    close(name, got, w, rtol=rtol, atol=atol, sig=f"value:{name}")


def g_el(draw):
    nd = integer(draw, 1, 3)
    shp = [integer(draw, 1, 4) for _ in range(nd)]
    k = pick(draw, "real", "int", "wide")
    return {
        "a": arr(draw, shp, k), "sp": arr(draw, shp, "special"), "b": arr(draw, shp, "int" if k == "int" else "real"), "b2": arr(draw, [pick(draw, s, 1) for s in shp]), "scalar": chance(draw, 1, 5),
        "axis": pick(draw, *range(nd), None, -1), "keep": chance(draw, 1, 3), "q": pick(draw, 50, 25.0, 90, 0, 100.0, 33.3), "ord": pick(draw, 2, 1), "lo": real(draw, -3, 0), "hi": real(draw, 0, 3), "form": pick(draw, "array", "scalar"), "same": chance(draw, 1, 3),
    }


KIND = {
    "real": lambda a: np.clip(a, -4, 4), "pos": lambda a: np.minimum(np.abs(a), 1e6) * 1.5 + 0.05, "unit": lambda a: np.clip(a / 4.1, -0.99, 0.99), "int": lambda a: np.round(np.clip(a, -4, 4)),
}


@PROP.case("elementwise-and-reductions", g_el, quick=300, budget=(25, 200))
def c_el(case, ctx):
    for op, kind in UNARY.items():
        one_el(dict(case, fam="unary", op=op), mk(case["sp"]) if kind == "special" else KIND[kind](mk(case["a"])))
    for op in REDUCE:
        one_el(dict(case, fam="reduce", op=op), mk(case["a"]) if op != "prod" else np.clip(mk(case["a"]), -4, 4))
    for op in BINARY:
        one_el(dict(case, fam="binary", op=op), mk(case["a"]))
    ctx.nontrivial(mk(case["a"]).size > 1)


def one_el(case, a):
    ga = A(a)
    op = case["op"]
    f = getattr(gnp, op, None)
    if case["fam"] == "unary":
        ref = {"gammaln": special.gammaln, "inftobigf": lambda v: np.where(np.isinf(v), np.finfo(float).max / 1000, v), "copy": lambda v: v.copy(), "asdouble": lambda v: v, "logical_not": lambda v: ~(v > 0)}.get(op) or getattr(np, op, None)
        if op == "empty_like":
            r = gnp.empty_like(ga)
            shape("empty_like", r, a.shape)
        elif op == "logical_not":
            same_val(op, gnp.logical_not(ga > 0), ref(a))
        else:
            same_val(op, f(ga), ref(a))
            if case["scalar"] and op in ("log", "log10", "log1p", "exp", "sqrt", "sin", "cos", "tan", "tanh", "isfinite"):
                v = float(a.reshape(-1)[0])
                close(op + " of a number", F(f(v)), float(ref(v)), rtol=1e-13, sig=f"value:{op}")
        if op == "copy":
            r = gnp.copy(ga)
            r[(0,) * a.ndim] = 99.0
            r2 = gnp.array(ga)
            r2[(0,) * a.ndim] = 98.0
            same_val("argument of copy", ga, a)
    elif case["fam"] == "reduce":
        ax, kd = case["axis"], case["keep"]
        tol = dict(rtol=1e-11, atol=1e-12 * max(1.0, np.abs(a).max()) ** (2 if "var" in op else 1))
        if op in ("sum", "mean", "prod", "min", "max"):
            kw = {} if ax is None else {"axis": ax, "keepdims": kd}
            same_val(op, f(ga, **kw), getattr(np, op)(a, **kw), **tol)
        elif op in ("std", "var", "std1", "var1"):
            kw = {"keepdims": kd} if ax is None else {"axis": ax, "keepdims": kd}
            dd = int(op.endswith("1"))
            cnt = a.size if ax is None else a.shape[ax]
            if dd and cnt < 2:
                return
            g = getattr(gnp, op[:3])
            same_val(op, g(ga, ddof=dd, **kw) if dd or kd else g(ga, **kw), getattr(np, op[:3])(a, ddof=dd, **kw), rtol=1e-7, atol=tol["atol"])
        elif op in ("all", "any"):
            kw = {} if ax is None else {"axis": ax}
            same_val(op, f(ga > 0, **kw), getattr(np, op)(a > 0, **kw))
        elif op in ("argmin", "argmax"):
            got = N(f(ga, axis=ax)) if ax is not None else N(f(ga))
            if ax is None:
                fl = a.reshape(-1)
                check(fl[int(got)] == getattr(np, op[3:])(fl), f"{op} points to {fl[int(got)]}", f"value:{op}")
            else:
                check(got.shape == getattr(np, op)(a, axis=ax).shape, f"{op}: shape {got.shape}", f"value:{op}")
                v = np.take_along_axis(a, np.expand_dims(got, ax), axis=ax)
                close(op, v, getattr(np, op[3:])(a, axis=ax, keepdims=True), sig=f"value:{op}")
        elif op == "unique":
            same_val(op, f(ga), np.unique(a))
            if a.ndim > 1:
                same_val("unique rows", f(ga, axis=0), np.unique(a, axis=0))
        elif op in ("cumsum", "diff", "sort"):
            ax = -1 if ax is None else ax
            if op == "diff" and a.shape[ax] < 2:
                return
            same_val(op, f(ga, axis=ax), getattr(np, op)(a, axis=ax), **tol)
        elif op == "norm":
            if ax is None:
                same_val("norm", gnp.norm(ga.reshape(-1), ord=case["ord"]), np.linalg.norm(a.reshape(-1), ord=case["ord"]), rtol=1e-11)
            else:
                same_val("norm", gnp.norm(ga, axis=ax, ord=case["ord"]), np.linalg.norm(a, axis=ax, ord=case["ord"]), rtol=1e-11)
        elif op == "percentile":
            kw = {} if ax is None else {"axis": ax, "keepdims": kd}
            same_val(op, f(ga, case["q"], **kw), np.percentile(a, case["q"], **kw), rtol=1e-10, atol=1e-10 * max(1, np.abs(a).max()))
    else:
        b = mk(case["b2"] if op in ("maximum", "minimum", "where", "isclose") else case["b"])
        if case["same"] and a.shape == b.shape:
            b = a.copy()
        gb = A(b)
        if op in ("maximum", "minimum"):
            if case["form"] == "scalar":
                same_val(op, f(ga, case["hi"]), getattr(np, op)(a, case["hi"]))
            else:
                same_val(op, f(ga, gb), getattr(np, op)(a, b))
        elif op == "clip":
            if case["form"] == "scalar":
                same_val(op, f(ga, case["lo"], case["hi"]), np.clip(a, case["lo"], case["hi"]))
            else:
                same_val(op, f(ga, gb - 1.0, gb + 0.5), np.clip(a, b - 1.0, b + 0.5))
        elif op == "where":
            same_val(op, f(ga > 0, ga, gb), np.where(a > 0, a, b))
        elif op in ("logical_and", "logical_or"):
            same_val(op, f(ga > 0, gb > 1), getattr(np, op)(a > 0, b > 1))
        elif op == "isclose":
            same_val(op, f(ga, gb), np.isclose(a, b))
        else:
            check(bool(f(ga, gb)) == bool(getattr(np, op)(a, b)), f"{op} gives {f(ga, gb)}", f"value:{op}")
        close("second argument", gb, b, sig="mutated")
    close("argument", ga, a, sig="mutated")


def g_sh(draw):
    n, m = integer(draw, 1, 4), integer(draw, 1, 4)
    bnd = sorted({integer(draw, 0, n) for _ in range(integer(draw, 1, 3))})
    return {"a": arr(draw, [n, m]), "b": arr(draw, [n, m]), "k": integer(draw, 1, 3), "l": integer(draw, 1, 3), "ax": pick(draw, 0, 1, -1), "bounds": bnd, "lo": real(draw, -3, 3), "hi": real(draw, -3, 3), "n": integer(draw, 2, 7)}


@PROP.case("shapes", g_sh, quick=200, budget=(15, 120))
def c_sh(case, ctx):
    for op in SHAPE:
        c_sh1(dict(case, op=op))
    a = mk(case["a"])
    ga = A(a)
    # conversions
    same_val("asarray of nested lists", gnp.asarray(a.tolist()), a)
    same_val("asarray of single precision", gnp.asarray(a.astype(np.float32)), a.astype(np.float32).astype(float))
    for src in (a, a.tolist(), ga, (a * 10).astype(int), a.astype(np.float32)):
        for dt in (float, int, bool, np.float64, np.float32, np.int64, np.int32, "float64", "float32", "int64", "int32", "bool"):
            for mkarr in (gnp.asarray, gnp.array):
                got = N(mkarr(src, dtype=dt))
                want = N(src).astype(dt)
                check(got.dtype == want.dtype and np.array_equal(got, want), f"conversion to {dt}: {got.dtype} {got.tolist()}, expected {want.tolist()}", "value:dtype")
    check(gnp.isarray(ga) and isinstance(gnp.to_np(ga), np.ndarray), "conversion to NumPy", "value:to_np")
    same_val("to_np", gnp.to_np(ga), a)
    check(float(gnp.to_scalar(ga[0, 0])) == a[0, 0] and gnp.to_scalar(2.5) == 2.5, "to_scalar", "value:to_scalar")
    close("asint", gnp.asint(ga * 10), (a * 10).astype(int), sig="value:asint")
    ctx.nontrivial(len(case["a"]["v"]) > 1)


def c_sh1(case):
    op = case["op"]
    a, b = mk(case["a"]), mk(case["b"])
    ga, gb = A(a), A(b)
    ax, k, l = case["ax"], case["k"], case["l"]
    lo, hi, n = case["lo"], case["hi"], case["n"]
    if op == "reshape":
        same_val(op, gnp.reshape(ga, (a.shape[1], a.shape[0])), a.reshape(a.shape[1], a.shape[0]))
    elif op in ("hstack", "vstack"):
        same_val(op, getattr(gnp, op)((ga, gb)), getattr(np, op)((a, b)))
        same_val(op + " of vectors", getattr(gnp, op)((ga[0], gb[0])), getattr(np, op)((a[0], b[0])))
    elif op in ("stack", "concatenate"):
        same_val(op, getattr(gnp, op)((ga, gb), axis=ax), getattr(np, op)((a, b), axis=ax))
    elif op == "tile":
        same_val(op, gnp.tile(ga, (k, l)), np.tile(a, (k, l)))
    elif op == "expand_dims":
        same_val(op, gnp.expand_dims(ga, ax), np.expand_dims(a, ax))
    elif op == "transpose":
        same_val(op, gnp.transpose(ga, 0, 1), a.T)
    elif op == "split":
        bd = [v for v in case["bounds"] if v > 0]
        if not bd or sum(bd) == len(a):  # read as sizes by one of the libraries
            return
        got, want = gnp.split(ga, bd), np.split(a, bd)
        check(len(got) == len(want), f"split gives {len(got)} parts, expected {len(want)}", "value:split")
        for u, v in zip(got, want):
            same_val(op, u, v)
    elif op == "meshgrid":
        for u, v in zip(gnp.meshgrid(ga[0], gb[:, 0], indexing="ij"), np.meshgrid(a[0], b[:, 0], indexing="ij")):
            same_val(op, u, v)
    elif op == "diag":
        same_val(op, gnp.diag(ga[0]), np.diag(a[0]))
        same_val("diagonal", gnp.diag(ga), np.diag(a))
    elif op == "full":
        same_val(op, gnp.full((k, l), lo), np.full((k, l), lo))
        same_val("zeros", gnp.zeros((k, l)), np.zeros((k, l)))
        same_val("ones", gnp.ones((k, l)), np.ones((k, l)))
    elif op == "full_like":
        same_val(op, gnp.full_like(ga, lo), np.full_like(a, lo))
    elif op == "eye":
        same_val(op, gnp.eye(k), np.eye(k))
        same_val(op, gnp.eye(k, l), np.eye(k, l))
    elif op in ("linspace", "logspace"):
        same_val(op, getattr(gnp, op)(lo, hi, n), getattr(np, op)(lo, hi, n), rtol=1e-12)
    elif op == "arange":
        check(N(gnp.arange(n)).tolist() == list(range(n)), "arange", "value:arange")
        same_val(op, gnp.arange(lo, lo + n, 0.75), np.arange(lo, lo + n, 0.75))
    close("argument", ga, a, sig="mutated")


def g_mat(draw):
    n, m, k = integer(draw, 1, 5), integer(draw, 1, 4), integer(draw, 1, 3)
    return {"a": arr(draw, [n, n]), "b": arr(draw, [n, k]), "c": arr(draw, [n, m]), "lower": chance(draw, 1, 2), "trans": pick(draw, 0, 1, "T", "N", 2), "unit": chance(draw, 1, 4), "eig": real(draw, -2, 2), "s": pick(draw, 1.0, 1e4, 1e-4), "rowvar": chance(draw, 1, 2)}


@PROP.case("matrices", g_mat, quick=250, budget=(20, 160))
def c_mat(case, ctx):
    for op in MATRIX:
        c_mat1(dict(case, op=op))
    ctx.nontrivial(case["a"]["shape"][0] > 1)


def c_mat1(case):
    op = case["op"]
    a, b, c = mk(case["a"]), mk(case["b"]), mk(case["c"])
    n = len(a)
    S = case["s"] * (a @ a.T / n + 10.0 ** case["eig"] * np.eye(n))
    if np.linalg.cond(S) > 1e6:
        return
    ga, gb, gc, gS = A(a), A(b), A(c), A(S)
    tol = dict(rtol=1e-9, atol=1e-9)
    tri = np.tril(a) if case["lower"] else np.triu(a)
    tri = tri + np.diag(np.sign(np.diag(tri) + 1e-9) * 2.0)
    if op == "matmul":
        same_val(op, gnp.matmul(ga, gb), a @ b, atol=1e-12)
    elif op == "inner":
        same_val(op, gnp.inner(ga[0], ga[-1]), float(a[0] @ a[-1]), atol=1e-12)
    elif op == "einsum":
        same_val(op, gnp.einsum("ij,ik->jk", gb, gc), np.einsum("ij,ik->jk", b, c), atol=1e-12)
    elif op == "trace":
        same_val(op, gnp.trace(ga), np.trace(a), atol=1e-12)
    elif op in ("cov", "cov0"):
        if (c.shape[1] if case["rowvar"] else n) < 2:
            return
        for kw in [{"bias": True}, {"ddof": 0}, {"bias": True, "ddof": 1}] if op == "cov0" else [{}, {"ddof": 1}, {"ddof": 0, "bias": False}]:
            want = np.cov(c, rowvar=case["rowvar"], **kw)
            got = gnp.cov(gc, rowvar=case["rowvar"], **kw)
            if np.ndim(want):
                same_val(op, got, want, atol=1e-12)
            else:
                close(op, F(got), float(want), atol=1e-12)
            y = c[::-1] * 1.5 + 0.3
            same_val(op + " of two sets", gnp.cov(gc, A(y.copy()), rowvar=case["rowvar"], **kw), np.cov(c, y, rowvar=case["rowvar"], **kw), atol=1e-12)
    elif op == "inv":
        close(op, N(gnp.inv(gS)) @ S, np.eye(n), atol=1e-7)
    elif op == "cholesky_inv":
        close(op, N(gnp.cholesky_inv(gS)) @ S, np.eye(n), atol=1e-7)
    elif op == "cholesky":
        L = gnp.cholesky(gS)
        same_val(op, L, np.linalg.cholesky(S), rtol=1e-7, atol=1e-9 * math.sqrt(case["s"]))
        bad = S - 2 * np.linalg.eigvalsh(S)[-1] * np.eye(n)
        check(raises(lambda: gnp.cholesky(A(bad))), "a matrix that is not positive definite has a Cholesky factor", "value:cholesky-fail")
    elif op == "solve":
        close(op, N(gnp.solve(gS, gb)), np.linalg.solve(S, b), rtol=1e-7, atol=1e-7 / case["s"], sig="value:solve")
        close(op, N(gnp.solve(gS, gb[:, 0])), np.linalg.solve(S, b[:, 0]), rtol=1e-7, atol=1e-7 / case["s"], sig="value:solve")
    elif op == "solve_triangular":
        t = case["trans"]
        if np.linalg.cond(np.where(np.eye(n) > 0, 1.0, tri) if case["unit"] else tri) > 1e5:
            return
        x = N(gnp.solve_triangular(A(tri), gb, trans=t, lower=case["lower"], unit_diagonal=case["unit"]))
        want = sl.solve_triangular(tri, b, trans=t, lower=case["lower"], unit_diagonal=case["unit"])
        close(op, x, want, rtol=1e-7, atol=1e-8 * max(1, np.abs(want).max()), sig="value:solve_triangular")
    elif op == "cho":
        f = gnp.cho_factor(gS, lower=case["lower"])
        close("cho_solve", gnp.cho_solve(f, gb), np.linalg.solve(S, b), rtol=1e-7, atol=1e-7 / case["s"], sig="value:cho_solve")
    elif op == "cholesky_solve":
        x, L = gnp.cholesky_solve(gS, gb)
        close(op, x, np.linalg.solve(S, b), rtol=1e-7, atol=1e-7 / case["s"], sig="value:cholesky_solve")
        close("factor", L, np.linalg.cholesky(S), rtol=1e-7, atol=1e-9 * math.sqrt(case["s"]))
        x1 = N(gnp.cholesky_solve(gS, gb[:, 0])[0]).reshape(-1)
        close(op, x1, np.linalg.solve(S, b[:, 0]), rtol=1e-7, atol=1e-7 / case["s"], sig="value:cholesky_solve")
    elif op == "logdet":
        close(op, F(gnp.logdet(gS)), np.linalg.slogdet(S)[1], rtol=1e-10, atol=1e-9)
        # no logarithm exists for a determinant that is not positive: refused, or not finite
        for nm, M in (("negative", np.diag([-1.0] + [1.0] * (n - 1)) @ S), ("zero", np.diag([0.0] + [1.0] * (n - 1)))):
            try:
                v = F(gnp.logdet(A(M)))
            except ValueError:
                continue
            check(not math.isfinite(v), f"logarithm {v!r} of a determinant that is {nm}", "logdet:nonpositive")
    elif op == "svd":
        U, s, V = gnp.svd(gc, full_matrices=False)
        U, s, V = N(U), N(s), N(V)
        close("singular values", s, np.linalg.svd(c, compute_uv=False), atol=1e-10)
        close("product of the factors", U * s @ V, c, atol=1e-10)
    elif op in ("qr", "qr_complete"):
        Q, R = gnp.qr(gc) if op == "qr" else gnp.qr(gc, "complete")
        Q, R = N(Q), N(R)
        shape("Q", Q, (n, min(n, c.shape[1]) if op == "qr" else n))
        close("Q R", Q @ R, c, atol=1e-10)
        close("Q'Q", Q.T @ Q, np.eye(Q.shape[1]), atol=1e-10)
        close("lower part of R", np.tril(R, -1), np.zeros_like(R), atol=1e-12)
    elif op == "cond":
        close(op, F(gnp.cond(gS)), np.linalg.cond(S), rtol=1e-5)
    for nm, g, w in (("A", ga, a), ("B", gb, b), ("C", gc, c), ("S", gS, S)):
        close(f"argument {nm}", g, w, sig="mutated")


def g_den(draw):
    n, d = integer(draw, 1, 4), integer(draw, 1, 3)
    return {"x": arr(draw, [n, d]), "xw": arr(draw, [n, d], "wide"), "wide": chance(draw, 1, 3), "loc": reals(draw, d, -2, 2), "sc": reals(draw, d, 0.1, 3), "form": pick(draw, "array", "default", "scalar"), "a": arr(draw, [d, d]), "far": chance(draw, 1, 4)}


@PROP.case("gaussian-densities", g_den, quick=250, budget=(20, 150))
def c_den(case, ctx):
    for op in DENS:
        c_den1(dict(case, op=op))
    ctx.nontrivial(len(case["x"]["v"]) > 1)


def c_den1(case):
    op = case["op"]
    x = mk(case["xw"] if case["wide"] and op.startswith("normal") else case["x"])
    loc, sc = np.array(case["loc"]), np.array(case["sc"])
    d = x.shape[1]
    fam, _, f = op.partition(".")
    if fam == "normal":
        if case["far"]:
            x = x * 12.0
        fn, rf = getattr(gnp.normal, f), getattr(stats.norm, f)
        if case["form"] == "default":
            got, want = fn(A(x)), rf(x)
            t = x
        elif case["form"] == "scalar":
            got, want = fn(A(x), float(loc[0]), float(sc[0])), rf(x, loc[0], sc[0])
            t = (x - loc[0]) / sc[0]
        else:
            got, want = fn(A(x), loc=A(loc), scale=A(sc)), rf(x, loc, sc)
            t = (x - loc) / sc
        rt = 1e-10 if f != "cdf" else 1e-9
        with np.errstate(over="ignore", invalid="ignore"):
            slack = np.where(f == "pdf", np.abs(want) * 1e-14 * t**2, 0.0)
        close(op, got, want, rtol=rt, atol=np.max(slack) + 1e-300 if f == "pdf" else (1e-15 if f == "cdf" else 1e-10), sig=f"value:{op}")
    else:
        a = mk(case["a"])
        C = a @ a.T + 0.2 * np.eye(d)
        if fam == "mvn1":
            m, v = float(loc[0]), float(sc[0])
            xx = x[:, 0]
            got = getattr(gnp.multivariate_normal, f)(A(xx), m, v)
            want = getattr(stats.norm, f)(xx, m, math.sqrt(v))
            close(op, N(got).reshape(-1), want, rtol=1e-9, atol=1e-12, sig=f"value:{op}")
            got = getattr(gnp.multivariate_normal, f)(A(xx))
            close(f"{op} by default", N(got).reshape(-1), getattr(stats.norm, f)(xx), rtol=1e-9, atol=1e-12, sig=f"value:{op}")
        elif d > 1 and (f == "logpdf" or len(x) <= 3):
            mean = A(loc) if case["form"] == "array" else (0.0 if case["form"] == "default" else float(loc[0]))
            mref = loc if case["form"] == "array" else np.full(d, 0.0 if case["form"] == "default" else loc[0])
            got = getattr(gnp.multivariate_normal, f)(A(x), cov=A(C)) if case["form"] == "default" else getattr(gnp.multivariate_normal, f)(A(x), mean, A(C))
            if f == "logpdf":
                r = x - mref
                want = -0.5 * np.einsum("ij,ij->i", r, np.linalg.solve(C, r.T).T) - 0.5 * np.linalg.slogdet(2 * math.pi * C)[1]
                close(op, N(got).reshape(-1), want, rtol=1e-8, atol=1e-8, sig=f"value:{op}")
            else:
                want = [stats.multivariate_normal.cdf(r, mean=mref, cov=C) for r in x]
                close(op, N(got).reshape(-1), want, atol=2e-4, sig=f"value:{op}")


def g_dist(draw):
    d, n, m = integer(draw, 1, 4), integer(draw, 1, 5), integer(draw, 1, 5)
    return {"x": arr(draw, [n, d]), "y": arr(draw, [m, d]), "l": reals(draw, d, -2, 2), "dup": chance(draw, 1, 3), "off": pick(draw, 0.0, 100.0)}


@PROP.case("distances-and-derivatives", g_dist, quick=500, budget=(15, 120))
def c_dist(case, ctx):
    x, y, l = mk(case["x"]) + case["off"], mk(case["y"]) + case["off"], np.array(case["l"])
    if case["dup"]:
        y[0] = x[0]
    w = np.exp(l)
    gx, gy, gl = A(x), A(y), A(l)
    want = cdist(w * x, w * y)
    r = np.max(np.abs(w * (np.vstack([x, y]) - x.mean(0))))
    slack = 1e-12 + math.sqrt(1e-15 * 40 * max(r, 1) ** 2) * (ctx.backend == "torch")

    def near(name, got, want):
        close(name, N(got) ** 2, want**2, rtol=1e-11, atol=slack**2 + 1e-12 * (1 + case["off"]) ** 2 * (want.max() if want.size else 0), sig=f"value:{name}")

    near("scaled_distance", gnp.scaled_distance(gl, gx, gy), want)
    near("cdist", gnp.cdist(gx, gy), cdist(x, y))
    D = N(gnp.scaled_distance(gl, gx, gx))
    near("scaled_distance to itself", D, cdist(w * x, w * x))
    check(np.all(np.diag(D) == 0), "a point is not at distance zero of itself", "value:diag")
    k = min(len(x), len(y))
    close("scaled_distance_elementwise", gnp.scaled_distance_elementwise(gl, gx[:k], gy[:k]), np.sqrt(np.sum((w * (x[:k] - y[:k])) ** 2, axis=1)), rtol=1e-11, atol=1e-12 * (1 + case["off"]))
    close("scaled_distance_elementwise", gnp.scaled_distance_elementwise(gl, gx, None), np.zeros(len(x)))
    # derivatives of a smooth scalar function
    c = 0.3 * l

    def f(t):
        return gnp.sum(gnp.sin(t * A(w[: len(l)]) * 0.3)) + gnp.sum(t * t) * 0.5

    fv = float(np.sum(np.sin(c * w * 0.3)) + 0.5 * c @ c)
    g = np.cos(c * w * 0.3) * w * 0.3 + c
    gc = A(c)
    v, gr = gnp.value_and_grad(f, gc)
    close("value_and_grad value", F(v), fv, rtol=1e-11, atol=1e-12)
    close("value_and_grad gradient", gr, g, rtol=1e-7, atol=1e-7)
    close("grad", gnp.grad(f)(gc), g, rtol=1e-7, atol=1e-7)
    close("argument", gc, c, sig="mutated")
    close("derivative_finite_diff", F(gnp.derivative_finite_diff(lambda t: gnp.sin(gnp.asarray(t)), float(c[0]), 1e-3)), math.cos(c[0]), rtol=1e-8, atol=1e-9)
    if ctx.backend == "torch":
        so = gnp.SecondOrderDifferentiableFunction(f)
        close("second-order value", F(so.evaluate(gc)), fv, rtol=1e-11, atol=1e-12)
        close("second-order gradient", so.gradient(), g, rtol=1e-10, atol=1e-10)
        close("Hessian", so.hessian(), np.diag(-np.sin(c * w * 0.3) * (w * 0.3) ** 2 + 1), rtol=1e-9, atol=1e-9)
    close("argument", gx, x, sig="mutated")
    ctx.nontrivial(len(x) > 1 and len(y) > 1)


def g_gam(draw):
    return {"ps": draw(st.lists(st.integers(0, 12), min_size=1, max_size=6)), "clear": draw(st.lists(st.booleans(), min_size=6, max_size=6))}


@PROP.case("gammaln-table", g_gam, quick=250, budget=(8, 60))
def c_gam(case, ctx):
    for p, c in zip(case["ps"], case["clear"]):
        if c:
            gp.config.clear_caches()
        t = gnp.compute_gammaln(p)
        shape("gammaln table", t, (2 * p + 2,))
        close("gammaln table", t, special.gammaln(np.arange(2 * p + 2)), rtol=1e-13)
    ctx.nontrivial(len(set(case["ps"])) > 1)


# ------------------------------------------------------------------ random
def g_rnd(draw):
    d = integer(draw, 2, 3)
    return {"seed": integer(draw, 0, 10**6), "a": arr(draw, [d, d]), "m": reals(draw, d), "p": reals(draw, 4, 0.05, 1), "k": integer(draw, 1, 4)}


@PROP.case("random-laws", g_rnd, quick=12, thorough=80, budget=(25, 150))
def c_rnd(case, ctx):
    for op in ("rvs", "rand", "randn", "choice", "choice_p", "choice_norep", "permutation", "rvs1"):
        one_rnd(dict(case, op=op))
    ctx.nontrivial(True)


def one_rnd(case):
    op = case["op"]
    gnp.set_seed(case["seed"])
    al = 1e-10
    n = 2000

    def uniform_check(name, u):
        p = stats.kstest(u, "uniform").pvalue
        check(p > al, f"{name} does not have the stated law (p = {p:.2e})", f"law:{op}")

    def counts_check(name, obs, pr):
        obs, pr = np.asarray(obs, float), np.asarray(pr, float)
        p = stats.chisquare(obs, obs.sum() * pr / pr.sum()).pvalue
        check(p > al, f"{name}: counts {obs.tolist()} for probabilities {(pr / pr.sum()).round(3).tolist()} (p = {p:.2e})", f"law:{op}")

    if op == "rand":
        u = N(gnp.rand(n // 2, 2))
        shape("rand", u, (n // 2, 2))
        check(u.min() >= 0 and u.max() < 1, "rand leaves [0, 1)", f"law:{op}")
        uniform_check("rand", u.reshape(-1))
    elif op == "randn":
        u = N(gnp.randn(n // 4, 4))
        shape("randn", u, (n // 4, 4))
        uniform_check("randn", stats.norm.cdf(u.reshape(-1)))
    elif op == "rvs1":
        m, v = case["m"][0], case["p"][0]
        u = N(gnp.multivariate_normal.rvs(m, v, n)).reshape(-1)
        shape("rvs", u, (n,))
        uniform_check("scalar rvs", stats.norm.cdf(u, m, math.sqrt(v)))
    elif op == "rvs":
        a, m = mk(case["a"]), np.array(case["m"])
        C = a @ a.T + 0.3 * np.eye(len(m))
        u = N(gnp.multivariate_normal.rvs(A(m), A(C), n))
        shape("rvs", u, (n, len(m)))
        t = np.linalg.solve(np.linalg.cholesky(C), (u - m).T)
        for row in t:
            uniform_check("whitened rvs", stats.norm.cdf(row))
        r2 = (t**2).sum(0)
        uniform_check("rvs distance", stats.chi2.cdf(r2, len(m)))
        uniform_check("rvs sum", stats.norm.cdf(t.sum(0) / math.sqrt(len(m))))
    elif op == "choice":
        u = N(gnp.choice(5, size=n)).astype(int)
        check(u.shape == (n,) and u.min() >= 0 and u.max() < 5, "choice leaves the set", f"law:{op}")
        counts_check("choice", np.bincount(u, minlength=5), np.ones(5))
    elif op == "choice_p":
        u = N(gnp.choice(4, size=n, p=np.array(case["p"]) / sum(case["p"]))).astype(int)
        counts_check("choice with weights", np.bincount(u, minlength=4), case["p"])
    elif op == "choice_norep":
        k = case["k"]
        c = np.zeros(5)
        for _ in range(400):
            u = N(gnp.choice(5, size=k, replace=False)).astype(int)
            check(len(set(u.tolist())) == k == len(u), "a choice without replacement repeats an element", f"law:{op}")
            c[u[0]] += 1
        counts_check("first choice", c, np.ones(5))
    else:
        c = np.zeros((4, 4))
        for _ in range(400):
            u = N(gnp.permutation(4)).astype(int)
            check(sorted(u.tolist()) == [0, 1, 2, 3], f"permutation(4) gives {u.tolist()}", f"law:{op}")
            c[np.arange(4), u] += 1
        for r in c:
            counts_check("permutation", r, np.ones(4))
        v = gnp.permutation(A([1.5, 2.5, 3.5]))
        check(sorted(N(v).tolist()) == [1.5, 2.5, 3.5], "permutation of an array", f"law:{op}")
