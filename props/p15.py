"""P15: parameter containers keep values, names, paths, normalisations and bounds together."""
import math

import numpy as np

from vf.core import Prop, st
from vf.util import A, F, N, check, chance, close, gnp, gp, integer, pick, raises, real, reals, same, shape

from gpmp.parameter import param as gpp

PROP = Prop(
    "P15",
    rule="at least two entries with different normalisations or paths and at least two operations",
    assumptions=[
        "names are unique within a container (lookup by an ambiguous name is not defined)",
        "an unknown path selects nothing; views are only promised for non-empty contiguous selections",
        "bounds are compared on the natural scale, as the bounds check documents",
    ],
)

PATHS = [["covparam", "variance"], ["covparam", "lengthscale"], ["meanparam"], ["covparam"], ["noise", "level"]]
NORMS = ["log", "log_inv", "none"]
PREFIX = PATHS + [[], ["noise"], ["mean"], ["covparam", "x"]]


def nat(v, norm):
    return {"log": math.exp, "log_inv": lambda u: math.exp(-u), "none": float}[norm](v)


def inv(v, norm):
    return {"log": math.log, "log_inv": lambda u: -math.log(u), "none": float}[norm](v)


class Ref:
    """the model: a list of independent entries."""

    def __init__(self, e):
        self.e = [dict(q) for q in e]

    def match(self, path, prefix):
        return [i for i, q in enumerate(self.e) if (q["path"][: len(path)] == path if prefix else q["path"] == path)]


def entry(draw, k):
    b = pick(draw, None, (0.1, 5.0), (-1.0, 0.5), (2.0, 2.5), (-math.inf, 1.0), (0.0, math.inf), (1.5, 1.5))
    v = real(draw, -3, 3)
    ends = [u for u in b or () if math.isfinite(u)]
    if ends and chance(draw, 1, 4):
        v = pick(draw, *ends)  # exactly on a bound
    return {"name": f"e{k}", "path": list(pick(draw, *PATHS)), "norm": pick(draw, *NORMS), "bounds": list(b) if b else None, "v": v}


OPS = ["set_name", "set_path", "set_values", "set_natural", "set_unnorm", "view_name", "view_path", "slice", "take", "int", "concat", "bad"]


def g_seq(draw):
    n = integer(draw, 1, 6)
    return {
        "e": [entry(draw, k) for k in range(n)], "f": [entry(draw, 100 + k) for k in range(integer(draw, 1, 3))],
        "ints": chance(draw, 1, 8), "enum": chance(draw, 1, 2),
        "ops": [
            {
                "op": pick(draw, *OPS), "i": integer(draw, 0, 5), "j": integer(draw, -6, 6), "k": pick(draw, 1, 2, -1),
                "path": list(pick(draw, *PREFIX)), "prefix": chance(draw, 1, 2), "v": reals(draw, 8, -2, 2), "aslist": chance(draw, 1, 2),
            }
            for _ in range(integer(draw, 1, 7))
        ],
    }


def make(e, enum=False, ints=False):
    vals = [int(round(q["v"])) for q in e] if ints else [q["v"] for q in e]
    if ints:
        for q in e:
            q["v"] = float(int(round(q["v"])))
    return gpp.Param(
        values=vals if ints else A(vals), paths=[list(q["path"]) for q in e],
        normalizations=[gpp.Normalization(q["norm"]) if enum else q["norm"] for q in e],
        names=[q["name"] for q in e], bounds=[tuple(q["bounds"]) if q["bounds"] else None for q in e],
    )


def verify(p, m, what):
    """every access path of p shows the entries of m."""
    e = m.e
    n = len(e)
    v = np.array([q["v"] for q in e])
    w = np.array([nat(q["v"], q["norm"]) for q in e])
    check(p.dim == n, f"{what}: {p.dim} entries, expected {n}", "dim")
    close(f"{what}: values", p.values, v, rtol=1e-12, scale=1e-3, sig="values")
    close(f"{what}: natural values", p.denormalized_values, w, rtol=1e-11, scale=1e-3, sig="natural")
    check(list(p.names) == [q["name"] for q in e], f"{what}: names {p.names}", "names")
    check([list(q) for q in p.paths] == [q["path"] for q in e], f"{what}: paths {p.paths}", "paths")
    check([q.value for q in p.normalizations] == [q["norm"] for q in e], f"{what}: normalisations", "norms")
    check([None if b is None else list(b) for b in p.bounds] == [q["bounds"] for q in e], f"{what}: bounds {p.bounds}", "bounds")
    d, sd = p.to_dict(), p.to_simple_dict()
    check(list(d) == list(sd) == [q["name"] for q in e], f"{what}: dictionary keys", "dict")
    for i, q in enumerate(e):
        check(np.ndim(N(p.get_by_name(q["name"]))) == 0, f"{what}: an array is returned by name", "values")
        close(f"{what}: by name", F(p.get_by_name(q["name"])), v[i], rtol=1e-12, scale=1e-3, sig="values")
        z = d[q["name"]]
        close(f"{what}: dictionary value", F(z["value"]), v[i], rtol=1e-12, scale=1e-3, sig="dict")
        close(f"{what}: dictionary natural value", F(z["denormalized"]), w[i], rtol=1e-11, scale=1e-3, sig="dict")
        close(f"{what}: simple dictionary", F(sd[q["name"]]), w[i], rtol=1e-11, scale=1e-3, sig="dict")
        check(list(z["path"]) == q["path"] and z["normalization"] == q["norm"], f"{what}: dictionary entry", "dict")
    got = [bool(b) for b in p.check_bounds()]
    check(len(got) == n, f"{what}: bounds check length", "bounds")
    for i, q in enumerate(e):
        b = q["bounds"]
        if b is None:
            check(got[i], f"{what}: entry without bounds reported outside", "bounds")
        elif min(abs(w[i] - b[0]), abs(w[i] - b[1])) > 1e-9 or q["norm"] == "none":
            check(got[i] == (b[0] <= w[i] <= b[1]), f"{what}: {w[i]} in {b} reported {got[i]}", "bounds")
    for path in PREFIX:
        for prefix in (True, False):
            idx = m.match(path, prefix)
            g = p.get_by_path(path, prefix_match=prefix)
            close(f"{what}: by path", g, v[idx] if idx else np.zeros(0), rtol=1e-12, scale=1e-3, sig="path")
        idx = m.match(path, True)
        check(list(p.indices_by_path_prefix(path)) == idx, f"{what}: indices of {path}", "path")
        check(list(p.names_by_path_prefix(path)) == [e[i]["name"] for i in idx], f"{what}: names of {path}", "path")
        close(f"{what}: selection", p.select_by_path_prefix(path), v[idx] if idx else np.zeros(0), rtol=1e-12, scale=1e-3, sig="path")
        check([list(q) for q in p.get_paths(path)] == [e[i]["path"] for i in idx], f"{what}: paths of {path}", "path")
    check({tuple(q) for q in p.get_paths()} == {tuple(q["path"]) for q in e}, f"{what}: all paths", "path")
    txt = repr(p)
    for q in e:
        check(q["name"] + ":" in txt, f"{what}: {q['name']} missing from the display", "repr")
    check(n == 0 or len(txt.splitlines()) == n + 1, f"{what}: display has {len(txt.splitlines())} lines", "repr")


@PROP.case("operations", g_seq, quick=400, thorough=4000, budget=(30, 250))
def c_seq(case, ctx):
    m = Ref(case["e"])
    p = make(m.e, case["enum"], case["ints"])
    verify(p, m, "new")
    frozen = []  # (container, model) pairs that later operations must not change
    for o in case["ops"]:
        op, n = o["op"], len(m.e)
        i = o["i"] % max(n, 1)
        v = o["v"]
        give = (lambda u: list(u)) if o["aslist"] else A
        if n == 0 and op not in ("concat", "bad"):
            continue
        if op == "set_name":
            p.set_by_name(m.e[i]["name"], v[0])
            m.e[i]["v"] = v[0]
        elif op == "set_path":
            idx = m.match(o["path"], o["prefix"])
            new = (v * 3)[: len(idx)]
            p.set_by_path(o["path"], give(new), prefix_match=o["prefix"])
            for k, u in zip(idx, new):
                m.e[k]["v"] = u
        elif op == "set_values":
            new = [v[k % 8] + 0.1 * k for k in range(n)]
            p.values = give(new)
            for q, u in zip(m.e, new):
                q["v"] = u
        elif op == "set_natural":
            new = [math.exp(v[k % 8]) + 0.1 * k for k in range(n)]
            p.denormalized_values = give(new)
            for q, u in zip(m.e, new):
                q["v"] = inv(u, q["norm"])
            close("natural values read back", p.denormalized_values, new, rtol=1e-12, sig="natural")
        elif op == "set_unnorm":
            k = (i + 1) % n
            new = {m.e[i]["name"]: math.exp(v[0]), m.e[k]["name"]: math.exp(v[1])}
            p.set_from_unnormalized(**new)
            for q in m.e:
                if q["name"] in new:
                    q["v"] = inv(new[q["name"]], q["norm"])
        elif op == "view_name":
            w = p.get_by_name(m.e[i]["name"], return_view=True)
            shape("view of one entry", w, (1,))
            w[0] = v[0]
            m.e[i]["v"] = v[0]
        elif op == "view_path":
            idx = m.match(o["path"], o["prefix"])
            if idx and idx == list(range(idx[0], idx[-1] + 1)):
                w = p.get_by_path(o["path"], prefix_match=o["prefix"], return_view=True)
                shape("view of a block", w, (len(idx),))
                w[-1] = v[0]
                m.e[idx[-1]]["v"] = v[0]
                ctx.tag("view written")
            elif idx:
                check(raises(lambda: p.get_by_path(o["path"], prefix_match=o["prefix"], return_view=True), ValueError), "view of a scattered selection", "accept")
            c = p.get_by_path(o["path"], prefix_match=o["prefix"])
            if len(N(c)):
                c[0] = 77.0  # a copy: must not reach the container
        elif op in ("slice", "take", "int"):
            if op == "slice":
                key = slice(o["j"], None, o["k"]) if o["prefix"] else slice(None, o["j"], o["k"])
                idx = list(range(n))[key]
            elif op == "take":
                idx = [(i + 2 * k) % n for k in range(min(n, 2))]
                idx = list(dict.fromkeys(idx))
                key = list(idx)
            else:
                key, idx = i, [i]
            sub = p[key]
            ms = Ref([m.e[k] for k in idx])
            verify(sub, ms, f"selection {key}")
            if idx:
                frozen.append((p, Ref(m.e)))
                if o["aslist"]:
                    sub.set_by_name(ms.e[0]["name"], v[1])
                    ms.e[0]["v"] = v[1]
                    verify(frozen[-1][0], frozen[-1][1], "container a selection was taken from")
                p, m = sub, ms
        elif op == "concat":
            used = {q["name"] for q in m.e}
            add = Ref([dict(q, name=f"{q['name']}_{len(frozen)}_{len(used)}") for q in case["f"]])
            r = make(add.e)
            s = (p + r) if o["prefix"] else gpp.Param.concat(p, r)
            frozen += [(p, Ref(m.e)), (r, Ref(add.e))]
            p, m = s, Ref(m.e + add.e)
        elif op == "bad":
            check(raises(lambda: p.get_by_name("nobody"), ValueError, KeyError), "unknown name read", "accept")
            check(raises(lambda: p.set_by_name("nobody", 1.0), ValueError, KeyError), "unknown name written", "accept")
            check(raises(lambda: p.set_from_unnormalized(nobody=1.0), ValueError, KeyError), "unknown name written", "accept")
            k = len(m.match(o["path"], o["prefix"]))
            check(raises(lambda: p.set_by_path(o["path"], give(v[: 1] * (k + 1)), prefix_match=o["prefix"]), ValueError), "too many values accepted", "accept")
            if k:
                check(raises(lambda: p.set_by_path(o["path"], give(v[: 1] * (k - 1)), prefix_match=o["prefix"]), ValueError), "too few values accepted", "accept")
            for bad in (n + 1, n - 1):
                if bad >= 0:
                    check(raises(lambda: setattr(p, "values", A([0.5] * bad)), ValueError), "values of another length accepted", "accept")
                    check(raises(lambda: setattr(p, "denormalized_values", A([0.5] * bad)), ValueError), "values of another length accepted", "accept")
            check(raises(lambda: gpp.Param(values=A([1.0, 2.0]), names=["a"]), ValueError), "inconsistent lengths accepted", "accept")
            check(raises(lambda: gpp.Param(values=A([1.0]), bounds=[None, None]), ValueError), "inconsistent lengths accepted", "accept")
            check(raises(lambda: gpp.Param(values=A([1.0]), normalizations=["sqrt"]), ValueError), "unknown normalisation accepted", "accept")
        verify(p, m, f"after {op}")
        ctx.tag(op)
    for q, mm in frozen:
        verify(q, mm, "earlier container")
    ctx.nontrivial(len({(q["norm"], tuple(q["path"])) for q in case["e"]}) >= 2 and len(case["ops"]) >= 2)


def g_fac(draw):
    d = integer(draw, 1, 4)
    return {"d": d, "v": reals(draw, d + 2, -3, 3), "kind": pick(draw, "make", "cov", "noisy", "default", "plain"), "pre": pick(draw, "", "m_"), "b": [chance(draw, 2, 3) for _ in range(3)]}


@PROP.case("factories", g_fac, quick=150, budget=(10, 60))
def c_fac(case, ctx):
    d, k, pre = case["d"], case["kind"], case["pre"]
    b1, b2, b3 = (b if on else None for b, on in zip(((-1.0, 2.0), (-3.0, 0.5), (-9.0, -2.0)), case["b"]))
    v = case["v"]
    names = [pre + "sigma2"] + [f"{pre}rho_{i}" for i in range(d)]
    norms = ["log"] + ["log_inv"] * d
    bnds = [b1] + [b2] * d
    paths = [["covparam", "variance"]] + [["covparam", "lengthscale"]] * d
    if k == "noisy":
        p = gpp.param_from_covparam_anisotropic_noisy(A(v), b1, b3, b2, pre)
        names.insert(1, pre + "sigma2_noise")
        norms.insert(1, "log")
        bnds.insert(1, b3)
        paths.insert(1, ["covparam", "variance"])
        want = v
    elif k == "plain":
        p = gpp.Param(dim=d)
        want, names, norms = [0.0] * d, [f"param_{i}" for i in range(d)], ["none"] * d
        bnds, paths = [None] * d, [["param"]] * d
    elif k == "default":
        p = gpp.make_anisotropic_param(d=d, logsigma2_bounds=b1, loginvrho_bounds=b2, name_prefix=pre)
        want = [0.0] + [-1.0] * d
    else:
        want = v[: d + 1]
        f = gpp.make_anisotropic_param if k == "make" else gpp.param_from_covparam_anisotropic
        if k == "make":
            p = f(values=A(want), logsigma2_bounds=b1, loginvrho_bounds=b2, name_prefix=pre)
        else:
            p = f(A(want), b1, b2, pre)
    close("values", p.values, want, sig="values")
    check(list(p.names) == names, f"names {p.names}", "names")
    check([q.value for q in p.normalizations] == norms, f"normalisations {p.normalizations}", "norms")
    check(list(p.bounds) == bnds, f"bounds {p.bounds}", "bounds")
    check([list(q) for q in p.paths] == paths, f"paths {p.paths}", "paths")
    close("natural values", p.denormalized_values, [nat(a, b) for a, b in zip(want, norms)], rtol=1e-12)
    check(raises(lambda: gpp.make_anisotropic_param(), ValueError), "no dimension accepted", "accept")
    ctx.nontrivial(d >= 2)
