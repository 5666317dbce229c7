"""P13: mini-batch criteria aggregate exactly the batches they visit."""
import math

import numpy as np

from vf.core import Prop, st
from vf.util import (
    A, F, N, check, chance, close, gnp, gp, gp_case, integer, make_model, pick, raises, real, reals, same, shape,
)

PROP = Prop(
    "P13",
    rule="at least two evaluations over a loader with at least two batches, or uneven batches",
    assumptions=[
        "the expected batches come from an independent loader of the same kind iterated by hand; loaders themselves are decided by P12",
        "the cached gradient belongs to the latest gradient-enabled evaluation (mini-batch gradients ignore their argument by design)",
        "gradients of mini-batch criteria exist on the PyTorch backend only",
    ],
)


def data(case):
    n, d = case["n"], case["d"]
    i = np.arange(n, dtype=float)
    x = np.stack([i] + [np.sin((j + 2) * i) for j in range(d - 1)], axis=1)
    z = np.cos(1.7 * i) + 0.1 * i
    return x, z


def crit_np(p, xb, zb):
    """value and gradient of the per-batch criterion."""
    u = zb - p[0] - p[1] * xb[:, 0]
    s = math.exp(p[2])
    v = float(np.mean(u * u) * s + 0.1 * p[1] ** 2 + len(xb) * p[0])
    g = np.array([np.mean(-2 * u) * s + len(xb), np.mean(-2 * u * xb[:, 0]) * s + 0.2 * p[1], np.mean(u * u) * s])
    return v, g


def crit_gnp(p, xb, zb):
    u = zb - p[0] - p[1] * xb[:, 0]
    return gnp.mean(u * u) * gnp.exp(p[2]) + 0.1 * p[1] ** 2 + xb.shape[0] * p[0]


def g_seq(draw):
    n = integer(draw, 1, 13)
    return {
        "n": n, "d": integer(draw, 1, 2), "bs": pick(draw, 3, 2, 5, 1, n, n + 2, None), "shards": chance(draw, 1, 3),
        "shuffle": chance(draw, 1, 3), "drop": chance(draw, 1, 4), "infinite": chance(draw, 1, 5),
        "bpe": pick(draw, 2, 0, 1, 3, 7), "red": pick(draw, "mean", "sum"), "seed": pick(draw, 4, 0, 11),
        "ops": draw(st.lists(st.tuples(st.sampled_from(["pre", "no", "ev", "grad"]), st.integers(0, 2)), min_size=2, max_size=8)),
        "p": [reals(draw, 3, -1, 1) for _ in range(3)], "wrap": chance(draw, 1, 4), "bad": integer(draw, 0, 3),
    }


@PROP.case("sequences", g_seq, quick=900, budget=(25, 250))
def c_seq(case, ctx):
    n = case["n"]
    x, z = data(case)
    bs = case["bs"] or n
    drop = case["drop"] and n >= bs
    infinite = case["infinite"] and case["bpe"] > 0

    def loader():
        if case["shards"] and n > 1:
            h = n // 2
            ds = gp.dataloader.Dataset([A(x[:h]), A(x[h:])], [A(z[:h]), A(z[h:])])
        else:
            ds = gp.dataloader.Dataset(A(x), A(z))
        return gp.dataloader.DataLoader(ds, batch_size=case["bs"], shuffle=case["shuffle"], drop_last=drop, seed=case["seed"], infinite=infinite)

    seen = []

    def crit(p, xb, zb):
        seen.append((N(xb), N(zb)))
        return crit_gnp(p, xb, zb)

    B = gnp.BatchDifferentiableSelectionCriterion
    red = case["red"]
    if case["wrap"]:
        red = "mean"
        model = make_model({"type": "zero"}, 1, None)
        ev, pre, no, gr = gp.kernel.make_selection_criterion_with_gradient(
            model, lambda m, p, xb, zb: crit(p, xb, zb), dataloader=loader(), batches_per_eval=case["bpe"]
        )
        ctx.tag("wrapper")
    else:
        c = B(crit, loader(), reduction=red, batches_per_eval=case["bpe"])
        ev, pre, no, gr = c.evaluate, c.evaluate_pre_grad, c.evaluate_no_grad, c.gradient
        check(raises(lambda: B(crit, loader(), reduction="median"), ValueError), "unknown reduction accepted", "accept")
        check(raises(lambda: B(crit, loader(), batches_per_eval=-1), ValueError), "negative number of batches accepted", "accept")
    # reference stream of batches
    ref = loader()
    it = [iter(ref)]

    def expected():
        if case["bpe"] == 0:
            return [(N(a), N(b)) for a, b in ref]
        out = []
        for _ in range(case["bpe"]):
            try:
                a, b = next(it[0])
            except StopIteration:
                it[0] = iter(ref)
                a, b = next(it[0])
            out.append((N(a), N(b)))
        return out

    cached, evals, sizes = None, 0, set()
    for op, k in case["ops"]:
        p = np.asarray(case["p"][k])
        if op == "grad":
            if ctx.backend == "numpy":
                check(gr is None, "gradient announced without automatic differentiation", "grad")
                continue
            if cached is None:
                check(raises(lambda: gr(A(p)), RuntimeError), "gradient before any evaluation", "grad")
                continue
            # asked at the point of the evaluation it belongs to
            close("gradient of the same batches", gr(A(cached[0])), cached[1], rtol=1e-9, scale=np.max(np.abs(cached[1])) * 1e-2 + 1e-2, sig="gradient")
            continue
        seen.clear()
        v = F({"ev": ev, "pre": pre, "no": no}[op](A(p)))
        want = expected()
        check(len(seen) == len(want), f"{len(seen)} batches visited, expected {len(want)}", "count")
        for (a, b), (a2, b2) in zip(seen, want):
            same("batch visited (inputs)", a, a2, sig="batches")
            same("batch visited (responses)", b, b2, sig="batches")
        tot = sum(len(a) for a, _ in want)
        vg = [crit_np(p, a, b) for a, b in want]
        w = [len(a) for a, _ in want]
        val = sum(wi * q[0] for wi, q in zip(w, vg))
        g = sum(wi * q[1] for wi, q in zip(w, vg))
        mag = sum(wi * (abs(q[0]) + 1) for wi, q in zip(w, vg))
        if red == "mean":
            val, g, mag = val / tot, g / tot, mag / tot
        close(f"criterion ({red})", v, val, rtol=1e-12, atol=1e-12 * mag, sig="value")
        if op == "pre":
            cached = (p, g)
        evals += 1
        sizes |= set(w)
    ctx.nontrivial(evals >= 2 and (len(want) >= 2 or len(sizes) >= 2))
    ctx.tag("uneven" if len(sizes) > 1 else "even")
    ctx.tag(f"bpe={case['bpe']}")


def g_model(draw):
    c = gp_case(draw, nmin=3, nmax=9, dmax=2, pmax=2, nt=None, scales=(1.0,))
    n = len(c["x"])
    c.update(bs=pick(draw, n, 3, 2, None, n + 1), bpe=pick(draw, 0, 1, 2), other=reals(draw, 3, -0.3, 0.3))
    return c


@PROP.case("likelihoods", g_model, quick=300, budget=(20, 200))
def c_model(case, ctx):
    x, z = np.asarray(case["x"]), np.asarray(case["z"])
    n = len(x)
    k = gp.kernel
    mean = case["mean"]
    model = make_model(mean, case["p"], None)
    pm = mean["type"] == "parameterized"
    q = 1
    if mean["type"] == "linear_predictor":
        from vf import ref

        q = ref.basis(mean["kind"], x).shape[1] + 1
    bs = case["bs"] or n
    if bs < q or 0 < n % bs < q:  # a batch must determine the mean
        bs = n
    crit = {"zero": k.negative_log_likelihood_zero_mean, "parameterized": k.negative_log_likelihood}.get(mean["type"], k.negative_log_restricted_likelihood)
    kw = {"parameterized_mean": True, "meanparam_len": 2} if pm else {}
    th = np.asarray((list(mean["theta"]) if pm else []) + list(case["covparam"]))
    seqs = [(x[i : i + bs], z[i : i + bs]) for i in range(0, n, bs)]

    def arrays(xb, zb):
        return k.make_selection_criterion_with_gradient(model, crit, A(xb), A(zb), **kw)

    per = [arrays(a, b) for a, b in seqs]
    ld = gp.dataloader.DataLoader(gp.dataloader.Dataset(A(x), A(z)), batch_size=bs, shuffle=False)
    f = k.make_selection_criterion_with_gradient(model, crit, dataloader=ld, batches_per_eval=case["bpe"], **kw)
    pos = 0
    for j in range(3):
        p = th + np.asarray((case["other"] + [0.1] * len(th))[: len(th)]) * j
        use = list(range(len(seqs))) if case["bpe"] == 0 else [(pos + i) % len(seqs) for i in range(case["bpe"])]
        pos += case["bpe"]
        w = np.array([len(seqs[i][0]) for i in use], float)
        vals = np.array([F(per[i][1](A(p))) for i in use])
        if not np.all(np.isfinite(vals)):
            return
        close("batch criterion", F(f[1](A(p))), float(w @ vals / w.sum()), rtol=1e-10, scale=np.max(np.abs(vals)), sig="value")
        if ctx.backend == "torch":
            gs = np.array([N(per[i][3](A(p))) for i in use]) if len(set(use)) == len(use) else None
            if gs is None:
                gs = []
                for i in use:
                    per[i][1](A(p))
                    gs.append(N(per[i][3](A(p))))
                gs = np.array(gs)
            want = w @ gs / w.sum()
            close("batch gradient", f[3](A(p)), want, rtol=1e-9, scale=np.max(np.abs(gs)) + 1e-6, sig="gradient")
    if case["bpe"] == 0:
        close("value without gradient", F(f[2](A(p))), F(f[0](A(p))), rtol=1e-12, scale=1.0)
    ctx.nontrivial(len(seqs) >= 2)
    ctx.tag(mean["type"])
    ctx.tag("single full batch" if len(seqs) == 1 else "several")
