"""P12: datasets, splits and loaders partition the data exactly."""
import math

import numpy as np

from vf.core import Prop, st
from vf.util import A, F, N, check, chance, close, gnp, gp, integer, pick, raises, reals, same, shape

PROP = Prop(
    "P12",
    rule="at least two rows and (for loaders) at least two batches or shards, (for splits) at least two non-empty pieces",
    assumptions=[
        "every row carries a unique identifier in its inputs and a function of it in its responses, so pairing and multiplicity are decided exactly",
        "a seed determines the shuffling; that different epochs shuffle differently is only required for at least 15 rows (chance 1e-12)",
    ],
)


def rows(n, zdim):
    i = np.arange(n, dtype=float)
    x = np.stack([i, np.sin(3 * i), 1.0 / (1 + i)], axis=1)
    z = 10.0 * i + 0.5
    if zdim == 1:
        z = z.reshape(-1, 1)
    elif zdim == 2:
        z = np.stack([z, -z], axis=1)
    return x, z


def build(case, give=A):
    """(dataset, x, z) with the requested sharding."""
    sizes = case["shards"]
    n = sum(sizes)
    x, z = rows(n, case["zdim"])
    xs, zs, s = [], [], 0
    for k in sizes:
        xs.append(give(x[s : s + k]))
        zs.append(give(z[s : s + k]))
        s += k
    if len(sizes) == 1 and case.get("plain", True):
        return gp.dataloader.Dataset(xs[0], zs[0]), x, z
    return gp.dataloader.Dataset(xs, zs), x, z


def ids(xb, zb, x, z, what):
    """identifiers of the rows of a batch, checking pairing."""
    xb, zb = N(xb), N(zb)
    check(xb.ndim == 2 and xb.shape[1] == x.shape[1], f"{what}: input shape {xb.shape}", "shape")
    check(zb.shape == (xb.shape[0],) + z.shape[1:], f"{what}: response shape {zb.shape}", "shape")
    i = np.rint(xb[:, 0]).astype(int)
    check(np.all((i >= 0) & (i < len(x))), f"{what}: unknown rows {i}", "rows")
    same(f"{what}: inputs", xb, x[i])
    same(f"{what}: responses paired with inputs", zb, z[i], sig="pairing")
    return i


def content(ds, x, z, what):
    if len(ds) == 0:
        return np.zeros(0, int)
    return np.concatenate([ids(a, b, x, z, what) for a, b in zip(ds.x_list, ds.z_list)])


def sizes(draw, nmax=14, empty=False):
    k = pick(draw, 1, 2, 3, 4)
    return [integer(draw, 0 if empty and j else 1, max(1, nmax // k)) for j in range(k)]


def g_ds(draw):
    sh = sizes(draw, empty=chance(draw, 1, 4))
    n = sum(sh)
    return {
        "shards": sh, "zdim": integer(draw, 0, 2), "plain": chance(draw, 1, 2), "np": chance(draw, 1, 3),
        "idx": draw(st.lists(st.integers(0, n - 1), max_size=2 * n)), "q": pick(draw, 0.0, 0.25, 0.5, 0.9, 1.0),
    }


@PROP.case("datasets", g_ds, quick=700, budget=(20, 200))
def c_ds(case, ctx):
    ds, x, z = build(case, (lambda a: np.array(a)) if case["np"] else A)
    n = len(x)
    check(len(ds) == n, f"length {len(ds)}, expected {n}", "len")
    for i in list(range(n)) + [-1, -n]:
        a, b = ds[i]
        same(f"item {i}: inputs", a, x[i])
        same(f"item {i}: responses", b, z[i])
    check(raises(lambda: ds[n], IndexError) and raises(lambda: ds[-n - 1], IndexError), "index out of range accepted", "accept")
    same("rows kept in order", content(ds, x, z, "dataset"), np.arange(n))
    sub = ds.subset(gnp.asarray(np.array(case["idx"], dtype=int)))
    check(len(sub) == len(case["idx"]), f"subset has {len(sub)} rows, {len(case['idx'])} requested", "len")
    same("subset", np.sort(content(sub, x, z, "subset")), np.sort(np.array(case["idx"], dtype=int)))
    check(raises(lambda: ds.subset(gnp.asarray(np.zeros((1, 1), dtype=int)))), "2-d indices accepted", "accept")
    same("dataset untouched by subset", content(ds, x, z, "dataset"), np.arange(n))
    if all(k > 0 for k in case["shards"]):
        for nm, arr in (("x", x), ("z", z)):
            for stt, want in (
                ("min", arr.min(0)), ("max", arr.max(0)), ("mean", arr.mean(0)), ("var", arr.var(0)), ("std", arr.std(0)),
                ("median", np.median(arr, axis=0)),
            ):
                got = getattr(ds, f"{nm}_{stt}")()
                close(f"{nm}_{stt}", N(got).reshape(np.shape(want)), want, rtol=1e-12, scale=np.max(np.abs(arr)) * 1e-1)
                ld = gp.dataloader.DataLoader(ds, batch_size=2)
                close(f"dataset_{nm}_{stt}", N(getattr(ld, f"dataset_{nm}_{stt}")()), N(got), rtol=1e-14)
            close(f"{nm}_quantile", N(getattr(ds, f"{nm}_quantile")(case["q"])).reshape(arr.shape[1:]), np.quantile(arr, case["q"], axis=0), rtol=1e-12, scale=np.max(np.abs(arr)))
            check(raises(lambda: getattr(ds, f"{nm}_quantile")(1.2), ValueError), "quantile level outside [0, 1] accepted", "accept")
        ctx.tag("statistics")
    # statistics leave the shards alone
    same("dataset untouched by statistics", content(ds, x, z, "dataset"), np.arange(n))
    repr(ds)
    check(raises(lambda: gp.dataloader.Dataset(A(x), A(np.vstack([x, x])[:, :1])), AssertionError), "different lengths accepted", "accept")
    check(raises(lambda: gp.dataloader.Dataset([A(x), A(x)], [A(z)]), AssertionError), "different shard counts accepted", "accept")
    ctx.nontrivial(n >= 2 and len(case["shards"]) >= 2)


def g_split(draw):
    sh = sizes(draw, nmax=30)
    n = sum(sh)
    r = pick(draw, (0.8, 0.1, 0.1), (0.5, 0.25, 0.25), (1.0, 0.0, 0.0), (0.0, 0.0, 1.0), (0.6, 0.4, 0.0), (0.7, 0.2, 0.1), (1 / 3, 1 / 3, 1 / 3))
    return {"shards": sh, "zdim": integer(draw, 0, 2), "ratios": list(r), "seed": pick(draw, None, 0, 5, 12345),
            "k": integer(draw, 2, 7), "rep": integer(draw, 1, 3), "g": integer(draw, 0, 1000)}


@PROP.case("splits", g_split, quick=500, budget=(20, 200))
def c_split(case, ctx):
    D = gp.dataloader.Dataset
    ds, x, z = build(case)
    n, r, seed = len(x), case["ratios"], case["seed"]
    outs = []
    for rep in range(2):
        gnp.set_seed(case["g"] if rep == 0 or seed is None else case["g"] + 1)
        parts = D.split(ds, tuple(r), seed)
        check(len(parts) == 3, "not three pieces", "shape")
        got = [content(p, x, z, "piece") for p in parts]
        same("pieces are disjoint and exhaustive", np.sort(np.concatenate(got)), np.arange(n), sig="partition")
        for i in (0, 1):
            check(abs(len(got[i]) - r[i] * n) < 1 + 1e-9, f"piece {i} has {len(got[i])} of {n} rows for ratio {r[i]}", "sizes")
        check(all(len(p) == len(g) for p, g in zip(parts, got)), "length of a piece", "len")
        outs.append(got)
    for a, b in zip(*outs):
        same("split reproducible", np.sort(a), np.sort(b), sig="seed")
    check(raises(lambda: D.split(ds, (0.5, 0.2, 0.1), seed), AssertionError), "ratios not summing to one accepted", "accept")
    k = case["k"]
    outs = []
    for rep in range(2):
        gnp.set_seed(case["g"] if rep == 0 or seed is None else case["g"] + 1)
        folds = D.k_fold_indices(n, k, seed)
        check(len(folds) == k, f"{len(folds)} folds", "len")
        vals = [N(v).astype(int) for _, v in folds]
        same("validation sets are disjoint and exhaustive", np.sort(np.concatenate(vals)), np.arange(n), sig="partition")
        check(max(map(len, vals)) - min(map(len, vals)) <= 1, f"fold sizes {[len(v) for v in vals]}", "sizes")
        for (tr, _), v in zip(folds, vals):
            same("training set is the complement", np.sort(np.concatenate([N(tr).astype(int), v])), np.arange(n), sig="partition")
        for tr, v in folds[:1]:
            if len(N(v)):
                same("fold selects rows", np.sort(content(ds.subset(v), x, z, "fold")), np.sort(N(v)))
            same("fold selects rows", np.sort(content(ds.subset(tr), x, z, "fold")), np.sort(N(tr)))
        outs.append(vals)
    for a, b in zip(*outs):
        same("folds reproducible", a, b, sig="seed")
    rp = D.repeated_k_fold_indices(n, k, case["rep"], seed)
    check(len(rp) == k * case["rep"], f"{len(rp)} repeated folds", "len")
    orders = []
    for q in range(case["rep"]):
        vals = [N(v).astype(int) for _, v in rp[q * k : (q + 1) * k]]
        same("each repetition partitions", np.sort(np.concatenate(vals)), np.arange(n), sig="partition")
        orders.append(tuple(np.concatenate(vals)))
        for (tr, _), v in zip(rp[q * k : (q + 1) * k], vals):
            same("training set is the complement", np.sort(np.concatenate([N(tr).astype(int), v])), np.arange(n), sig="partition")
    if n >= 15:
        check(len(set(orders)) == len(orders), "two repetitions are identical", "repeat")
    same("dataset untouched", content(ds, x, z, "dataset"), np.arange(n))
    ctx.nontrivial(n >= 2 and sum(len(g) > 0 for g in got) >= 2)


def g_load(draw):
    sh = sizes(draw, nmax=24)
    n = sum(sh)
    return {
        "shards": sh, "zdim": integer(draw, 0, 2), "bs": pick(draw, None, 1, 2, 3, 4, 5, 7, n, n + 3),
        "shuffle": chance(draw, 1, 2), "drop": chance(draw, 1, 3), "seed": pick(draw, 3, None, 0, 17),
        "infinite": chance(draw, 1, 4), "passes": integer(draw, 1, 3),
        "weave": draw(st.lists(st.integers(0, 2), max_size=14)), "g": integer(draw, 0, 1000), "epoch": integer(draw, 0, 5),
    }


def one_pass(batches, n, bs, drop, x, z, what):
    """check the batches of one pass; return the order of the rows."""
    full = n // bs
    want = [bs] * full + ([n - full * bs] if n % bs and not drop else [])
    got = [ids(a, b, x, z, what) for a, b in batches]
    check([len(g) for g in got] == want, f"{what}: batch sizes {[len(g) for g in got]}, expected {want}", "sizes")
    allr = np.concatenate(got) if got else np.zeros(0, int)
    check(len(np.unique(allr)) == len(allr), f"{what}: a row appears twice", "partition")
    check(len(allr) == sum(want), f"{what}: rows missing", "partition")
    return allr


@PROP.case("loaders", g_load, quick=800, budget=(25, 250))
def c_load(case, ctx):
    L = gp.dataloader.DataLoader
    ds, x, z = build(case)
    n = len(x)
    bs = case["bs"] or n
    shuf, drop, seed = case["shuffle"], case["drop"], case["seed"]
    nb = n // bs if drop or n % bs == 0 else n // bs + 1
    inf = case["infinite"] and nb > 0

    def make(infinite=False):
        kw = {} if case["bs"] is None and not drop else {"drop_last": drop}
        return L(ds, batch_size=case["bs"], shuffle=shuf, seed=seed, infinite=infinite, **kw)

    ld = make()
    check(len(ld) == nb, f"announces {len(ld)} batches, expected {nb}", "len")
    orders = []
    gnp.set_seed(case["g"])
    for e in range(case["passes"]):
        o = one_pass(list(ld), n, bs, drop, x, z, f"pass {e}")
        if not shuf:
            same("order without shuffling", o, np.arange(len(o)))
        orders.append(o)
    if shuf and seed is not None:
        if n >= 15 and bs < n and len(case["shards"]) == 1 and len(orders) > 1:
            check(not np.array_equal(orders[0], orders[1]), "two epochs shuffled identically", "epoch")
        if n >= 15 and bs < n and len(case["shards"]) == 1:
            ld4, seen = make(), {}
            for e in [*range(12), 100, 1000]:
                ld4.set_epoch(e)
                o = tuple(one_pass(list(ld4), n, bs, drop, x, z, "epochs"))
                check(o not in seen, f"epochs {seen.get(o)} and {e} shuffled identically", "epoch")
                seen[o] = e
        gnp.set_seed(case["g"] + 1)
        ld2 = make()
        for e in range(case["passes"]):
            same("reproducible for a given seed", one_pass(list(ld2), n, bs, drop, x, z, "again"), orders[e], sig="seed")
        ld3 = make()
        for e in reversed(range(case["passes"])):
            ld3.set_epoch(e)
            gnp.randn(3)
            same("reproducible for a given epoch", one_pass(list(ld3), n, bs, drop, x, z, "epoch"), orders[e], sig="seed")
    # interleaved iterators over one loader
    its = [iter(ld) for _ in range(3)]
    got = [[], [], []]
    for k in case["weave"]:
        try:
            got[k].append(next(its[k]))
        except StopIteration:
            pass
    for k in range(3):
        got[k] += list(its[k])
        one_pass(got[k], n, bs, drop, x, z, "interleaved iterators")
    if inf:
        li = make(True)
        it = iter(li)
        for e in range(case["passes"]):
            o = one_pass([next(it) for _ in range(nb)], n, bs, drop, x, z, f"cycle {e}")
            if seed is not None or not shuf:
                same("infinite loader cycles through the same epochs", o, orders[e], sig="infinite")
        ctx.tag("infinite")
        check(raises(lambda: li[0], RuntimeError), "indexing an infinite loader accepted", "accept")
    if shuf:
        check(raises(lambda: ld[0], RuntimeError), "indexing a shuffled loader accepted", "accept")
    else:
        seq = list(ld)
        for i in range(-nb, nb):
            a, b = ld[i]
            same(f"batch {i}: inputs", a, N(seq[i][0]))
            same(f"batch {i}: responses", b, N(seq[i][1]))
        for i in (nb, -nb - 1):
            check(raises(lambda: ld[i], IndexError), "batch index out of range accepted", "accept")
        sl = ld[1::2]
        check(len(sl) == len(seq[1::2]), "slice length", "len")
        for (a, b), (c, d) in zip(sl, seq[1::2]):
            same("slice", a, N(c))
        check(raises(lambda: ld["a"], TypeError), "text index accepted", "accept")
    if nb:
        f = lambda xb, zb: gnp.sum(xb, axis=0) * 0.5 + xb.shape[0]
        seq = []

        def rec(xb, zb):
            seq.append((N(xb), N(zb)))
            return f(xb, zb)

        m = N(ld.reduce_mean(rec))
        one_pass(seq, n, bs, drop, x, z, "reduce_mean")
        tot = sum(len(a) for a, _ in seq)
        want = sum((a.sum(0) * 0.5 + len(a)) * len(a) for a, _ in seq) / tot
        close("weighted mean over batches", m, want, rtol=1e-12)
        cx, cz = gp.dataloader.collate_batches(list(ld))
        one_pass([(cx, cz)], len(N(cx)), len(N(cx)), False, x, z, "collated batches")
        if not drop:
            check(len(N(cx)) == n, "rows lost in collating", "partition")
    check(raises(lambda: gp.dataloader.collate_batches([]), ValueError), "empty list collated", "accept")
    for b in (0, -1):
        check(raises(lambda: L(ds, batch_size=b), ValueError), "non-positive batch size accepted", "accept")
    same("dataset untouched", content(ds, x, z, "dataset"), np.arange(n))
    repr(ld)
    ctx.nontrivial(n >= 2 and (nb >= 2 or len(case["shards"]) >= 2))
    ctx.tag(f"shards={len(case['shards'])}")
