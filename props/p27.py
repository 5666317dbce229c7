"""P27: calls leave their inputs alone and do not depend on earlier calls."""
import copy
import math

import numpy as np

from vf.core import Prop, st
from vf.peer import Peer
from vf.util import A, N, check, chance, close, fail, gnp, gp, gp_case, integer, pick, reals

from props import p27ops as O

PROP = Prop(
    "P27",
    rule="at least twenty different calls were made on shared inputs and results are finite",
    assumptions=[
        "random calls are preceded by setting the library seed",
        "results across processes are compared to 1e-9 relative (thread counts may differ), repeated calls in one process to 1e-12",
        "a call that returns its own argument (or a view of it) is allowed; it must not write to it",
    ],
)

_PEER = []


def alone(case, backend):
    """The same calls, each made alone on fresh inputs, in another process and another order."""
    if not _PEER:
        _PEER.append(Peer(backend))
    _PEER[0].send("props.p27ops", "all", case)


def snap(v):
    if hasattr(v, "detach"):
        return ("tensor", v.detach().clone(), bool(v.requires_grad), tuple(v.shape), str(v.dtype), v.grad is None)
    if isinstance(v, np.ndarray):
        return ("array", v.copy(), v.dtype, v.shape)
    return ("other", copy.deepcopy(v))


def unchanged(v, s):
    if s[0] == "tensor":
        return bool(v.requires_grad) == s[2] and tuple(v.shape) == s[3] and str(v.dtype) == s[4] and (v.grad is None) == s[5] and bool((v == s[1]).all())
    if s[0] == "array":
        return v.dtype == s[2] and v.shape == s[3] and np.array_equal(v, s[1])
    return type(v) is type(s[1]) and v == s[1]


def memory(v):
    """Identity of the memory an array lives in."""
    if hasattr(v, "untyped_storage"):
        return v.untyped_storage().data_ptr()
    if isinstance(v, np.ndarray):
        while v.base is not None and isinstance(v.base, np.ndarray):
            v = v.base
        return v.__array_interface__["data"][0]
    return None


def leaves(v):
    if isinstance(v, (list, tuple)):
        for u in v:
            yield from leaves(u)
    elif isinstance(v, dict):
        for u in v.values():
            yield from leaves(u)
    elif isinstance(v, np.ndarray) or hasattr(v, "untyped_storage"):
        yield v


def scribble(v, keep):
    """Overwrite what the caller got back, as the caller may."""
    for a in leaves(v):
        if memory(a) in keep:
            continue
        if isinstance(a, np.ndarray):
            if a.flags.writeable and a.dtype.kind == "f":
                a[...] = 7.7
        elif a.is_floating_point():
            try:
                a.detach().fill_(7.7)
            except RuntimeError:  # expanded memory
                pass


def equal(name, got, want, rtol, how):
    """Structural comparison of plain results."""
    if isinstance(want, dict) or isinstance(got, dict):
        ok = isinstance(got, dict) and isinstance(want, dict) and list(got) == list(want)
        if not ok or "raises" in want:
            check(ok and got == want, f"{name}: {str(got)[:200]} {how}: {str(want)[:200]}", "history")
            return
        for k in want:
            equal(f"{name}.{k}", got[k], want[k], rtol, how)
        return
    if want is None or isinstance(want, (bool, str)):
        check(got == want, f"{name}: {got!r} {how}: {want!r}"[:600], "history")
        return
    try:
        w = np.array(want, float)
        g = np.array(got, float)
    except (ValueError, TypeError):
        check(isinstance(got, list) and len(got) == len(want), f"{name}: different structure {how}", "history")
        for i, (a, b) in enumerate(zip(got, want)):
            equal(f"{name}[{i}]", a, b, rtol, how)
        return
    check(g.shape == w.shape, f"{name}: shape {g.shape} {how}: {w.shape}", "history")
    fin = np.abs(w[np.isfinite(w)])
    close(f"{name} {how}", g, w, rtol=rtol, atol=rtol * (float(fin.max()) if fin.size else 0.0) + 1e-300, sig="history")


def neighbour(case):
    """The same sizes and almost the same values."""
    c = copy.deepcopy(case)
    c["x"][-1][-1] += 0.037
    c["xt"][-1][0] += 0.05
    c["z"][-1] += 0.37
    c["zt"][-1] += 0.21
    c["covparam"][-1] += 0.1
    c["spd"][-1][-1] += 0.3
    return c


def overwrite(I, new):
    for k, v in I.items():
        if isinstance(v, np.ndarray):
            v[...] = new[k]
        elif hasattr(v, "copy_"):
            v.detach().copy_(new[k])
        elif isinstance(v, list):
            v[:] = new[k]


def g_case(draw):
    c = gp_case(draw, nmin=3, nmax=9, dmax=2, pmax=3, nt=(2, 4), condmax=1e4, scales=(1.0, 1.0, 5.0))
    if c["mean"]["type"] == "parameterized":
        c["mean"] = {"type": "parameterized", "kind": "const", "theta": [0.3]}
    c["zt"] = reals(draw, len(c["xt"]))
    k = integer(draw, 2, 4)
    B = np.array([reals(draw, k, -1, 1) for _ in range(k)])
    c["spd"] = (B @ B.T + np.eye(k)).tolist()
    c["own"] = pick(draw, "numpy", "backend")
    c["sel"] = chance(draw, 1, 2)
    c["order"] = integer(draw, 0, 10**6)
    c["readonly"] = chance(draw, 1, 3)
    return c


@PROP.case("histories", g_case, quick=60, budget=(70, 500), guard=120.0)
def c_hist(case, ctx):
    alone(case, ctx.backend)
    names = O.names(case)
    rng = np.random.default_rng(case["order"])
    order = list(rng.permutation(names)) + list(rng.permutation(names)[: len(names) // 2])
    if case["order"] % 3 == 0:
        gp.config.clear_caches()
    # first some calls on nearly the same data; then the caller overwrites the arrays
    near = neighbour(case)
    I, m = O.inputs(near), O.model_of(near)
    for name in rng.permutation(names)[: (2 * len(names)) // 3]:
        O.call(name, I, m, near)
    overwrite(I, O.inputs(case))
    m = O.model_of(case)
    if case["readonly"]:
        for v in I.values():
            if isinstance(v, np.ndarray):
                v.flags.writeable = False
    S = {k: snap(v) for k, v in I.items()}
    M = {k: (v, snap(v)) for k, v in vars(m).items()}
    keep = {memory(v) for v in I.values()} | {memory(v) for v in (m.covparam, m.meanparam)}
    keep.discard(None)
    first = {}
    try:
        for name in order:
            try:
                out, r = O.call(name, I, m, case)
            except O.Changed as e:
                fail(f"modified: {e}", "inputs")
            for k, v in I.items():
                if not unchanged(v, S[k]):
                    fail(f"'{name}' changed the caller's {k}: {str(v)[:150]} was {str(S[k][1])[:150]}", "inputs")
            check(list(vars(m)) == list(M), f"'{name}' changed the attributes of the model", "model")
            for k, (v, s) in M.items():
                check(getattr(m, k) is v and unchanged(v, s), f"'{name}' changed the model's {k}", "model")
            if name in first:
                equal(f"'{name}' made again", r, first[name], 1e-12, "instead of the earlier result")
            else:
                first[name] = r
            scribble(out, keep)
    finally:
        want = _PEER[0].receive()
    check(sorted(want) == sorted(first), "different calls made", "calls")
    for k in want:
        loose = k.startswith(("select", "update", "autoselect"))
        equal(f"'{k}' after other calls", first[k], want[k], 1e-5 if loose else 1e-7 if k.startswith(("fisher", "inverses")) else 1e-9, "differs from a fresh call")
    bad = sorted(k for k in first if isinstance(first[k], dict) and "raises" in first[k])
    for k in bad:
        ctx.tag(f"raises:{k}:{first[k]['raises']}")
    ctx.tag(case["mean"]["type"])
    ctx.nontrivial(len(names) - len(bad) >= 20)
