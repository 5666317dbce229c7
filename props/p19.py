"""P19: NUTS integrates reversibly and leaves the target invariant."""
import contextlib
import io
import math

import numpy as np
from scipy import stats

from vf.core import Prop
from vf.util import A, N, check, chance, close, gnp, integer, pick, raises, real, reals, same, shape

import gpmp.mcmc.nuts as NU

PROP = Prop(
    "P19",
    rule="trajectories of at least two leapfrog steps (trees), moves away from the start (transitions)",
    assumptions=[
        "gradients: automatic with torch, central differences with NumPy; reference trajectories use analytic gradients, tolerance 2e-5 relative to the trajectory's size",
        "tree decisions (turning, slice membership) are compared only when they are not within 1e-4 of their threshold",
        "invariance: starting points drawn exactly from the target, default divergence threshold; tests reject at probability below 1e-10 each",
    ],
)

LOG_ALPHA = math.log(1e-10)


class Target:
    """log-density with analytic gradient and exact sampling."""

    def __init__(self, kind, d, scale):
        self.kind, self.d, self.s = kind, d, np.array(scale, float)
        self.gs = A(self.s)

    def lp(self, q):  # for the library
        u = q / self.gs
        if self.kind == "gauss":
            return -0.5 * gnp.sum(u * u)
        if self.kind == "logistic":  # -u - 2 log(1 + e^-u), written evenly
            return gnp.sum(-gnp.abs(u) - 2.0 * gnp.log(1.0 + gnp.exp(-gnp.abs(u))))
        if self.kind == "student":
            return -3.0 * gnp.sum(gnp.log(1.0 + u * u / 5.0))
        if self.kind == "exponential":  # density e^-u on u > 0, zero elsewhere
            if bool(gnp.all(u > 0.0)):
                return -gnp.sum(u)
            return gnp.sum(u) * 0.0 - gnp.inf
        raise AssertionError(self.kind)

    def ref(self, q):
        u = q / self.s
        if self.kind == "gauss":
            return -0.5 * float(u @ u)
        if self.kind == "logistic":
            return float(np.sum(-np.abs(u) - 2 * np.log1p(np.exp(-np.abs(u)))))
        if self.kind == "student":
            return -3.0 * float(np.sum(np.log1p(u * u / 5)))
        return -float(u.sum()) if np.all(u > 0) else -math.inf

    def gradU(self, q):
        u = q / self.s
        if self.kind == "gauss":
            return u / self.s
        if self.kind == "logistic":
            return np.tanh(u / 2) / self.s
        if self.kind == "student":
            return 6.0 * u / (5 + u * u) / self.s
        return np.ones_like(u) / self.s

    def draw(self, rng, n):
        if self.kind == "gauss":
            u = rng.standard_normal((n, self.d))
        elif self.kind == "logistic":
            u = rng.logistic(size=(n, self.d))
        elif self.kind == "student":
            u = rng.standard_t(5, size=(n, self.d))
        else:
            u = rng.exponential(size=(n, self.d))
        return u * self.s

    def cdf(self, q):
        u = q / self.s
        if self.kind == "gauss":
            return stats.norm.cdf(u)
        if self.kind == "logistic":
            return stats.logistic.cdf(u)
        if self.kind == "student":
            return stats.t.cdf(u, 5)
        return stats.expon.cdf(u)


KINDS = ("gauss", "logistic", "student")


def traj(tg, q, p, eps, im, n):
    """n reference leapfrog steps: lists of (q, p, H), starting after the first."""
    out = []
    g = tg.gradU(q)
    for _ in range(n):
        ph = p - 0.5 * eps * g
        q = q + eps * ph * im
        g = tg.gradU(q)
        p = ph - 0.5 * eps * g
        out.append((q, p, -tg.ref(q) + 0.5 * float(np.sum(p * p * im))))
    return out


def g_leap(draw):
    d = integer(draw, 1, 3)
    return {"d": d, "kind": pick(draw, *KINDS), "scale": reals(draw, d, 0.3, 3), "q": reals(draw, d, -2, 2), "p": reals(draw, d, -2, 2), "im": reals(draw, d, 0.2, 3), "rel": pick(draw, 1, -1) * real(draw, 0.02, 1.2), "n": integer(draw, 1, 8)}


def step(case):
    """Step size inside the integrator's stability region (2 for a unit oscillator)."""
    return case["rel"] * float(np.min(np.array(case["scale"]) / np.sqrt(case["im"])))


@PROP.case("leapfrog", g_leap, quick=250, budget=(20, 150), rule="at least two steps")
def c_leap(case, ctx):
    tg = Target(case["kind"], case["d"], case["scale"])
    im, eps = A(case["im"]), step(case)
    q0, p0 = np.array(case["q"]), np.array(case["p"])

    def forward(q, p, n):
        q, p = A(q), A(p)
        U, g = NU.potential_and_grad(tg.lp, q)
        for _ in range(n):
            q, p, U, g = NU.leapfrog(tg.lp, q, p, g, eps, im)
        return N(q).copy(), N(p).copy(), N(U).copy(), N(g).copy()

    U, g = NU.potential_and_grad(tg.lp, A(q0))
    close("potential", N(U).reshape(()), -tg.ref(q0), rtol=1e-10, atol=1e-10)
    close("gradient of the potential", N(g), tg.gradU(q0), rtol=2e-6, atol=2e-6)
    close("kinetic energy", N(NU.kinetic(A(p0), im)), 0.5 * np.sum(p0**2 * np.array(case["im"])), rtol=1e-12)
    want = traj(tg, q0, p0, eps, np.array(case["im"]), case["n"])[-1]
    q1, p1, U1, g1 = forward(q0, p0, case["n"])
    sc = 1 + np.abs(want[0]).max() + np.abs(want[1]).max()
    shape("position", q1, (case["d"],))
    shape("momentum", p1, (case["d"],))
    close("position after leapfrog steps", q1, want[0], atol=2e-5 * sc, rtol=0)
    close("momentum after leapfrog steps", p1, want[1], atol=2e-5 * sc, rtol=0)
    close("returned potential", U1.reshape(()), -tg.ref(q1), rtol=1e-9, atol=1e-9)
    close("returned gradient", g1, tg.gradU(q1), rtol=2e-5, atol=2e-5)
    # reversibility: flip the momentum and come back
    q2, p2, _, _ = forward(q1, -p1, case["n"])
    close("reversed position", q2, q0, atol=1e-5 * sc, rtol=0)
    close("reversed momentum", -p2, p0, atol=1e-5 * sc, rtol=0)
    # volume
    h = 1e-4
    J = np.zeros((2 * case["d"], 2 * case["d"]))
    for j in range(2 * case["d"]):
        e = np.zeros(2 * case["d"])
        e[j] = h
        a = forward(q0 + e[: case["d"]], p0 + e[case["d"] :], 1)
        b = forward(q0 - e[: case["d"]], p0 - e[case["d"] :], 1)
        J[:, j] = (np.concatenate(a[:2]) - np.concatenate(b[:2])) / (2 * h)
    close("Jacobian determinant of a step", np.linalg.det(J), 1.0, atol=1e-3, rtol=0)
    # turning rule with velocities
    a, b = float(np.sum((q1 - q0) * np.array(case["im"]) * p0)), float(np.sum((q1 - q0) * np.array(case["im"]) * p1))
    if min(abs(a), abs(b)) > 1e-9:
        check(NU.is_uturn(A(q0), A(q1), A(p0), A(p1), im) == (a < 0 or b < 0), f"turning rule: products {a}, {b}", "turn")
    ctx.nontrivial(case["n"] >= 2)


def g_tree(draw):
    c = g_leap(draw)
    c.update(depth=integer(draw, 0, 4), v=pick(draw, 1, -1), rel=real(draw, 0.05, 1.7), logr=real(draw, -3, 0), shift=real(draw, -1, 1), dmax=pick(draw, 1000.0, 1000.0, 0.5, 3.0), seed=integer(draw, 0, 10**6))
    if chance(draw, 1, 6):
        c["kind"] = "exponential"
        c["q"] = [abs(v) + 0.05 for v in c["q"]]
    return c


class Close(Exception):
    pass


def ref_tree(st, lo, depth, v, logu, H0, im, dmax):
    """Recursion on indices of a precomputed trajectory; (end, valid, s, alpha, n_alpha, n, div, nan)."""
    if depth == 0:
        H = st[lo][2]
        if not math.isfinite(H):
            return lo, [], False, 0.0, 0, 1, True, True
        if min(abs(logu + H), abs(H - H0 - dmax), abs(dmax - H - logu)) < 1e-4:
            raise Close
        div = H - H0 > dmax
        return lo, [lo] if logu <= -H else [], (logu < dmax - H) and not div, math.exp(min(0.0, H0 - H)), 1, 1, div, False
    e, val, s, al, na, n, div, nan = ref_tree(st, lo, depth - 1, v, logu, H0, im, dmax)
    if s and not div:
        e, val2, s2, al2, na2, n2, div2, nan = ref_tree(st, e + 1, depth - 1, v, logu, H0, im, dmax)
        s = s2
        if not nan:
            dq = (st[e][0] - st[lo][0]) * v
            a, b = np.sum(dq * im * st[lo][1]), np.sum(dq * im * st[e][1])
            if min(abs(a), abs(b)) < 1e-4:
                raise Close
            s = s2 and not (a < 0 or b < 0)
        else:
            s = False
        val, al, na, n, div = val + val2, al + al2, na + na2, n + n2, div or div2
    return e, val, s, al, na, n, div, nan


@PROP.case("tree", g_tree, quick=150, budget=(30, 250), rule="at least two leapfrog steps")
def c_tree(case, ctx):
    tg = Target(case["kind"], case["d"], case["scale"])
    im = np.array(case["im"])
    q0, p0 = np.array(case["q"]), np.array(case["p"])
    eps = step(case)
    st = traj(tg, q0, p0, eps * case["v"], im, 2 ** case["depth"])
    H0 = -tg.ref(q0) + 0.5 * float(np.sum(p0 * p0 * im)) + case["shift"]
    logu = -H0 + case["logr"]
    try:
        e, val, s, al, na, n, div, nan = ref_tree(st, 0, case["depth"], case["v"], logu, H0, im, case["dmax"])
    except Close:
        ctx.tag("borderline")
        return
    if case["kind"] == "exponential" and nan:
        ctx.tag("left the support")
    if case["kind"] == "exponential" and any(np.min(r[0] / tg.s) < 1e-4 for r in st[: e + 1] if math.isfinite(r[2])):
        return  # difference quotients straddle the boundary
    _, g = NU.potential_and_grad(tg.lp, A(q0))
    gnp.set_seed(case["seed"])

    def call():
        return NU.build_tree(tg.lp, A(q0), A(p0), g, A(logu), case["v"], case["depth"], eps, A(im), A(H0), case["dmax"])

    out = call()
    check(len(out) == 13, f"{len(out)} results", "shape")
    names = ["left position", "left momentum", "left gradient", "right position", "right momentum", "right gradient"]
    sc = 1 + max(np.abs(np.concatenate(r[:2])).max() for r in st[: e + 1])
    tol = 5e-5 * sc
    check(int(out[7]) == len(val), f"{out[7]} valid states, expected {len(val)}", "valid")
    check(bool(out[8]) == s, f"continue {out[8]}, expected {s}", "continue")
    check(int(out[11]) == n, f"{out[11]} leapfrog steps, expected {n}", "steps")
    check(bool(out[12]) == div, f"divergent {out[12]}, expected {div}", "divergent")
    if not nan:
        close("acceptance statistic", float(out[9]), al, rtol=1e-4, atol=1e-4)
        check(int(out[10]) == na, f"{out[10]} states in the statistic, expected {na}", "alpha count")
    if s:
        first, last = st[0], st[e]
        left, right = (first, last) if case["v"] == 1 else (last, first)
        for i, r in ((0, left), (3, right)):
            close(names[i], N(out[i]), r[0], atol=tol, rtol=0)
            close(names[i + 1], N(out[i + 1]), r[1], atol=tol, rtol=0)
            close(names[i + 2], N(out[i + 2]), tg.gradU(r[0]), atol=tol / min(1, tg.s.min()), rtol=0)
    if val:
        pts = np.array([st[i][0] for i in val])
        reps = 1 if len(val) == 1 else 60
        cnt = np.zeros(len(val))
        for k in range(reps):
            o = out if k == 0 else call()
            dd = np.abs(pts - N(o[6])).max(1)
            j = int(dd.argmin())
            check(dd[j] < tol, f"proposal {N(o[6])} is not one of the valid states of the subtree", "proposal")
            cnt[j] += 1
        sep = np.array([np.min(np.abs(np.delete(pts, i, 0) - pts[i]).max(1)) if len(pts) > 1 else 1.0 for i in range(len(pts))])
        if np.all(sep > 10 * tol) and len(val) > 1 and s:
            pr = 1 / len(val)
            for c in cnt:
                p = 2 * min(stats.binom.cdf(c, reps, pr), stats.binom.sf(c - 1, reps, pr))
                check(p > 1e-11, f"valid states chosen {cnt.tolist()} times in {reps} draws", "selection")
            ctx.tag("selection tested")
    ctx.tag("continues" if s else "stops")
    ctx.nontrivial(n >= 2)


def g_inv(draw):
    d = pick(draw, 1, 1, 2)
    return {"d": d, "kind": pick(draw, "gauss", "logistic", "student", "exponential"), "scale": reals(draw, d, 0.5, 2), "im": reals(draw, d, 0.3, 3), "rel": real(draw, 0.7, 1.7), "depth": integer(draw, 1, 3), "seed": integer(draw, 0, 10**6)}


@PROP.case("invariance", g_inv, quick=12, budget=(60, 300), guard=120, rule="moves away from the start")
def c_inv(case, ctx):
    tg = Target(case["kind"], case["d"], case["scale"])
    im = np.array(case["im"])
    eps = step(case)
    rng = np.random.default_rng(case["seed"])
    n = 1000 if ctx.backend == "numpy" else 800
    q0 = tg.draw(rng, n)
    gnp.set_seed(case["seed"])
    q1 = np.empty_like(q0)
    imb = A(im)
    for i in range(n):
        q = A(q0[i])
        for _ in range(2):
            q, a, nlf, dep, div = NU.nuts_transition(tg.lp, q, eps, imb, case["depth"], 1000.0)
            check(0.0 <= a <= 1.0 + 1e-12 and 0 < nlf <= 2 ** case["depth"] - 1 and 0 < dep <= case["depth"] and nlf <= 2**dep - 1, f"acceptance {a}, {nlf} steps, depth {dep}", "statistics")
        q1[i] = N(q)
        check(tg.ref(q1[i]) > -math.inf, f"entered zero density at {q1[i]}", "support")
    for j in range(case["d"]):
        F1 = tg.cdf(q1)[:, j]
        p = stats.kstest(F1, "uniform").pvalue
        check(p > 1e-10, f"coordinate {j} no longer follows the target after two transitions (p = {p:.2e})", "invariance")
    F0, F1 = tg.cdf(q0), tg.cdf(q1)
    fun = {"location": lambda F: F[:, 0], "spread": lambda F: np.abs(F[:, 0] - 0.5), "tail": lambda F: (np.abs(F[:, 0] - 0.5) > 0.4) * 1.0, "interaction": lambda F: np.prod(F - 0.5, axis=1)}
    for k, h in fun.items():
        dif = h(F1) - h(F0)
        b, v, s = np.abs(dif).max(), float(np.sum(dif**2)), abs(float(dif.sum()))
        if b == 0:
            continue
        # self-normalised tail with a Bernstein correction
        bound = -s * s / (2 * (v + b * s / 3)) + math.log(4)
        check(bound > LOG_ALPHA, f"{k} drifts: mean change {dif.mean():.4f} over {n} starts drawn from the target", "invariance")
    ctx.tag(case["kind"])
    ctx.nontrivial(np.mean(np.any(q1 != q0, axis=1)) > 0.2)


def ref_transition(tg, q0, eps, im, depth, rng):
    """The documented transition: slice variable, doubling, uniform selection."""
    p0 = rng.standard_normal(len(q0)) / np.sqrt(im)
    H0 = -tg.ref(q0) + 0.5 * float(np.sum(p0 * p0 * im))
    logu = -H0 + math.log(rng.random())
    path = {1: [(q0, p0, H0)], -1: [(q0, p0, H0)]}

    def at(v, k):
        t = path[v]
        while len(t) <= k:
            q, p, _ = t[-1]
            t.append(traj(tg, q, p, v * eps, im, 1)[0])
        return t[k]

    def turned(v, a, b):
        dq = (at(v, b)[0] - at(v, a)[0]) * v
        return np.sum(dq * im * at(v, a)[1]) < 0 or np.sum(dq * im * at(v, b)[1]) < 0

    def tree(v, k, j):  # states k .. k + 2^j - 1 in direction v
        if j == 0:
            H = at(v, k)[2]
            if not math.isfinite(H):
                return [], False, 0.0, 0, 1
            return [at(v, k)[0]] if logu <= -H else [], H - H0 < 1000, math.exp(min(0.0, H0 - H)), 1, 1
        val, s, a, na, n = tree(v, k, j - 1)
        if s:
            val2, s2, a2, na2, n2 = tree(v, k + 2 ** (j - 1), j - 1)
            val, a, na, n = val + val2, a + a2, na + na2, n + n2
            s = s2 and not turned(v, k, k + 2**j - 1)
        return val, s, a, na, n

    far = {1: 0, -1: 0}
    cand, alpha, count, steps, j = [q0], 0.0, 0, 0, 0
    go = True
    while go and j < depth:
        v = 1 if rng.random() < 0.5 else -1
        val, s, a, na, n = tree(v, far[v] + 1, j)
        alpha, count, steps = alpha + a, count + na, steps + n
        go = s
        if s:
            cand = cand + val
            far[v] += 2**j
            dq = at(1, far[1])[0] - at(-1, far[-1])[0]
            go = not (np.sum(dq * im * at(-1, far[-1])[1]) < 0 or np.sum(dq * im * at(1, far[1])[1]) < 0)
        j += 1
    return cand[rng.integers(len(cand))], alpha / max(1, count), steps, j


def law_p(a, b):
    return stats.ks_2samp(a, b, method="asymp").pvalue


def freq_p(a, b):
    """a, b boolean samples: exact conditional test."""
    k, n, m = int(np.sum(a)), len(a), len(b)
    h = stats.hypergeom(n + m, k + int(np.sum(b)), n)
    return 2 * min(h.cdf(k), h.sf(k - 1))


def g_law(draw):
    c = g_inv(draw)
    c["rel"] = real(draw, 0.3, 1.6)
    c["depth"] = integer(draw, 2, 4)
    return c


@PROP.case("transition-law", g_law, quick=12, budget=(60, 300), guard=120, rule="moves away from the start")
def c_law(case, ctx):
    tg = Target(case["kind"], case["d"], case["scale"])
    im, eps, depth = np.array(case["im"]), step(case), case["depth"]
    rng = np.random.default_rng(case["seed"])
    q0 = tg.draw(rng, 1)[0]
    gnp.set_seed(case["seed"])

    def compare(n, m):
        lib = []
        for _ in range(n):
            q, a, nlf, dep, div = NU.nuts_transition(tg.lp, A(q0), eps, A(im), depth, 1000.0)
            lib.append((N(q).copy(), a, nlf, dep))
        ref = [ref_transition(tg, q0, eps, im, depth, rng) for _ in range(m)]
        Q, R = np.array([r[0] for r in lib]), np.array([r[0] for r in ref])
        col = lambda t, k: np.array([r[k] for r in t])
        ps = {f"coordinate {j}": law_p(Q[:, j], R[:, j]) for j in range(case["d"])}
        ps["staying at the start"] = freq_p(np.all(Q == q0, axis=1), np.all(R == q0, axis=1))
        ps["distance moved"] = law_p(np.abs(Q - q0).sum(1), np.abs(R - q0).sum(1))
        if case["kind"] != "exponential":
            ps["acceptance statistic"] = law_p(np.round(col(lib, 1), 4), np.round(col(ref, 1), 4))
        for k in range(1, 2**depth):
            ps[f"{k} leapfrog steps"] = freq_p(col(lib, 2) == k, col(ref, 2) == k)
        for k in range(1, depth + 1):
            ps[f"depth {k}"] = freq_p(col(lib, 3) == k, col(ref, 3) == k)
        return ps, np.mean(np.any(Q != q0, axis=1))

    # a first sample points at suspicious statistics, a fresh larger one decides
    ps, moved = compare(500, 1500)
    odd = [k for k, p in ps.items() if p < 1e-3]
    if odd:
        ctx.tag("second sample")
        ps, _ = compare(3000, 9000)
        for k in odd:
            check(ps[k] > 1e-10, f"{k}: law differs from the documented transition (p = {ps[k]:.2e})", "transition law")
    ctx.tag(case["kind"])
    ctx.nontrivial(moved > 0.2)


def g_samp(draw):
    d = integer(draw, 1, 2)
    return {
        "d": d, "chains": integer(draw, 1, 3), "kind": pick(draw, *KINDS), "scale": reals(draw, d, 0.3, 3), "ns": integer(draw, 0, 12), "nw": pick(draw, 0, 1, 5, 21, 30, 45),
        "eps0": pick(draw, None, 0.5, 0.1), "mass": chance(draw, 1, 2), "massv": reals(draw, d, 0.2, 4), "md": integer(draw, 1, 4), "ta": pick(draw, 0.8, 0.6, 0.9),
        "seed": integer(draw, 0, 10**5), "opts": chance(draw, 1, 2), "verbose": pick(draw, 0, 1, 2), "jit": pick(draw, 1e-4, 0.5), "q0": reals(draw, 3 * d, -1, 1),
        "gamma": pick(draw, 0.05, 0.1), "t0": pick(draw, 10.0, 5.0), "kappa": pick(draw, 0.75, 0.6), "muf": pick(draw, 10.0, 3.0),
    }


@PROP.case("sampling", g_samp, quick=60, budget=(30, 250), rule="warm-up and sampling iterations both present")
def c_samp(case, ctx):
    tg = Target(case["kind"], case["d"], case["scale"])
    ch, d, ns, nw = case["chains"], case["d"], case["ns"], case["nw"]
    q0 = np.array(case["q0"])[: ch * d].reshape(ch, d)
    mass = np.array(case["massv"]) if case["mass"] else None
    main = dict(num_warmup=nw, target_accept=case["ta"], max_depth=case["md"], jitter=case["jit"], init_step_size=case["eps0"], init_mass_diag=None if mass is None else A(mass), seed=case["seed"], progress=False, verbose=case["verbose"])
    hyper = dict(dual_averaging_gamma=case["gamma"], dual_averaging_t0=case["t0"], dual_averaging_kappa=case["kappa"], dual_averaging_mu_factor=case["muf"]) if case["opts"] else {}

    rec = []
    transition = NU.nuts_transition

    def recorded(*a, **k):
        kk = {**{"q0": None, "step_size": None, "inv_mass_diag": None}, **k}
        before = None if kk["q0"] is None else N(kk["q0"]).copy()
        out = transition(*a, **k)
        rec.append((before, kk["step_size"], None if kk["inv_mass_diag"] is None else N(kk["inv_mass_diag"]).copy(), N(out[0]).copy(), tuple(out[1:])))
        return out

    def run(how):
        rec.clear()
        with contextlib.redirect_stdout(io.StringIO()):
            qi = A(q0)
            if how == "kwargs" and not case["opts"]:
                r = NU.nuts_sample(tg.lp, qi, ns, **main)
            elif how == "kwargs":
                r = NU.nuts_sample(tg.lp, qi, ns, options=NU.NUTSOptions(**hyper), **main)
            else:
                r = NU.nuts_sample(tg.lp, qi, ns, options=NU.NUTSOptions(**main, **hyper))
        same("starting points", N(qi), q0, sig="mutated")
        return r

    sm, info = run("kwargs")
    NU.nuts_transition = recorded
    try:
        sm2, info2 = run("options")
    finally:
        NU.nuts_transition = transition
    shape("samples", sm, (ns, ch, d))
    x = N(sm)
    same("samples from an options object", N(sm2), x, sig="options")
    for k in info:
        same(f"{k} from an options object", N(info2[k]), N(info[k]), sig="options")
    for pre, m in (("warmup_", nw), ("", ns)):
        for k in ("accept_stat", "divergent", "tree_depth", "n_leapfrog", "log_prob_trace"):
            shape(pre + k, info[pre + k], (m, ch))
        if m:
            a, dep, nl = N(info[pre + "accept_stat"]), N(info[pre + "tree_depth"]), N(info[pre + "n_leapfrog"])
            check(np.all((a >= 0) & (a <= 1)), "acceptance statistic outside [0, 1]", "statistics")
            check(np.all((dep >= 1) & (dep <= case["md"]) & (nl >= 1) & (nl <= 2.0**dep - 1)), f"depths {dep.tolist()} steps {nl.tolist()}", "statistics")
            check(np.all(np.isfinite(N(info[pre + "log_prob_trace"]))), "log-density of a draw not finite", "statistics")
    if ns:
        close("log-density of the draws", N(info["log_prob_trace"]), np.array([[tg.ref(x[t, c]) for c in range(ch)] for t in range(ns)]), rtol=1e-9, atol=1e-9)
    # a draw keeps the previous value or moves; equal values imply equal log-density (chains advance independently)
    eps = N(info["warmup_step_size"])
    shape("step sizes", eps, (nw,))
    opt = NU.NUTSOptions(**hyper)
    if nw and case["eps0"] is not None:
        close("first step size", eps[0], case["eps0"], rtol=1e-12)
    if nw == 0 and case["eps0"] is not None:
        close("step size without warm-up", float(N(info["step_size_final"]).reshape(-1)[0]), case["eps0"], rtol=1e-12)
    win = NU.make_warmup_windows(nw)
    if nw:
        # dual averaging replayed from the recorded acceptance statistics
        acc = N(info["warmup_accept_stat"]).mean(1)
        ends = {e for _, e in win}
        e = float(eps[0])
        mu, hb, lb, t = math.log(max(1e-6, opt.dual_averaging_mu_factor * e)), 0.0, math.log(e), 0
        for i in range(nw):
            close(f"step size of warm-up iteration {i}", eps[i], e, rtol=1e-8)
            t += 1
            eta = 1 / (t + opt.dual_averaging_t0)
            hb = (1 - eta) * hb + eta * (case["ta"] - acc[i])
            le = mu - math.sqrt(t) / opt.dual_averaging_gamma * hb
            w = t ** (-opt.dual_averaging_kappa)
            lb = w * le + (1 - w) * lb
            e = min(max(math.exp(min(le, 700)), 1e-6), 1e2)
            if i + 1 in ends:
                mu, hb, lb, t = math.log(max(1e-6, opt.dual_averaging_mu_factor * e)), 0.0, math.log(e), 0
        close("final step size", float(N(info["step_size_final"]).reshape(-1)[0]), min(max(math.exp(lb), 1e-6), 1e2), rtol=1e-7)
    m = N(info["mass_diag_final"])
    shape("mass", m, (d,))
    check(np.all(np.isfinite(m)) and np.all(m >= case["jit"] * (1 - 1e-12)), f"mass {m}", "mass")
    if not win:
        close("mass without adaptation windows", m, np.maximum(mass, case["jit"]) if mass is not None else np.ones(d), rtol=1e-12)
    if len(rec) == (nw + ns) * ch and all(r[0] is not None and r[1] is not None and r[2] is not None for r in rec):
        # every transition starts where the previous one of its chain ended, with the step size and mass announced
        at, im, hist = q0.copy(), 1.0 / (np.maximum(mass, case["jit"]) if mass is not None else np.ones(d)), []
        ends = {b: a for a, b in win}
        for i in range(nw + ns):
            for c in range(ch):
                b, e, m_, after, stat = rec[i * ch + c]
                same(f"state before transition {i} of chain {c}", b.reshape(-1), at[c], sig="chain")
                close("step size used", e, eps[i] if i < nw else float(N(info["step_size_final"]).reshape(-1)[0]), rtol=1e-12)
                close("inverse mass used", m_, im, rtol=1e-9)
                at[c] = after
                pre, j = ("warmup_", i) if i < nw else ("", i - nw)
                check(float(N(info[pre + "accept_stat"])[j, c]) == float(stat[0]) and int(N(info[pre + "n_leapfrog"])[j, c]) == int(stat[1]) and int(N(info[pre + "tree_depth"])[j, c]) == int(stat[2]) and bool(N(info[pre + "divergent"])[j, c]) == bool(stat[3]), f"statistics of transition {i} of chain {c}", "statistics")
                if i >= nw:
                    same("draw is the end of its transition", x[j, c], after, sig="chain")
            hist.append(at.copy())
            if i < nw and i + 1 in ends:
                v = np.concatenate(hist[ends[i + 1] : i + 1])
                v = v.var(axis=0, ddof=1) if len(v) > 1 else np.ones(d)
                got = 1.0 / (rec[(i + 1) * ch][2] if (i + 1) * ch < len(rec) else 1.0 / m)
                ok = [np.maximum(v, case["jit"])] + ([np.maximum(1.0 / v, case["jit"])] if np.all(v > 0) else [])
                check(any(np.allclose(got, w, rtol=1e-6) for w in ok), f"mass {got} after a window of variance {v}", "mass")
                im = 1.0 / got
        close("final mass", 1.0 / m, im, rtol=1e-9)
        ctx.tag("chain replayed")
    check(raises(lambda: NU.nuts_sample(tg.lp, A(q0[0]), 1, num_warmup=0, progress=False, verbose=0), ValueError), "one-dimensional starting points accepted", "accept")
    ctx.nontrivial(nw > 0 and ns > 0)


def g_adapt(draw):
    d = integer(draw, 1, 3)
    k = integer(draw, 0, 8)
    return {"nw": pick(draw, integer(draw, 0, 60), integer(draw, 60, 400), integer(draw, 140, 1500)), "x": [reals(draw, d, -5, 5) for _ in range(k)], "d": d, "acc": reals(draw, 6, 0, 1), "target": real(draw, 0.5, 0.95), "eps": real(draw, 0.01, 2), "split": integer(draw, 0, k)}


@PROP.case("adaptation", g_adapt, quick=300, budget=(10, 80), rule="several windows or several values")
def c_adapt(case, ctx):
    nw = case["nw"]
    w = NU.make_warmup_windows(nw)
    for (a, b), nxt in zip(w, list(w[1:]) + [None]):
        check(0 < a < b < nw, f"window [{a}, {b}) of {nw}", "window")
        if nxt:
            check(nxt[0] == b, f"windows not contiguous: {w}", "window")
    if nw >= 150:
        check(w and w[0][0] == 75 and w[-1][1] == nw - 50, f"buffers: {w} for {nw}", "window")
        check(w[0] == (75, min(100, nw - 50)) or nw - 125 < 50, f"first window {w[0]}", "window")
        for u, v in zip(w[:-1], w[1:-1]):
            check(v[1] - v[0] == 2 * (u[1] - u[0]), f"window lengths do not double: {w}", "window")
    if nw <= 20:
        check(w == [], f"{w} for {nw}", "window")
    for a, b in w:
        check(f"[{a},{b})" in NU.describe_windows(w), "description", "text")
    rv = NU.RunningDiagVar(case["d"])
    X = np.array(case["x"], float).reshape(len(case["x"]), case["d"])
    for r in X[: case["split"]]:
        rv.update_one(A(r))
    rv.update_batch(A(X[case["split"] :]))
    close("running variance", N(rv.var()), X.var(axis=0, ddof=1) if len(X) > 1 else np.ones(case["d"]), rtol=1e-9, atol=1e-9)
    e0 = case["eps"]
    da = NU.DualAveragingState(mu=math.log(10 * e0), log_eps=math.log(e0), log_eps_bar=math.log(e0), h_bar=0.0, t=0)
    hb, lb = 0.0, math.log(e0)
    for t, a in enumerate(case["acc"], 1):
        hb = (1 - 1 / (t + 10.0)) * hb + (case["target"] - a) / (t + 10.0)
        le = math.log(10 * e0) - math.sqrt(t) / 0.05 * hb
        lb = t**-0.75 * le + (1 - t**-0.75) * lb
        close("adapted step size", da.update(a, target=case["target"]), math.exp(le), rtol=1e-9)
    close("averaged step size", da.final(), math.exp(lb), rtol=1e-9)
    ctx.nontrivial(len(w) > 1 or len(X) > 1)


# ------------------------------------------------------ initial step-size search
def g_find(draw):
    d = integer(draw, 1, 3)
    return {
        "d": d, "kind": pick(draw, *KINDS), "scale": reals(draw, d, 0.1, 6), "q": reals(draw, d, -2, 2), "im": reals(draw, d, 0.2, 3), "eps": pick(draw, 1.0, 0.01, 8.0), "ta": pick(draw, 0.5, 0.8, 0.3),
        "base": pick(draw, 2.0, 1.5, 4.0), "lim": pick(draw, None, [0.3, 2.0]), "seed": integer(draw, 0, 10**6), "nw": pick(draw, 150, 160, 30, 60), "opt": integer(draw, 0, 7),
    }


@PROP.case("step-size-search", g_find, quick=150, budget=(15, 80), rule="a search of several steps")
def c_find(case, ctx):
    tg = Target(case["kind"], case["d"], case["scale"])
    q, im = np.array(case["q"]), np.array(case["im"])
    lo, hi = case["lim"] or (1e-6, 1e2)
    kw = dict(init_eps=case["eps"], target_accept=case["ta"], scale_base=case["base"])
    if case["lim"]:
        kw.update(min_eps=lo, max_eps=hi)
    drawn = []
    real_randn = gnp.randn

    def randn(*a):
        drawn.append(real_randn(*a))
        return drawn[-1]

    gnp.set_seed(case["seed"])
    gnp.randn = randn
    try:
        got = NU.find_reasonable_step_size(tg.lp, A(q), A(im), **kw)
    finally:
        gnp.randn = real_randn
    check(isinstance(got, float) and math.isfinite(got) and got > 0, f"step size {got}", "search")
    k = math.log(got / case["eps"]) / math.log(case["base"])
    check(abs(k - round(k)) < 1e-6 and round(k) != 0, f"{got} is not {case['eps']} times a power of {case['base']}", "search")
    k = round(k)
    if len(drawn) != 1:
        return
    p = N(drawn[0]) / np.sqrt(im)
    H0 = -tg.ref(q) + 0.5 * float(np.sum(p * p * im))

    def acc(e):
        with np.errstate(all="ignore"):
            return math.exp(min(0.0, H0 - traj(tg, q, p, e, im, 1)[0][2]))

    a = [acc(case["eps"] * case["base"] ** (j if k > 0 else -j)) for j in range(abs(k) + 1)]
    if min(abs(v - case["ta"]) for v in a) < 1e-4:
        return
    up = a[0] > case["ta"]
    check(up == (k > 0), f"acceptance {a[0]} at the initial step size, target {case['ta']}: the search went the other way", "search")
    crossed = [(v < case["ta"]) == up for v in a]
    check(not any(crossed[:-1]), f"the search went past step sizes whose acceptance {a} crosses {case['ta']}", "search")
    inner = [case["eps"] * case["base"] ** (j if k > 0 else -j) for j in range(1, abs(k))]
    check(all(lo * (1 - 1e-9) <= e <= hi * (1 + 1e-9) for e in inner), f"the search went on outside [{lo}, {hi}]", "search")
    check(crossed[-1] or not (lo < got < hi), f"search stopped at {got} with acceptance {a[-1]} on the same side of {case['ta']} as at the start", "search")
    ctx.nontrivial(abs(k) > 1)


@PROP.case("long-warm-up", g_find, quick=6, budget=(15, 60), rule="a warm-up of 150 iterations or more")
def c_long(case, ctx):
    """The windows of a long warm-up are those announced, with the mass updated at the end of each."""
    d, nw = case["d"], case["nw"]
    tg = Target(case["kind"], d, case["scale"])
    kw = [{}, {"warmup_large_init_buffer": 30}, {"warmup_large_term_buffer": 20}, {"warmup_large_base_window": 12}, {"warmup_large_threshold": 50}, {"warmup_min_no_window": 10}, {"warmup_init_buffer_ratio": 0.3, "warmup_term_buffer_ratio": 0.2}, {"warmup_base_window_divisor": 5.0}][case["opt"]]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sm, info = NU.nuts_sample(tg.lp, A(np.array([case["q"]])), 1, options=NU.NUTSOptions(num_warmup=nw, max_depth=3, init_step_size=0.5, seed=case["seed"], progress=False, verbose=2, **kw))
    win = NU.make_warmup_windows(nw, **{k.replace("warmup_", ""): v for k, v in kw.items()})
    if nw >= 150:
        a, b, w = kw.get("warmup_large_init_buffer", 75), nw - kw.get("warmup_large_term_buffer", 50), kw.get("warmup_large_base_window", 25)
        check(win and win[0] == (a, a + min(w, b - a)) and win[-1][1] == b, f"windows {win} of {nw} with {kw}", "window")
    eps = N(info["warmup_step_size"])
    acc = N(info["warmup_accept_stat"]).mean(1)
    ends = {e for _, e in win}
    e = float(eps[0])
    mu, hb, t = math.log(max(1e-6, 10 * e)), 0.0, 0
    for i in range(nw):
        close(f"step size of warm-up iteration {i} of {nw}", eps[i], e, rtol=1e-7)
        t += 1
        eta = 1 / (t + 10.0)
        hb = (1 - eta) * hb + eta * (0.8 - acc[i])
        e = min(max(math.exp(min(mu - math.sqrt(t) / 0.05 * hb, 700)), 1e-6), 1e2)
        if i + 1 in ends:
            mu, hb, t = math.log(max(1e-6, 10 * e)), 0.0, 0
    ctx.nontrivial(nw >= 150)


# --------------------------------------------------------------- chains advance
def g_far(draw):
    d = integer(draw, 1, 2)
    return {"d": d, "chains": integer(draw, 1, 2), "scale": reals(draw, d, 0.3, 3), "sign": pick(draw, 1, -1), "seed": integer(draw, 0, 10**5), "depth": pick(draw, 3, 4)}


@PROP.case("far-start", g_far, quick=8, budget=(15, 60), rule="always")
def c_far(case, ctx):
    """Trajectories from twelve standard deviations away reach the bulk, because each draw starts from the previous one."""
    d, ch = case["d"], case["chains"]
    tg = Target("gauss", d, case["scale"])
    s = np.array(case["scale"])
    q0 = case["sign"] * 12.0 * np.tile(s, (ch, 1))
    with contextlib.redirect_stdout(io.StringIO()):
        sm, info = NU.nuts_sample(tg.lp, A(q0), 80, num_warmup=0, max_depth=case["depth"], init_step_size=0.5, init_mass_diag=A(1 / s**2), seed=case["seed"], progress=False, verbose=0)
    x = N(sm) / s
    check(np.all(np.abs(x[40:]) < 8), f"after 40 draws the chain is still {np.abs(x[40:]).max():.1f} standard deviations away", "chain")
    ctx.nontrivial(True)
