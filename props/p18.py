"""P18: Metropolis-Hastings chains are consistent and leave the target invariant."""
import contextlib
import io
import math

import numpy as np
from scipy import stats

from vf.core import Prop
from vf.util import A, N, check, chance, close, gnp, integer, pick, raises, real, reals, same, shape

import gpmp.mcmc.mh as MH

PROP = Prop(
    "P18",
    rule="the run contains both accepted and rejected proposals",
    assumptions=[
        "statistical checks reject at probability below 1e-10 per test (Freedman's inequality for acceptance counts, exact normal/chi-square tails for proposal increments)",
        "targets and proposals supplied by the check are pure functions; every proposal drawn is recorded by the supplied proposal function",
        "block covariances need at least two states per adaptation block",
    ],
)

LOG_ALPHA = math.log(1e-10)


def target(case):
    kind, c, s, d = case["kind"], np.array(case["centre"]), case["scale"], case["dim"]

    def f(v):
        u = (v - c) / s
        if kind == "gauss":
            return -0.5 * float(u @ u)
        if kind == "student":
            return -0.5 * (3 + d) * math.log1p(float(u @ u) / 3)
        if kind == "mixture":
            return float(np.logaddexp(-0.5 * u @ u, math.log(0.4) - 0.5 * (u - 3) @ (u - 3)))
        if kind == "laplace":
            return -float(np.abs(u).sum())
        inside = np.all(np.abs(u) < 1.2)
        if kind == "steps":  # piecewise constant
            return float(np.floor(u).sum()) if np.all(np.abs(u) < 3) else -math.inf
        if inside:
            return -0.3 * float(u.sum())
        if kind == "box":
            return -math.inf
        if kind == "nan":
            return math.nan
        raise ArithmeticError("outside the support")  # kind == "raise"

    def clean(v):
        try:
            r = f(v)
        except ArithmeticError:
            return -math.inf
        return -math.inf if math.isnan(r) else r

    return f, clean


def g_run(draw):
    d = integer(draw, 1, 3)
    nc = pick(draw, 1, 2, 4, 2)
    n = integer(draw, 3, 90)
    burn = integer(draw, 0, n)
    nt = pick(draw, 1, 2)
    return {
        "dim": d, "nc": nc, "n": n, "burn": burn,
        "kind": pick(draw, "gauss", "box", "mixture", "student", "raise", "laplace", "nan", "steps"),
        "centre": reals(draw, d, -2, 2), "scale": pick(draw, 1.0, 0.2, 3.0),
        "method": pick(draw, "Haario", "RM", "haario", "rm"), "interval": pick(draw, 2, 3, 5, 11, 50),
        "freeze": chance(draw, 1, 2), "discard": chance(draw, 1, 2), "pool": nt if nc % nt == 0 else 1,
        "rmdim": chance(draw, 1, 2), "rmf": pick(draw, 1.0, 0.5), "hf": pick(draw, [1.0, 0.5], [0.7, 1.5]), "h0": pick(draw, 1.0, None, 2.0),
        "width": pick(draw, 1, 4, 20, 200), "targ": pick(draw, 0.3, 0.25), "tol": pick(draw, 0.15, 2.0),
        "p0": pick(draw, "none", "diag", "full", "per-chain"), "pv": reals(draw, d, 0.2, 2),
        "own": chance(draw, 1, 2), "init": pick(draw, "shared", "rows", "flat"), "progress": chance(draw, 1, 8),
        "out0": chance(draw, 1, 5), "seed": integer(draw, 0, 10**6), "symmetric": chance(draw, 2, 3),
    }


def g_book(draw):
    c = g_run(draw)
    if chance(draw, 1, 4):  # conditions under which burn-in can stop early
        c.update(kind=pick(draw, "gauss", "laplace"), scale=1.0, interval=pick(draw, 4, 5), burn=integer(draw, 120, 160), nc=2, pool=pick(draw, 1, 2), targ=pick(draw, 0.3, 0.6), tol=pick(draw, 2.0, 0.5, 0.35), width=pick(draw, 20, 60, 200), own=True, symmetric=True, out0=False, p0="diag")
        c["n"] = c["burn"] + integer(draw, 0, 15)
    return c


def pinit(case):
    v = np.array(case["pv"])
    d, nc = case["dim"], case["nc"]
    full = np.diag(v) + 0.1 * np.outer(v, v)
    if case["p0"] == "none":
        return None, [np.ones(d)] * nc
    if case["p0"] == "diag":
        return v, [v] * nc
    if case["p0"] == "full":
        return full, [full] * nc
    stack = np.stack([full * (1 + i) for i in range(nc)])
    return stack, list(stack)


class Asym(MH.MetropolisHastings):
    """Proposal with a drift; the density is supplied by overriding the documented hook."""

    drift = 0.4

    def _log_prop(self, x, x_new, chain_idx):
        u = N(x_new) - N(x) - self.drift
        return -0.5 * float(u @ u)


def run_chain(case):
    f, clean = target(case)
    d, nc = case["dim"], case["nc"]
    start = np.array(case["centre"]) + (10 * case["scale"] if case["out0"] else 0.0)
    starts = np.tile(start, (nc, 1)) + (0.05 * case["scale"] * np.arange(nc)[:, None] if case["init"] == "rows" else 0.0)
    give, plist = pinit(case)
    opt = MH.MHOptions(
        dim=d, n_chains=nc, symmetric=case["symmetric"], target_acceptance=case["targ"], acceptance_tol=case["tol"],
        adaptation_method=case["method"], proposal_distribution_param_init=None if give is None else A(give),
        adaptation_interval=case["interval"], freeze_adaptation=case["freeze"], discard_burnin=case["discard"], n_pool=case["pool"],
        RM_adapt_factor=case["rmf"], RM_diminishing=case["rmdim"], haario_adapt_factor_burnin_phase=case["hf"][0],
        haario_adapt_factor_sampling_phase=case["hf"][1], haario_initial_scaling_factor=case["h0"], sliding_rate_width=case["width"],
        show_global_progress=case["progress"], progress_interval=7,
    )
    calls = []
    rng = np.random.default_rng(case["seed"])

    def lt(v):
        return A(f(N(v))) if case["seed"] % 2 else f(N(v))

    cls = MH.MetropolisHastings if case["symmetric"] else Asym
    state = {}

    def prop(v, c):
        params = N(state["mh"].proposal_distribution_params[c]).copy()
        if case["own"] or not case["symmetric"]:
            y = N(v) + rng.standard_normal(d) + (0.0 if case["symmetric"] else Asym.drift)
            y = A(y)
        else:
            y = state["mh"].default_prop_rnd(v, c)
        calls.append((c, N(v).copy(), N(y).copy(), params))
        return y

    mh = state["mh"] = cls(lt, prop, opt)
    gnp.set_seed(case["seed"])
    x0 = A(starts) if case["init"] == "rows" else A(start) if case["init"] == "flat" else A(start.reshape(1, -1))
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        out = mh.scheduler(x0, case["n"], case["burn"])
    return mh, out, calls, starts, clean, plist, buf.getvalue()


def freedman(diff, var, name):
    """sum of bounded martingale differences against its tail bound."""
    s, v = abs(float(np.sum(diff))), float(np.sum(var))
    # P(S >= s) <= exp(-s^2 / (2 (v + s/3)))
    bound = math.log(2) - s * s / (2 * (v + s / 3)) if s > 0 else 0.0
    check(bound > LOG_ALPHA, f"{name}: sum of deviations {np.sum(diff):.4g} with variance {v:.4g} has probability below 1e-10", "acceptance law")


@PROP.case("bookkeeping", g_book, quick=150, budget=(30, 250))
def c_run(case, ctx):
    mh, out, calls, starts, clean, plist, text = run_chain(case)
    nc, d, n0, b0 = case["nc"], case["dim"], case["n"], case["burn"]
    it = mh.global_iter
    shape("states", mh.x, (nc, it + 1, d))
    shape("accept flags", mh.accept, (nc, it + 1))
    shape("log-target values", mh.log_target_values, (nc, it + 1))
    x, acc, lv = N(mh.x), N(mh.accept), N(mh.log_target_values)
    check(it <= n0, f"{it} steps for {n0} requested", "length")
    early = it < n0
    if early:
        # only a converged burn-in may stop early
        k = mh.burnin_period
        check(nc >= 2 and k % case["interval"] == 0 and k >= 20 * case["interval"] and k < b0 and it == k + n0 - b0, f"{it} steps run, burn-in {k} of {b0}, for {n0} requested", "early stop")
    else:
        check(mh.burnin_period == b0, f"burn-in {mh.burnin_period}, requested {b0}", "burn-in")
    same("initial states", x[:, 0], starts, sig="initial")
    check(len(calls) == it * nc, f"{len(calls)} proposals for {it} steps of {nc} chains", "proposals")
    by = {c: [r for r in calls if r[0] == c] for c in range(nc)}
    diffs, vars_ = [], []
    moves = 0
    for c in range(nc):
        check(len(by[c]) == it, f"chain {c} got {len(by[c])} proposals in {it} steps", "proposals")
        for t in range(1, it + 1):
            _, cur, y, _ = by[c][t - 1]
            same("state handed to the proposal", cur, x[c, t - 1], sig="current")
            lx, ly = clean(x[c, t - 1]), clean(y)
            check(acc[c, t] in (0.0, 1.0), f"accept flag {acc[c, t]}", "flag")
            if acc[c, t]:
                same("accepted state", x[c, t], y, sig="accepted")
                check(ly > -math.inf, "a state of zero density was accepted", "support")
            else:
                same("state after a rejection", x[c, t], x[c, t - 1], sig="rejected")
            if ly == -math.inf or (case["kind"] == "nan" and lx == -math.inf):
                continue  # nothing is said of a start of undefined density
            la = math.inf if lx == -math.inf else ly - lx
            if not case["symmetric"]:
                f_, b_ = y - x[c, t - 1] - Asym.drift, x[c, t - 1] - y - Asym.drift
                la += -0.5 * float(b_ @ b_) + 0.5 * float(f_ @ f_)
            if la > 1e-9:
                check(acc[c, t] == 1.0, f"a move of acceptance probability one (log ratio {la}) was rejected", "sure move")
            else:
                a = math.exp(min(la, 0.0))
                diffs.append(acc[c, t] - a)
                vars_.append(a * (1 - a))
        moves += acc[c, 1:].sum()
    check(np.all(acc[:, 0] == 1.0), "initial accept flags", "flag")
    want = np.array([[clean(x[c, t]) for t in range(it + 1)] for c in range(nc)])
    got = np.where(np.isnan(lv), -math.inf, lv)
    if it > 0:
        close("recorded log-density of the recorded states", got, want, rtol=1e-12, atol=1e-12)
    freedman(diffs, vars_, "acceptance")
    # returned part
    first = mh.burnin_period if case["discard"] else 0
    shape("returned states", out, (nc, it - first, d))
    same("returned states", N(out), x[:, first:it], sig="returned")
    # sliding acceptance rates
    shape("rates", mh.rates, (nc, it))
    w = min(max(1, case["width"]), max(it, 1))
    R = np.array([[acc[c, max(0, t - w + 1) : t + 1].mean() for t in range(it)] for c in range(nc)]).reshape(nc, it)
    close("sliding acceptance rates", N(mh.rates), R, rtol=1e-9, atol=1e-9)
    if case["targ"] and nc >= 2:
        last, L = 20 * case["interval"], case["interval"]
        for t in range(last, min(mh.burnin_period, b0) + 1, L):
            # at the end of a block: rates of every chain within bounds and R-hat below 1.1 over the last 20 blocks
            w = min(max(1, case["width"]), t)
            r = np.array([[acc[c, max(0, u - w + 1) : u + 1].mean() for u in range(t - last, t)] for c in range(nc)])
            blk = x[:, t - last : t]
            W = blk.var(axis=1, ddof=1).mean(0)
            B = last * blk.mean(1).var(axis=0, ddof=1)
            with np.errstate(all="ignore"):
                rh = np.sqrt(((last - 1) / last * W + B / last) / W)
            sides = np.concatenate([r.min(1) - (case["targ"] - case["tol"]), case["targ"] + case["tol"] - r.max(1), 1.1 - rh])
            if not np.all(np.isfinite(sides)) or np.min(np.abs(sides)) < 1e-9 or np.min(W) < 1e-20:
                continue
            stop = early and t == mh.burnin_period
            if t < b0:
                check(stop == bool(np.all(sides > 0)), f"burn-in {'stopped' if stop else 'continued'} after {t} steps with rates {r.min(1)}..{r.max(1)} and R-hat {rh}", "early stop")
    adaptation(case, ctx, mh, by, x, acc, plist, it)
    if early:
        ctx.tag("early stop")
    ctx.tag(case["method"].lower())
    ctx.nontrivial(0 < moves < it * nc)


def adaptation(case, ctx, mh, by, x, acc, plist, it):
    """The proposal used at every step follows the documented update."""
    L, d, nc = case["interval"], case["dim"], case["nc"]
    burn = mh.burnin_period
    if it == 0:
        return
    used = [[r[3] for r in by[c]] for c in range(nc)]
    cur = [np.array(v, float) for v in plist]
    scal = [case["h0"] if case["h0"] is not None else 2.38**2 / d] * nc
    for c in range(nc):
        same("initial proposal", used[c][0], cur[c], sig="proposal")
    t = 0
    rm = case["method"].lower() == "rm"
    for phase, length, adapt in (("burn-in", burn, True), ("sampling", it - burn, not case["freeze"])):
        end = t + length
        while t < end:
            m = min(L, end - t)
            for c in range(nc):
                for s in range(t, t + m):
                    close(f"proposal parameter in the {phase} phase (chain {c}, step {s})", used[c][s], cur[c], rtol=1e-9, atol=1e-14, sig="proposal")
            t += m
            if m < L or not adapt:
                continue
            rates = acc[:, t - L + 1 : t + 1].mean(1)
            for c in range(nc):
                if rm:
                    g = case["rmf"]
                    if phase == "burn-in" and case["rmdim"]:
                        g *= 0.1 + 0.9 * 0.5 * (1 + math.cos(math.pi * t / case["burn"]))
                    cur[c] = cur[c] * math.exp(g * (rates[c] - case["targ"]))
                else:
                    g0 = (c // case["pool"]) * case["pool"]
                    rows = x[g0 : g0 + case["pool"], t - L + 1 : t + 1].reshape(-1, d)
                    scal[c] = scal[c] * math.exp(case["hf"][0 if phase == "burn-in" else 1] * (rates[c] - case["targ"]))
                    cur[c] = scal[c] * np.atleast_2d(np.cov(rows.T, ddof=1)) + 1e-6 * np.eye(d)
    for c in range(nc):
        close("final proposal", N(mh.proposal_distribution_params[c]), cur[c], rtol=1e-9, atol=1e-14, sig="proposal")


def g_diag(draw):
    c = g_run(draw)
    c["n"] = max(c["n"], 12)
    c["burn"] = integer(draw, 0, c["n"] - 3)
    c["tol"] = 0.15
    c["lo"], c["hi"] = pick(draw, [0.15, 0.4], [0.0, 1.0], [0.3, 0.5])
    c["last"] = pick(draw, None, 5, 2, 1000)
    c["nb"], c["bs"] = integer(draw, 1, 3), integer(draw, 2, 4)
    return c


@PROP.case("diagnostics", g_diag, quick=100, budget=(25, 200))
def c_diag(case, ctx):
    mh, out, calls, starts, clean, plist, text = run_chain(case)
    nc, d = case["nc"], case["dim"]
    it, x = mh.global_iter, N(mh.x)
    burn = mh.burnin_period
    i0 = burn if case["last"] is None else max(0, it - case["last"])
    sink = io.StringIO()
    kw = {} if case["last"] is None else {"last_n_samples": case["last"]}
    with contextlib.redirect_stdout(sink):
        r = mh.check_acceptance_rates(low_threshold=case["lo"], high_threshold=case["hi"], **kw)
        part = N(mh.rates)[:, i0:it]
        close("minimal rate", r["min_ar"], part.min(), rtol=1e-12)
        close("maximal rate", r["max_ar"], part.max(), rtol=1e-12)
        check(bool(r["ok"]) == bool(part.min() >= case["lo"] and part.max() <= case["hi"]), f"verdict {r}", "verdict")
        check(("PASS" in sink.getvalue()) == bool(r["ok"]), "printed verdict", "verdict")
        if nc < 2:
            check(raises(lambda: mh.compute_gelman_rubin_rhat(**kw), ValueError), "R-hat of a single chain", "accept")
        else:
            blk = x[:, i0:it]
            n = it - i0
            W = blk.var(axis=1, ddof=1).mean(0)
            B = n * blk.mean(1).var(axis=0, ddof=1)
            with np.errstate(all="ignore"):
                want = np.sqrt(((n - 1) / n * W + B / n) / W)
            rh = N(mh.compute_gelman_rubin_rhat(**kw))
            shape("R-hat", rh, (d,))
            ok = W > 1e-20
            close("R-hat", rh[ok], want[ok], rtol=1e-8)
            if np.all(ok):
                for thr in (1.1, float(np.max(want)) * 1.01, float(np.max(want)) * 0.99):
                    g = mh.check_convergence_gelman_rubin(burnin_period=burn, threshold=thr, **kw)
                    tail = sink.getvalue().split("[check_gelman_rubin_rhat]")[-1]
                    check(("PASS" in tail) == bool(g["ok"]) and ("WARNING" in tail) != bool(g["ok"]), "printed R-hat verdict", "verdict")
                    check(g["ok"] == bool(np.all(want < thr)), f"verdict {g['ok']} for R-hat {want} and threshold {thr}", "verdict")
        # Kolmogorov-Smirnov comparisons of the last blocks
        nb, bs = case["nb"], case["bs"]
        total = nb * bs
        if total <= it + 1:
            out = mh.ks_statistics(nb, bs, alpha=0.3, return_statistic=True)
            check(isinstance(out, tuple) and len(out) == 3, f"KS with statistics returned {type(out).__name__}", "options")
            ks, pv, sig = out
            blocks = [x[c, it + 1 - total + b * bs : it + 1 - total + (b + 1) * bs] for c in range(nc) for b in range(nb)]
            k = len(blocks)
            S, P = np.zeros((d, k, k)), np.zeros((d, k, k))
            for j in range(d):
                for a in range(k):
                    for b in range(k):
                        if a != b:
                            q = stats.ks_2samp(blocks[a][:, j], blocks[b][:, j])
                            S[j, a, b], P[j, a, b] = q.statistic, q.pvalue
            close("KS statistics", N(ks), S, rtol=1e-12)
            close("KS p-values", N(pv), P, rtol=1e-9)
            same("KS significance", N(sig).astype(bool), P < 0.3, sig="significance")
            check(isinstance(mh.ks_statistics(nb, bs, return_significance=False, return_statistic=True), tuple), "KS statistics left out", "options")
            same("p-values alone", N(mh.ks_statistics(nb, bs, return_significance=False)), N(pv), sig="options")
            res = mh.check_convergence_ks(nb, bs, alpha=0.3, fraction_threshold=0.5, verbose=chance_bool(case))
            close("significant fraction", res["multi_block"]["frac_significant"], np.mean(P < 0.3), rtol=1e-12)
            check((res["multi_block"]["n_blocks"], res["multi_block"]["block_size"], res["single_block"]["block_size"]) == (nb, bs, total), f"{res}", "blocks")
            check(bool(res["ok"]) == bool(np.mean(P < 0.3) < 0.5 and res["single_block"]["frac_significant"] < 0.5), f"verdict {res}", "verdict")
        check(raises(lambda: mh.ks_statistics(it + 2, 1), ValueError), "more blocks than samples", "accept")
        # covariances of whole chains
        if it + 1 - burn >= 3:
            C = N(mh.compute_empirical_covariance_whole_chain(pooled=True)).reshape(d, d)
            close("pooled covariance", C, np.cov(x[:, burn:].reshape(-1, d).T, ddof=1).reshape(d, d), rtol=1e-9, atol=1e-12)
            G = mh.compute_empirical_covariance_whole_chain(n_pool=case["pool"])
            check(len(G) == nc // case["pool"], f"{len(G)} groups", "groups")
            for i, g in enumerate(G):
                close("group covariance", N(g).reshape(d, d), np.cov(x[i * case["pool"] : (i + 1) * case["pool"], burn:].reshape(-1, d).T, ddof=1).reshape(d, d), rtol=1e-9, atol=1e-12)
            mh.recompute_all_chains_full_covariance(scaling=1.7, epsilon=1e-3)
            for c in range(nc):
                close("recomputed proposal", N(mh.proposal_distribution_params[c]), 1.7 * np.cov(x[c, burn:].T, ddof=1).reshape(d, d) + 1e-3 * np.eye(d), rtol=1e-9, atol=1e-12)
    check(raises(lambda: mh.scheduler(A(starts[:1] if nc == 1 else starts), 3, 4), ValueError), "burn-in longer than the run accepted", "accept")
    ctx.nontrivial(np.ptp(N(mh.rates)) > 0)


def chance_bool(case):
    return case["seed"] % 3 == 0


def g_law(draw):
    d = integer(draw, 1, 2)
    return {"dim": d, "cov": reals(draw, d, 0.3, 3), "corr": real(draw, -0.8, 0.8), "diag": chance(draw, 1, 2), "seed": integer(draw, 0, 10**6), "kind": pick(draw, "gauss", "mixture", "box"), "asym": chance(draw, 1, 2)}


@PROP.case("proposal-law", g_law, quick=12, budget=(40, 200), rule="every case (2000 transitions)")
def c_law(case, ctx):
    """Default proposals are N(x, C): independent of x, right covariance."""
    d = case["dim"]
    v = np.array(case["cov"])
    C = np.diag(v)
    if not case["diag"] and d == 2:
        C[0, 1] = C[1, 0] = case["corr"] * math.sqrt(v[0] * v[1])
    inc = []
    ys = []

    def lt(y):
        ys.append(N(y).copy())
        return -0.5 * float(np.sum(N(y) ** 2))

    opt = MH.MHOptions(dim=d, n_chains=1, adaptation_interval=10**6, proposal_distribution_param_init=A(np.diag(C).copy() if case["diag"] else C), init_msg=None)
    mh = MH.MetropolisHastings(lt, None, opt)
    gnp.set_seed(case["seed"])
    n = 2000
    with contextlib.redirect_stdout(io.StringIO()):
        mh.scheduler(A(np.zeros((1, d))), n, 0)
    x = N(mh.x)[0]
    check(len(ys) >= n + 1, f"{len(ys)} target evaluations for {n} steps", "evaluations")
    Y = np.array(ys[-n:])
    inc = np.linalg.solve(np.linalg.cholesky(C), (Y - x[:-1]).T).T
    tests = {"mean": (inc.sum(0) / math.sqrt(n)).tolist(), "dependence on the state": [float(np.sum(inc[:, j] * np.sign(x[:-1, j])) / math.sqrt(max(1, np.sum(x[:-1, j] != 0)))) for j in range(d)]}
    if d == 2:
        tests["correlation"] = [float(np.sum(inc[:, 0] * np.sign(inc[:, 1])) / math.sqrt(n))]
    for k, zs in tests.items():
        check(np.max(np.abs(zs)) < 7.0, f"{k} of the standardised proposal increments: {zs} standard deviations", "proposal law")
    ss = (inc**2).sum(0)
    for s in ss:
        p = 2 * min(stats.chi2.sf(s, n), stats.chi2.cdf(s, n))
        check(p > 1e-11, f"sum of squares of standardised increments {s} for {n} degrees of freedom", "proposal law")
    ks = stats.kstest(inc.ravel(), "norm").pvalue
    check(ks > 1e-10, f"standardised increments are not normal (p = {ks})", "proposal law")
    moved = np.any(x[1:] != x[:-1], axis=1)
    la = -0.5 * (Y**2).sum(1) + 0.5 * (x[:-1] ** 2).sum(1)
    a = np.exp(np.minimum(la, 0))
    low = la < 0
    check(np.all(moved[~low]), "a move of acceptance probability one was rejected", "sure move")
    freedman(moved[low] - a[low], (a * (1 - a))[low], "acceptance")
    for lo, hi in ((0.0, 0.2), (0.2, 0.5), (0.5, 1.0)):
        s = low & (a >= lo) & (a < hi)
        freedman(moved[s] - a[s], (a * (1 - a))[s], f"acceptance for ratios in [{lo}, {hi})")
    ctx.nontrivial(True)


def g_jit(draw):
    d = integer(draw, 1, 3)
    return {"d": d, "rank": integer(draw, 0, d), "neg": pick(draw, 0.0, 1e-10, 3e-7) if d > 1 else 0.0, "B": reals(draw, d * d, -2, 2), "m": reals(draw, d, -3, 3), "seed": integer(draw, 0, 10**6)}


@PROP.case("degenerate-proposals", g_jit, quick=60, budget=(10, 40), rule="a singular or slightly indefinite covariance")
def c_jit(case, ctx):
    """Gaussian draws of a singular or slightly indefinite covariance stay in its range, up to the announced jitter."""
    d, r = case["d"], case["rank"]
    Q, _ = np.linalg.qr(np.array(case["B"]).reshape(d, d) + 3 * np.eye(d))
    lam = np.array([1.0] * r + [-case["neg"]] * (d - r))
    cov = (Q * lam) @ Q.T
    cov = (cov + cov.T) / 2
    m = np.array(case["m"])
    gnp.set_seed(case["seed"])
    X = np.array([N(MH.sample_multivariate_normal_with_jitter(A(m), A(cov))) for _ in range(20)]) - m
    check(X.shape == (20, d) and np.all(np.isfinite(X)), "draws not finite vectors", "jitter")
    Z = X @ Q
    # jitter grows by tens from 1e-8 until the covariance is positive: at most ten times what is missing, or 1e-8
    sd = math.sqrt(max(1e-7, 20 * case["neg"]) + 1e-8)
    check(np.all(np.abs(Z[:, r:]) < 12 * sd), f"spread {np.abs(Z[:, r:]).max(initial=0)} out of the range of the covariance", "jitter")
    check(np.all(np.abs(Z[:, :r]) < 12), "draws too large", "jitter")
    if r:
        check(np.all(np.std(Z[:, :r], axis=0) > 0.05), "no spread where the covariance has some", "jitter")
    ctx.nontrivial(r < d)
