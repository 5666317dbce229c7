"""P20: sequential Monte Carlo keeps its particles, weights and densities consistent."""
import contextlib
import io
import math
import warnings

import numpy as np
from scipy import stats

from vf.core import Prop
from vf.util import A, N, F, chance, check, close, fail, gnp, integer, pick, real, reals, same, shape

import gpmp.mcmc.knn_cov as KC
import gpmp.mcmc.smc as SM

PROP = Prop(
    "P20",
    rule="at least one particle dropped by a resampling and one accepted and one refused move (operations), at least one intermediate target (tempering), more than one stage (rare events)",
    assumptions=[
        "two particles or more; targets whose acceptance rate can be tuned (no density flat over the whole space)",
        "weights are non-negative and relative: reweighting leaves them unnormalised, resampling resets them to 1/n",
        "statistical tests reject at probability below 1e-10 each; the whole-run distribution is compared with wide margins, the laws of the single operations with exact tests",
        "survival-fraction tempering starts from a target positive on the whole box",
        "the unseeded default generator of the run functions is put in a state derived from the case before each run",
    ],
)

ALPHA = 1e-10


class Endless(BaseException):
    """More evaluations of the target than any run of the requested size needs."""


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            yield
        except SM.ParticlesSetError as e:  # a BaseException
            fail(f"scaling parameter out of range on a tunable target: {e}", sig="param_s")
        except Endless:
            fail("no end after 20000 evaluations of the target", sig="endless")


def seed_default(seed):
    """Put the generators bound as defaults in a known state."""
    st_ = np.random.default_rng(seed).bit_generator.state
    for fn in (SM.SMC.__init__, SM.ParticlesSet.__init__):
        for v in fn.__defaults__ or ():
            if isinstance(v, np.random.Generator) and isinstance(v.bit_generator, np.random.PCG64):
                v.bit_generator.state = st_


class Target:
    """log f(x, t): several families, with a NumPy reference."""

    def __init__(self, kind, m, s):
        self.kind, self.m, self.s = kind, np.array(m, float), np.array(s, float)
        self.calls = []

    def ref(self, x, t):
        u = (x - self.m) / self.s
        r = np.sum(u * u, axis=1)
        if self.kind == "temper":  # t = inverse temperature
            return -0.5 * t * r
        if self.kind == "shift":  # t = location
            return -0.5 * np.sum((u - t) ** 2, axis=1)
        if self.kind == "ball":  # t = radius; outside: zero density
            return np.where(r < t * t, -0.1 * r, -np.inf)
        if self.kind == "ball-large":  # zero density written as a large negative number
            return np.where(r < t * t, -0.1 * r, -1e100)
        raise AssertionError(self.kind)

    def __call__(self, x, t):
        xn = N(x).astype(float)
        self.calls.append(xn.copy())
        if len(self.calls) > 20000:
            raise Endless
        return A(self.ref(xn, float(t)))


KINDS = ("temper", "shift", "ball", "ball-large")


def params(kind, a, b):
    """From an easy value to a harder one; a, b in [0, 1]."""
    if kind == "temper":
        return 0.2 * a, 0.5 + 2 * b
    if kind == "shift":
        return 0.5 * a, 0.8 + 0.5 * b
    return 4.0 + a, 1.3 + b


def check_state(P, f, t, name):
    x, lp = N(P.x), N(P.logpx)
    shape(f"{name}: particles", x, (P.n, P.dim))
    shape(f"{name}: log-densities", lp, (P.n,))
    close(f"{name}: stored log-densities are those of the particles", lp, f.ref(x, t), rtol=1e-12, atol=1e-12)


def uniform_weights(P, name):
    close(f"{name}: weights", P.w, np.full(P.n, 1 / P.n), rtol=1e-12)
    close(f"{name}: current weights", P.w_tmp, np.full(P.n, 1 / P.n), rtol=1e-12)


def do_move(P, f, t, name, stat=None):
    """One move, checked against the recorded proposals; returns (accepted, refused)."""
    x0, l0 = N(P.x).copy(), N(P.logpx).copy()
    f.calls.clear()
    rate = F(P.move())
    check(len(f.calls) == 1, f"{name}: {len(f.calls)} density evaluations in one move")
    y = f.calls[0]
    shape(f"{name}: proposals", y, x0.shape)
    x1 = N(P.x)
    shape(f"{name}: particles", x1, x0.shape)
    stay = np.all(x1 == x0, axis=1)
    went = np.all(x1 == y, axis=1)
    check(np.all(stay | went), f"{name}: a particle is neither where it was nor at its proposal", sig="move")
    ly = f.ref(y, t)
    with np.errstate(invalid="ignore"):
        up = ly >= l0
    check(np.all(went[up]), f"{name}: a proposal of higher density refused", sig="move")
    zero = ly < -1e99
    check(not np.any(went[zero & (l0 > -1e99)]), f"{name}: a particle entered a zero-density region", sig="move")
    close(f"{name}: log-densities", P.logpx, np.where(went, ly, l0), rtol=1e-12, atol=1e-12)
    close(f"{name}: acceptance rate", rate, np.mean(went), rtol=1e-12, atol=1e-15)
    if stat is not None:
        with np.errstate(over="ignore", invalid="ignore"):
            a = np.exp(np.minimum(0.0, ly - l0))
        stat["dev"] += float(np.sum(went - a))
        stat["var"] += float(np.sum(a * (1 - a)))
    return int(np.sum(went & ~stay)), int(np.sum(~went))


def bernstein(dev, var):
    """Bound on P(|sum of centred Bernoulli| >= |dev|)."""
    return 2 * math.exp(-dev * dev / (2 * (var + abs(dev) / 3) + 1e-300)) if dev else 1.0


# ------------------------------------------------------------ one particle set
def g_ops(draw):
    d = integer(draw, 1, 3)
    lo = reals(draw, d, -2, 2)
    return {
        "d": d,
        "n": pick(draw, 30, 3, 8, 80),
        "lo": lo,
        "width": reals(draw, d, 0.3, 4),
        "m": reals(draw, d, 0, 1),
        "s": reals(draw, d, 0.15, 0.5),
        "kind": pick(draw, *KINDS),
        "a": real(draw, 0, 1),
        "b": real(draw, 0, 1),
        "moves": integer(draw, 1, 5),
        "ps": pick(draw, 0.5, 0.05, 3.0),
        "knn": pick(draw, False, True),
        "seed": integer(draw, 0, 10**6),
    }


def target_of(case):
    lo, w = np.array(case["lo"]), np.array(case["width"])
    return Target(case["kind"], lo + w * np.array(case["m"]), w * np.array(case["s"])), [list(case["lo"]), list(lo + w)]


@PROP.case("operations", g_ops, quick=250, budget=(25, 200), rule="a particle dropped, an accepted and a refused move")
def c_ops(case, ctx):
    dropped = acc = ref_ = 0
    for scheme in ("multinomial", "residual"):
        f, box = target_of(case)
        t1, t2 = params(case["kind"], case["a"], case["b"])
        n, d = case["n"], case["d"]
        cfg = SM.ParticlesSetConfig(resample_scheme=scheme, param_s_initial_value=case["ps"], covariance_method="knn" if case["knn"] else "normal")
        P = SM.ParticlesSet(box, n, config=cfg, rng=np.random.default_rng(case["seed"]))
        with quiet():
            for round_ in range(2):
                x0 = N(P.x).copy()
                shape("initial particles", x0, (n, d))
                check(np.all(x0 >= np.array(box[0])) and np.all(x0 <= np.array(box[1])), "initial particle outside the box", sig="box")
                same("initial log-densities", P.logpx, np.zeros(n))
                uniform_weights(P, "initial")
                close("initial effective sample size", F(P.ess()), n, rtol=1e-12)
                # trial reweighting changes only the current weights
                P.set_logpdf_with_parameter(f, t2)
                P.reweight(update_logpx_and_w=False)
                want = np.exp(f.ref(x0, t2)) / n
                close("trial weights", P.w_tmp, want, rtol=1e-10, atol=1e-300)
                same("log-densities after a trial", P.logpx, np.zeros(n))
                close("weights after a trial", P.w, np.full(n, 1 / n), rtol=1e-12)
                W = want.sum()
                close("effective sample size", F(P.ess()), 0.0 if W == 0 else W**2 / np.sum(want**2), rtol=1e-9)
                # importance weights compose: through t1 to t2 is directly to t2
                P.set_logpdf(lambda x: f(x, t1).reshape(-1, 1))
                P.reweight()
                l1 = f.ref(x0, t1)
                close("weights", P.w, np.exp(l1) / n, rtol=1e-10, atol=1e-300)
                close("log-densities", P.logpx, l1, rtol=1e-12, atol=1e-12)
                alive1 = l1 > -1e99
                if np.all(alive1):
                    P.set_logpdf_with_parameter(f, t2)
                    P.reweight()
                    close("weights after two targets", P.w, want, rtol=1e-9, atol=1e-300)
                    tt = t2
                else:
                    tt = t1
                w = N(P.w).astype(float)
                check(np.all(w >= 0), "negative weight")
                close("weights used for resampling", P.w_tmp, w, rtol=1e-12)
                close("particles untouched by reweighting", P.x, x0, rtol=0)
                lp0 = N(P.logpx).copy()
                tot = w.sum()
                if not (tot > 0):
                    break
                p = w / tot
                P.resample()
                x1, lp1 = N(P.x), N(P.logpx)
                shape("resampled particles", x1, (n, d))
                shape("resampled log-densities", lp1, (n,))
                idx = np.array([int(np.argmax(np.all(x0 == r, axis=1))) if np.any(np.all(x0 == r, axis=1)) else -1 for r in x1])
                check(np.all(idx >= 0), "resampling invented a particle", sig="resample")
                counts = np.bincount(idx, minlength=n)
                check(np.all(counts[p == 0] == 0), "a particle of zero weight survives", sig="resample")
                same("log-densities follow the resampled particles", lp1, lp0[idx])
                if scheme == "residual":
                    check(np.all(counts >= np.floor(n * p - 1e-9)), "residual resampling kept fewer copies than the integer part", sig="resample")
                uniform_weights(P, "resampled")
                close("effective sample size after resampling", F(P.ess()), n, rtol=1e-12)
                dropped += int(np.any(counts == 0))
                P.set_logpdf_with_parameter(f, tt)
                for k in range(case["moves"]):
                    a, r = do_move(P, f, tt, f"move {k}")
                    acc, ref_ = acc + a, ref_ + r
                    uniform_weights(P, "moved")
                close("proposal scale untouched by moves", P.param_s, case["ps"], rtol=0)
                check_state(P, f, tt, "after moves")
                P.particles_init(box, n)
    ctx.nontrivial(dropped and acc and ref_)
    ctx.tag(case["kind"])


# ------------------------------------------------------------- operation laws
def g_law(draw):
    d = integer(draw, 1, 3)
    n = pick(draw, 4, 5, 7)
    return {
        "d": d,
        "n": n,
        "lo": reals(draw, d, -2, 2),
        "width": reals(draw, d, 0.3, 4),
        "m": reals(draw, d, 0.2, 0.8),
        "s": reals(draw, d, 0.2, 0.5),
        "lw": reals(draw, n, -2.5, 0.5),
        "ps": pick(draw, 0.5, 0.02, 4.0),
        "kind": pick(draw, *KINDS),
        "seed": integer(draw, 0, 10**6),
    }


@PROP.case("laws", g_law, quick=40, budget=(30, 200), rule="always")
def c_law(case, ctx):
    n, d = case["n"], case["d"]
    R = 250
    lo, wd = np.array(case["lo"]), np.array(case["width"])
    box = [list(case["lo"]), list(lo + wd)]
    rng = np.random.default_rng(case["seed"])
    with quiet():
        # initial particles: uniform in the box
        big = SM.ParticlesSet(box, 800, rng=rng)
        u = (N(big.x) - lo) / wd
        for j in range(d):
            check(stats.kstest(u[:, j], "uniform").pvalue > ALPHA, f"initial particles not uniform in coordinate {j}", sig="init-law")
        if d > 1:
            r = stats.spearmanr(u[:, 0], u[:, 1])
            check(r.pvalue > ALPHA, "initial coordinates dependent", sig="init-law")
        # resampling counts
        p = np.exp(case["lw"])
        w = p / (3.7 * p.sum())  # not normalised
        p = p / p.sum()
        for scheme in ("multinomial", "residual"):
            P = SM.ParticlesSet(box, n, config=SM.ParticlesSetConfig(resample_scheme=scheme), rng=rng)
            x0 = N(P.x).copy()
            tot = np.zeros(n, int)
            for _ in range(R):
                P.x, P.logpx = A(x0), A(np.zeros(n))
                P.w, P.w_tmp = A(w), A(w)
                P.resample()
                for r in N(P.x):
                    tot += np.all(x0 == r, axis=1)
            check(tot.sum() == R * n, f"{scheme}: {tot.sum()} survivors in {R} resamplings of {n}", sig="resample")
            det = np.floor(n * p + 1e-12).astype(int) if scheme == "residual" else np.zeros(n, int)
            rest = n - det.sum()
            if rest == 0:
                check(np.all(tot == R * det), "residual: exact counts not respected", sig="resample")
                continue
            pr = np.maximum(n * p - det, 0) if scheme == "residual" else p
            pr = pr / pr.sum()
            for i in range(n):
                k = int(tot[i] - R * det[i])
                pv = stats.binomtest(min(max(k, 0), R * rest), R * rest, min(max(pr[i], 0.0), 1.0)).pvalue
                check(0 <= k <= R * rest and pv > ALPHA, f"{scheme} resampling: {tot[i]} copies of a particle of weight {p[i]:.4f} in {R} resamplings of {n}", sig="resample-law")
        # proposals: Gaussian steps with covariance param_s times the particles' covariance
        P = SM.ParticlesSet(box, max(n, d + 2), config=SM.ParticlesSetConfig(param_s_initial_value=case["ps"]), rng=rng)
        C = case["ps"] * np.atleast_2d(np.cov(N(P.x).T))
        if np.linalg.cond(C) < 1e8:
            x0 = N(P.x).copy()
            inc = np.concatenate([N(P.perturb()) - x0 for _ in range(R)])
            same("particles untouched by a proposal", P.x, x0)
            z = np.linalg.solve(np.linalg.cholesky(C), inc.T)
            for j in range(d):
                q = float(np.sum(z[j] ** 2))
                pv = 2 * min(stats.chi2.cdf(q, z.shape[1]), stats.chi2.sf(q, z.shape[1]))
                check(pv > ALPHA, f"proposal variance: {q / z.shape[1]:.4f} times the expected one", sig="perturb-law")
                check(2 * stats.norm.sf(abs(z[j].sum()) / math.sqrt(z.shape[1])) > ALPHA, "proposals not centred", sig="perturb-law")
                check(stats.kstest(z[j], "norm").pvalue > ALPHA, "proposals not Gaussian", sig="perturb-law")
            if d > 1:
                check(stats.pearsonr(z[0], z[1]).pvalue > ALPHA, "proposal correlation wrong", sig="perturb-law")
            # distinct particles receive independent steps
            blk = z[0].reshape(R, -1)
            check(stats.pearsonr(blk[:, 0], blk[:, 1]).pvalue > ALPHA, "steps of two particles dependent", sig="perturb-law")
        # acceptance probabilities
        f = Target(case["kind"], lo + wd * np.array(case["m"]), wd * np.array(case["s"]))
        t = params(case["kind"], 0.5, 0.5)[1]
        P = SM.ParticlesSet(box, 600, config=SM.ParticlesSetConfig(param_s_initial_value=case["ps"], resample_scheme="residual"), rng=rng)
        P.set_logpdf_with_parameter(f, t)
        P.reweight()
        if float(N(P.w).sum()) > 0:
            P.resample()
            stat = {"dev": 0.0, "var": 0.0}
            for k in range(4):
                do_move(P, f, t, "move", stat)
            pb = bernstein(stat["dev"], stat["var"])
            check(pb > ALPHA, f"acceptances deviate by {stat['dev']:.1f} from the Metropolis rule (variance {stat['var']:.1f})", sig="accept-law")
    ctx.nontrivial(True)


@PROP.case("invariance", g_law, quick=120, budget=(30, 200), rule="always")
def c_inv(case, ctx):
    """Particles drawn exactly from a density are still distributed so after moves."""
    d, n = case["d"], 600
    lo, wd = np.array(case["lo"]), np.array(case["width"])
    m, s = lo + wd * np.array(case["m"]), wd * np.array(case["s"])
    rng = np.random.default_rng(case["seed"])
    truncated = case["kind"].startswith("ball")

    class Half(Target):  # Gaussian, or exponential on a half space
        def ref(self, x, t):
            u = (x - m) / s
            if truncated:
                return np.where(np.all(u > 0, axis=1), -u.sum(axis=1), -np.inf)
            return -0.5 * np.sum(u * u, axis=1)

    f = Half("", m, s)

    def run(n):
        u = rng.exponential(size=(n, d)) if truncated else rng.standard_normal((n, d))
        P = SM.ParticlesSet([list(lo), list(lo + wd)], n, config=SM.ParticlesSetConfig(param_s_initial_value=case["ps"]), rng=rng)
        P.x = A(m + s * u)
        P.set_logpdf_with_parameter(f, 1.0)
        P.logpx = A(f.ref(N(P.x), 1.0))
        for _ in range(6):
            P.move()
        u = (N(P.x) - m) / s
        law = stats.expon if truncated else stats.norm
        v = law.cdf(u)
        # mean, second moment and tails of uniform variables: one test per coordinate and function
        out = []
        for j in range(d):
            c = v[:, j]
            for g, e, var in ((c - 0.5, 0.0, 1 / 12), ((c - 0.5) ** 2, 1 / 12, 1 / 180), (c < 0.1, 0.1, 0.09), (c > 0.9, 0.1, 0.09)):
                out.append(2 * stats.norm.sf(abs(np.mean(g) - e) / math.sqrt(var / n)))
        return np.array(out)

    with quiet():
        # the particles are exchangeable but only nearly independent (they share the
        # proposal covariance): first a suspicion, then a fresh larger sample
        p1 = run(n)
        hot = np.flatnonzero(p1 < 1e-3)
        if hot.size:
            p2 = run(8 * n)
            check(np.all(p2[hot] > ALPHA), f"moves do not leave the target invariant (p-values {p1[hot].min():.1e}, then {p2[hot].min():.1e})", sig="invariance")
    ctx.nontrivial(True)


# ------------------------------------------------------------------- tempering
def g_smc(draw):
    d = integer(draw, 1, 2)
    return {
        "d": d,
        "n": pick(draw, 60, 150),
        "lo": reals(draw, d, -2, 2),
        "width": reals(draw, d, 0.5, 4),
        "m": reals(draw, d, 0.25, 0.75),
        "s": reals(draw, d, 0.05, 0.4),
        "kind": pick(draw, *KINDS),
        "a": real(draw, 0.05, 1),
        "b": real(draw, 0, 1),
        "conc": pick(draw, 1.0, 8.0),
        "eta": pick(draw, 0.5, 0.3, 0.7, 0.85),
        "p0": pick(draw, 0.3, 0.15, 0.6),
        "mh": integer(draw, 1, 5),
        "maxit": pick(draw, 50, 3),
        "lo_rate": pick(draw, 0.15, 0.25),
        "factor": pick(draw, 1.4, 2.0),
        "seed": integer(draw, 0, 10**6),
    }


def n_(x):
    return float(np.asarray(N(x)).reshape(-1)[0])


def rates(snap):
    return [n_(r) for r in snap["acceptation_rate_sequence"]]


def check_tuning(seq, s0, s1, case):
    """The scale follows the recorded acceptance rates of the tuning moves."""
    s = s0
    lo, hi = case["lo_rate"], case["lo_rate"] + 0.15
    for k, r in enumerate(seq):
        if r < lo:
            s = s / case["factor"]
        elif r > hi:
            s = s * case["factor"]
        else:
            check(k == len(seq) - 1, "tuning continued although the acceptance rate was in its band", sig="tuning")
    last = seq[-1]
    check(lo <= last <= hi or len(seq) == case["maxit"], f"tuning stopped at acceptance rate {last} outside [{lo}, {hi}] after {len(seq)} moves", sig="tuning")
    check(len(seq) <= case["maxit"], "more tuning moves than allowed", sig="tuning")
    close("proposal scale after tuning", s1, s, rtol=1e-9)


def full_radius(f, box):
    """Radius covering the box (survival fractions are relative to the initial target)."""
    far = np.maximum(np.abs(np.array(box[0]) - f.m), np.abs(np.array(box[1]) - f.m)) / f.s
    return 1.01 * float(np.linalg.norm(far)) + 2.5


@PROP.case("tempering", g_smc, quick=120, budget=(40, 250), rule="at least one intermediate target")
def c_smc(case, ctx):
    n, d = case["n"], case["d"]
    inter = 0
    for method in ("ess", "p0"):
        if method == "p0" and case["kind"] == "shift":
            continue  # the ratio of densities is not a survival fraction there
        for scheme in ("multinomial", "residual"):
            f, box = target_of(case)
            t1, t2 = params(case["kind"], case["a"], case["b"])
            if case["kind"] == "temper":
                t2 = t2 * case["conc"]
            if method == "p0" and case["kind"].startswith("ball"):
                t1 = full_radius(f, box)
            smc = SM.SMC(
                box,
                n,
                particles_config=SM.ParticlesSetConfig(resample_scheme=scheme),
                smc_config=SM.SMCConfig(
                    compute_next_logpdf_param_method=method,
                    mh_steps=case["mh"],
                    mh_acceptation_rate_min=case["lo_rate"],
                    mh_acceptation_rate_max=case["lo_rate"] + 0.15,
                    mh_adjustment_factor=case["factor"],
                    mh_adjustment_max_iterations=case["maxit"],
                ),
                rng=np.random.default_rng(case["seed"]),
            )
            P = smc.particles
            # log of the steps, as seen from outside: densities are evaluated at (x, t)
            x0 = N(P.x).copy()
            w0 = np.exp(f.ref(x0, t2))
            ess0 = 0.0 if w0.sum() == 0 else w0.sum() ** 2 / np.sum(w0**2)
            if abs(ess0 / n - case["eta"]) < 1e-9:
                continue
            wi = np.exp(f.ref(x0, t1))
            if wi.sum() == 0:
                continue
            steps = []
            orig = smc.step

            def step(fun, t, *args, **kw):
                t = float(t)
                xs, ws, ls = N(P.x).copy(), N(P.w).copy(), N(P.logpx).copy()
                wn = ws * np.exp(np.minimum(f.ref(xs, t) - ls, 700.0))
                e = 0.0 if wn.sum() == 0 else wn.sum() ** 2 / np.sum(wn**2)
                s0, k0 = P.param_s, len(smc.log)
                orig(fun, t, *args, **kw)
                check_state(P, f, t, "after a step")
                uniform_weights(P, "after a step")
                new = smc.log[k0:]
                check(len(new) == 2, f"{len(new)} snapshots in one step")
                close("effective sample size of the step", n_(new[-1]["ess"]), e, rtol=1e-8, atol=1e-12)
                same("parameter of the step", n_(new[-1]["current_logpdf_param"]), t)
                r0, r1 = rates(new[0]), rates(new[1])
                check(r0 and len(r1) == case["mh"] - 1, f"{len(r0)} tuning moves and {len(r1)} further moves, {case['mh']} in all requested", sig="steps")
                check_tuning(r0, s0, P.param_s, case)
                close("recorded scale", new[-1]["current_scaling_param"], P.param_s, rtol=1e-12)
                if np.any(wn > 0):
                    check(np.all(N(P.logpx) > -1e99), "a particle of zero density after the step", sig="zero")
                steps.append(t)

            smc.step = step
            with quiet():
                smc.step_with_possible_restart(f, t1, t2, case["eta"], case["p0"])
            check_state(P, f, t2, "after the run")
            uniform_weights(P, "after the run")
            if not steps:
                continue  # steps not observable through this method
            check(steps[-1] == t2, f"the run ends at {steps[-1:]} instead of the target {t2}", sig="target")
            check(n_(smc.log[-1]["current_logpdf_param"]) == t2 and n_(smc.log[-1]["target_logpdf_param"]) == t2, "the log does not end at the target", sig="target")
            check(smc.stage == 1, "stage count")
            if ess0 / n < case["eta"]:
                seq = np.array([t1] + steps)
                rec = [[n_(v) for v in snap["logpdf_param_sequence"]] for snap in smc.log]
                check(rec[-1] == seq.tolist(), f"effective sample size {ess0 / n:.3f} of n, below {case['eta']}: recorded targets {rec[-1]}, steps {seq.tolist()}", sig="restart")
                dv = np.diff(seq) * np.sign(t2 - t1)
                # an initial target that is itself too hard gets one step of its own
                check(dv[0] >= 0 and np.all(dv[1:] > 0), f"targets do not progress monotonically: {seq.tolist()}", sig="progress")
                inter += len(steps) > 1
            else:
                check(len(steps) == 1, f"restart although the effective sample size is {ess0 / n:.3f} of n, above {case['eta']}", sig="restart")
                ctx.tag("direct")
            # a second call from the same target: nothing changes in law, one step suffices
            steps.clear()
            with quiet():
                smc.step_with_possible_restart(f, t1, t2, 0.5, case["p0"])
            check(steps == [t2], f"moving to the current target took {len(steps)} steps", sig="restart")
            check(smc.stage == 2, "stage count")
    ctx.nontrivial(inter)
    ctx.tag(case["kind"])


@PROP.case("next-target", g_smc, quick=120, budget=(25, 200), rule="an intermediate target is chosen")
def c_next(case, ctx):
    f, box = target_of(case)
    n = case["n"]
    t1, t2 = params(case["kind"], case["a"], case["b"])
    if case["kind"] == "temper":
        t2 = t2 * case["conc"]
    mid = 0
    with quiet():
        smc = SM.SMC(box, n, smc_config=SM.SMCConfig(mh_steps=2), rng=np.random.default_rng(case["seed"]))
        P = smc.particles
        wi = np.exp(f.ref(N(P.x), t1))
        if wi.sum() == 0:
            return
        smc.step(f, t1)
        x, lp = N(P.x).copy(), N(P.logpx).copy()

        def eta(t):
            w = np.exp(np.minimum(f.ref(x, t) - lp, 700.0))
            return 0.0 if w.sum() == 0 else w.sum() ** 2 / np.sum(w**2) / n - case["eta"]

        if abs(eta(t2)) > 1e-9:
            r = float(smc.compute_next_logpdf_param_ess(f, t1, t2, case["eta"]))
            if eta(t2) > 0:
                same("next target when the final one is reachable", r, t2)
            else:
                check(min(t1, t2) <= r <= max(t1, t2) and r != t1, f"next target {r} not between {t1} and {t2}", sig="next")
                g = [eta(v) for v in np.clip(np.linspace(r - 0.0501, r + 0.0501, 101), min(t1, t2), max(t1, t2))]
                check(min(g) <= 1e-9 and max(g) >= -1e-9, f"effective sample size does not cross {case['eta']} n near the chosen target {r}: from {min(g) + case['eta']:.4f} to {max(g) + case['eta']:.4f}", sig="next")
                mid += 1
        same("particles untouched by the search", P.x, x)
        same("log-densities untouched by the search", P.logpx, lp)
        close("weights untouched by the search", P.w, np.full(n, 1 / n), rtol=1e-12)
        if case["kind"] != "shift":

            def pv(t):
                return float(np.mean(np.exp(np.minimum(f.ref(x, t) - f.ref(x, t1), 700.0))))

            close("survival fraction", F(smc.compute_p_value(f, t2, t1)), pv(t2), rtol=1e-9, atol=1e-300)
            if abs(pv(t2) - case["p0"]) > 1e-9:
                r = float(smc.compute_next_logpdf_param_p0(f, t1, t2, case["p0"]))
                if pv(t2) > case["p0"]:
                    same("next target when the final one is reachable", r, t2)
                else:
                    check(min(t1, t2) <= r <= max(t1, t2) and r != t1, f"next target {r} not between {t1} and {t2}", sig="next")
                    check(abs(pv(r) - case["p0"]) < 0.05 + 1e-9, f"survival fraction {pv(r):.4f} at the chosen target, requested {case['p0']}", sig="next")
                    mid += 1
    ctx.nontrivial(mid)


# ------------------------------------------------------------------- whole runs
def g_run(draw):
    d = integer(draw, 1, 2)
    return {
        "d": d,
        "lo": reals(draw, d, -3, 3),
        "width": reals(draw, d, 0.5, 8),
        "m": reals(draw, d, 0.35, 0.65),
        "s": reals(draw, d, 0.04, 0.12),
        "method": pick(draw, "ess", "p0"),
        "eta": pick(draw, 0.5, 0.7),
        "seed": integer(draw, 0, 10**6),
    }


@PROP.case("sampling", g_run, quick=16, thorough=80, budget=(40, 300), rule="always")
def c_run(case, ctx):
    d, n = case["d"], 1000
    lo, wd = np.array(case["lo"]), np.array(case["width"])
    m, s = lo + wd * np.array(case["m"]), wd * np.array(case["s"])
    f = Target("temper", m, s)
    seed_default(case["seed"])
    with quiet():
        x, smc = SM.run_smc_sampling(f, 0.01, 1.0, case["method"], case["eta"], p0=0.3, init_box=[list(lo), list(lo + wd)], n_particles=n, mh_steps=15)
    x = N(x)
    shape("particles", x, (n, d))
    check_state(smc.particles, f, 1.0, "final")
    z = (x - m) / s
    for j in range(d):
        check(abs(z[:, j].mean()) < 0.6, f"mean off by {z[:, j].mean():.3f} standard deviations", sig="run-law")
        check(0.6 < z[:, j].std() < 1.6, f"standard deviation {z[:, j].std():.3f} times the target's", sig="run-law")
    check(np.all(np.abs(z) < 8), "a particle eight standard deviations away", sig="run-law")
    check(len(np.unique(x[:, 0])) > n // 4, f"only {len(np.unique(x[:, 0]))} distinct particles out of {n}", sig="run-law")
    ctx.nontrivial(True)


def g_sub(draw):
    d = integer(draw, 1, 3)
    return {
        "d": d,
        "lo": reals(draw, d, -3, 3),
        "width": reals(draw, d, 0.3, 5),
        "density": pick(draw, "uniform", "linear"),
        "tail": pick(draw, "upper", "lower"),
        "q": reals(draw, 3, 0.25, 0.75),
        "stages": integer(draw, 1, 3),
        "scheme": pick(draw, "residual", "multinomial"),
        "mh": pick(draw, 6, 2, 10),
        "seed": integer(draw, 0, 10**6),
    }


@PROP.case("rare-events", g_sub, quick=80, budget=(40, 250), rule="more than one stage")
def c_sub(case, ctx):
    d, n = case["d"], 500
    lo, wd = np.array(case["lo"]), np.array(case["width"])
    vol = float(np.prod(wd))
    lin = case["density"] == "linear"  # first coordinate has density 2u on [0, 1]

    def ref_log_px(x):
        u = (x - lo) / wd
        inside = np.all((u >= 0) & (u <= 1), axis=1)
        with np.errstate(divide="ignore"):
            v = -math.log(vol) + (np.log(2 * np.maximum(u[:, 0], 1e-300)) if lin else 0.0)
        return np.where(inside, v, -1e100)

    # f is a monotone function of the first coordinate, so levels are known exactly
    up = case["tail"] == "upper"

    def ref_f(x):
        return 3.0 * (x[:, 0] - lo[0]) / wd[0] - 1.0

    p = np.cumprod(case["q"][: case["stages"]])
    cdf_inv = (lambda q: np.sqrt(q)) if lin else (lambda q: q)
    levels = [3 * cdf_inv(1 - v) - 1 for v in p] if up else [3 * cdf_inv(v) - 1 for v in p]
    thr = [float("-inf") if up else float("inf")] + [float(v) for v in levels]
    seen = []

    def f(x):
        xn = N(x).astype(float)
        seen.append(xn.copy())
        return A(ref_f(xn))

    kw = dict(f=f, init_box=[list(lo), list(lo + wd)], log_px=lambda x: A(ref_log_px(N(x).astype(float))), n_particles=n, mh_steps=case["mh"], resample_scheme=case["scheme"])
    seed_default(case["seed"])
    with quiet():
        est, probs, smc = SM.run_subset_simulation(thresholds=thr, tail=case["tail"], **kw)
    probs = N(probs).astype(float)
    shape("stage probabilities", probs, (case["stages"],))
    close("estimate is the product of the stage probabilities", est, float(np.prod(probs)), rtol=1e-12)
    x = N(smc.particles.x)
    ok = ref_f(x) > thr[-1] if up else ref_f(x) < thr[-1]
    check(np.all(ok), "a final particle does not reach the last level", sig="level")
    close("final log-densities", smc.particles.logpx, ref_log_px(x), rtol=1e-12, atol=1e-12)
    check(np.all(ref_log_px(x) > -1e99), "a final particle outside the support", sig="level")
    # first stage: importance-weighted fraction of the first particles, recomputed
    x0 = seen[0]
    shape("first particles", x0, (n, d))
    in0 = ref_f(x0) > thr[1] if up else ref_f(x0) < thr[1]
    want = float(np.mean(in0 * np.exp(ref_log_px(x0)) * vol))
    close("first stage probability", probs[0], want, rtol=1e-9)
    q = case["q"]
    if not lin:
        check(stats.binomtest(int(in0.sum()), n, q[0]).pvalue > ALPHA, f"first stage {in0.mean():.3f}, exact {q[0]:.3f}", sig="sub-law")
    else:
        dev = n * (probs[0] - q[0])  # weights at most 2, variance at most 2 q
        check(2 * math.exp(-dev * dev / (2 * (2 * n * q[0] + 2 * abs(dev) / 3))) > ALPHA, f"first stage {probs[0]:.3f}, exact {q[0]:.3f}", sig="sub-law")
    for k in range(1, case["stages"]):
        check(abs(math.log(probs[k] / q[k])) < 0.9, f"stage {k + 1}: {probs[k]:.3f}, exact {q[k]:.3f}", sig="sub-law")
        # a fraction of the particles, unless the density is not constant on them
        close("a stage probability is a fraction of the particles", probs[k] * n, round(probs[k] * n), rtol=1e-9)
    # refused arguments
    for bad in ({"tail": "both", "thresholds": thr}, {"tail": "upper", "thresholds": [0.0, 1.0]}, {"tail": "lower", "thresholds": [float("-inf"), 1.0]}):
        try:
            with quiet():
                SM.run_subset_simulation(**{**kw, **bad})
        except (ValueError, AssertionError):
            continue
        fail(f"accepted {bad}", sig="refuse")
    ctx.nontrivial(case["stages"] > 1)


def g_cfg(draw):
    return {"s": pick(draw, 1e6, 1e-4), "seed": integer(draw, 0, 100), "n": integer(draw, 3, 10)}


@PROP.case("refusals", g_cfg, quick=15, budget=(10, 20), rule="always")
def c_cfg(case, ctx):
    box = [[0.0], [1.0]]
    rng = np.random.default_rng(case["seed"])
    P = SM.ParticlesSet(box, case["n"], config=SM.ParticlesSetConfig(param_s_initial_value=case["s"]), rng=rng)
    try:
        P.perturb()
    except SM.ParticlesSetError:
        pass
    else:
        fail("proposal scale out of its bounds accepted", sig="refuse")
    for make in (
        lambda: SM.ParticlesSet(box, case["n"], config=SM.ParticlesSetConfig(resample_scheme="other"), rng=rng).resample(),
        lambda: SM.SMC(box, case["n"], smc_config=SM.SMCConfig(compute_next_logpdf_param_method="other"), rng=rng),
        lambda: SM.ParticlesSet(box, case["n"], config=SM.ParticlesSetConfig(initial_distribution_type="other"), rng=rng),
    ):
        try:
            make()
        except (ValueError, NotImplementedError):
            continue
        fail("an unknown option is accepted", sig="refuse")
    ctx.nontrivial(True)


# ------------------------------------------------- local covariance estimation
class Neighbours:
    """Exact stand-in for the optional nearest-neighbour index; refuses more neighbours than points, as the real one."""

    queries = []

    def __init__(self, space, dim):
        self.ok = space == "l2"

    def init_index(self, max_elements, **kw):
        self.x = np.zeros((0, 1))
        self.cap = max_elements

    def add_items(self, x):
        self.x = N(x).astype(np.float32)
        if len(self.x) > self.cap:
            raise RuntimeError("index full")

    def set_ef(self, ef):
        pass

    def knn_query(self, q, k=1):
        q = np.atleast_2d(N(q)).astype(np.float32)
        if k > len(self.x):
            raise RuntimeError("Cannot return the results in a contiguous 2D array. Probably ef or M is too small")
        D = ((self.x[None] - q[:, None]) ** 2).sum(-1)
        Neighbours.queries.append(q[0])
        I = np.argsort(D, axis=1, kind="stable")[:, :k]
        return I.astype(np.uint64), np.take_along_axis(D, I, 1)


class _Lib:
    Index = Neighbours


def g_knn(draw):
    d = integer(draw, 1, 3)
    return {"d": d, "n": integer(draw, 4, 25), "k": integer(draw, 2, 40), "m": integer(draw, 1, 40), "s": reals(draw, d, 0.3, 4), "shift": reals(draw, d, -5, 5), "seed": integer(draw, 0, 10**6), "move": chance(draw, 1, 3), "many": pick(draw, 0, 0, 300, 1200, 2500)}


@PROP.case("local-covariance", g_knn, quick=120, budget=(10, 60), rule="fewer neighbours than points, several centres")
def c_knn(case, ctx):
    n, d, k, m = case["n"], case["d"], case["k"], case["m"]
    x = np.random.default_rng(case["seed"]).standard_normal((n, d)) * np.array(case["s"]) + np.array(case["shift"])
    close("covariance of all the points", N(KC.estimate_cov_matrix(A(x))).reshape(d, d), np.cov(x.T).reshape(d, d), rtol=1e-9, scale=np.abs(x).max() ** 2)
    if case["many"]:  # as many points as a particle set has, drifting
        b = np.random.default_rng(case["seed"] + 1).standard_normal((case["many"], d)) * np.array(case["s"]) + np.linspace(-1, 1, case["many"])[:, None]
        close("covariance of many points", N(KC.estimate_cov_matrix(A(b))).reshape(d, d), np.cov(b.T).reshape(d, d), rtol=1e-8, scale=1e-3)
    old = {a: getattr(KC, a) for a in ("hnswlib", "HNSWLIB_AVAILABLE") if hasattr(KC, a)}
    KC.hnswlib, KC.HNSWLIB_AVAILABLE = _Lib, True
    Neighbours.queries.clear()
    try:
        gnp.set_seed(case["seed"])
        C = N(KC.estimate_cov_matrix_knn(A(x), n_random=m, n_neighbors=k)).reshape(d, d)
        q = np.array(Neighbours.queries, float).reshape(-1, d)
        if case["move"]:
            P = SM.ParticlesSet([[0.0] * d, [1.0] * d], n, config=SM.ParticlesSetConfig(covariance_method="knn"), rng=np.random.default_rng(case["seed"]))
            with quiet():
                y = N(P.perturb())
            shape("proposals from local covariances", y, (n, d))
            check(np.all(np.isfinite(y)), "proposal not finite", sig="local covariance")
    finally:
        for a in ("hnswlib", "HNSWLIB_AVAILABLE"):
            if a in old:
                setattr(KC, a, old[a])
            else:
                delattr(KC, a)
    x32 = x.astype(np.float32)
    k = min(k, n)

    def local(c):
        D = ((x32 - c.astype(np.float32)) ** 2).sum(-1)
        return np.cov(x[np.argsort(D, kind="stable")[:k]].T).reshape(d, d)

    if m >= n:
        want = np.mean([local(c) for c in x], axis=0)
    else:
        check(len(q) == m and len(np.unique(q, axis=0)) == m and all(np.any(np.all(x32 == c, axis=1)) for c in q), f"{len(q)} centres for {m} asked, or not distinct points", sig="local covariance")
        want = np.mean([local(c) for c in q], axis=0)
    close("average of the local covariances", C, want, rtol=1e-8, scale=np.abs(x).max() ** 2)
    ctx.nontrivial(k < n and m > 1)
