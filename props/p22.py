"""P22: posterior samplers target the criterion inside the sampling box."""
import contextlib
import io
import math
import types
import warnings

import numpy as np

from vf import ref
from vf.core import Prop
from vf.util import A, N, check, chance, close, covparam_for, fail, gnp, gp, integer, make_model, pick, points, raises, real, reals, same, shape

import gpmp.mcmc.mh as MH
import gpmp.mcmc.nuts as NU
import gpmp.mcmc.param_posterior as PP
import gpmp.mcmc.smc as SM
import gpmp.mcmc.svgd as SV

PROP = Prop(
    "P22",
    rule="the sampler moved, and a sampling box or a failing region cut the criterion",
    assumptions=[
        "criteria supplied by the check are pure functions, deterministic to rounding",
        "NUTS starts inside the support; MH may start outside, and then returned states are the start itself or lie inside",
        "the law of each kernel is decided by P18-P21; here the density handed to it, the starts and the outputs are",
    ],
)

LIMIT = 600000  # ordinary cases stay far below


class Endless(BaseException):
    """More evaluations of the criterion than any run of the requested size needs."""


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as b, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            yield b
        except SM.ParticlesSetError as e:  # a BaseException
            fail(f"scaling parameter out of range: {e}", sig="param_s")
        except Endless:
            fail(f"no end after {LIMIT} evaluations of the criterion", sig="endless")


def seed_all(seed):
    gnp.set_seed(seed)
    np.random.seed(seed % 2**32)
    s = np.random.default_rng(seed).bit_generator.state
    for fn in (SM.SMC.__init__, SM.ParticlesSet.__init__):
        for v in fn.__defaults__ or ():
            if isinstance(v, np.random.Generator) and isinstance(v.bit_generator, np.random.PCG64):
                v.bit_generator.state = s


class Crit:
    """A criterion J on R^d, with a region where evaluation fails."""

    def __init__(self, case):
        self.c, self.s = np.array(case["centre"]), np.array(case["scale"])
        self.kind, self.fail, self.cut, self.off = case["kind"], case["fail"], case["cut"], case["offset"]
        self.ca, self.sa = A(self.c), A(self.s)
        self.count = 0

    def bad(self, x):
        return self.fail != "none" and (x[0] - self.c[0]) / self.s[0] > self.cut

    def np(self, x):
        x = np.asarray(x, float)
        if self.bad(x):
            return math.inf
        u = (x - self.c) / self.s
        if self.kind == "quad":
            return self.off + 0.5 * float(u @ u)
        if self.kind == "quartic":
            return self.off + 0.25 * float((u**4).sum()) + 0.2 * float(u.sum())
        return self.off + 2 * math.log1p(float(u @ u))

    def __call__(self, p):
        self.count += 1
        if self.count > LIMIT:
            raise Endless
        p = gnp.asarray(p)
        if self.bad(N(p.detach() if hasattr(p, "detach") else p)):
            if self.fail == "raise":
                raise RuntimeError("criterion failed")
            return gnp.sum(p) * (gnp.nan if self.fail == "nan" else 0.0) + (gnp.inf if self.fail == "inf" else 0.0)
        u = (p - self.ca) / self.sa
        if self.kind == "quad":
            return self.off + 0.5 * gnp.sum(u * u)
        if self.kind == "quartic":
            return self.off + 0.25 * gnp.sum(u**4) + 0.2 * gnp.sum(u)
        return self.off + 2 * gnp.log(1 + gnp.sum(u * u))


def g_crit(draw):
    d = integer(draw, 1, 3)
    return {
        "d": d, "centre": reals(draw, d, -2, 2), "scale": [pick(draw, 1.0, 0.2, 0.5, 2.0) for _ in range(d)],
        "kind": pick(draw, "quad", "student", "quartic"), "fail": pick(draw, "none", "raise", "nan", "inf"),
        "cut": real(draw, 0.6, 2.0), "offset": pick(draw, 0.0, 20.0, -7.5),
        # bounds in units of scale around the centre
        "lo": [-real(draw, 0.3, 2.5) for _ in range(d)], "hi": [real(draw, 0.3, 2.5) for _ in range(d)],
        "form": pick(draw, "vec", "scalar", "one", "none", "mixed"), "cont": pick(draw, "list", "tuple", "array"),
        "via": pick(draw, "info", "fun", "fun"), "nc": pick(draw, 2, 1, 4, 3), "seed": integer(draw, 0, 10**6),
    }


def box_of(case, cr, shrink=1.0, form=None):
    """(argument, lower, upper) of a box around the centre."""
    form = case["form"] if form is None else form
    lo = cr.c + shrink * np.array(case["lo"]) * cr.s
    hi = cr.c + shrink * np.array(case["hi"]) * cr.s
    if form == "none":
        return None, np.full(case["d"], -np.inf), np.full(case["d"], np.inf)
    wrap = {"list": list, "tuple": tuple, "array": list}[case["cont"]]
    if form in ("scalar", "one"):
        # one common pair of bounds: must contain the centre
        l, h = float(lo.min()), float(hi.max())
        lo, hi = np.full(case["d"], l), np.full(case["d"], h)
        return (wrap([l, h]) if form == "scalar" else wrap([[l], [h]])), lo, hi
    if form == "mixed":
        l = float(lo.min())
        return wrap([[l], hi.tolist()]), np.full(case["d"], l), hi
    vec = (lambda v: A(v)) if case["cont"] == "array" and case["d"] > 1 else (lambda v: v.tolist())
    return wrap([vec(lo), vec(hi)]), lo, hi


def source(case, cr, other=None):
    """Keyword arguments giving the criterion directly or through a selection result."""
    if case["via"] == "fun":
        return {"selection_criterion": cr}
    return {"info": types.SimpleNamespace(covparam=A(cr.c), covparam0=A(cr.c + 0.01), selection_criterion=cr, selection_criterion_nograd=cr)}


def inside(x, lo, hi):
    return bool(np.all(x >= lo) and np.all(x <= hi))


def clean(cr, lo, hi, x, T=1.0):
    return -cr.np(x) / T if inside(x, lo, hi) else -math.inf


def starts_of(case, cr, nc):
    """(argument, the expected (nc, d) starting states) for every documented shape."""
    d, rng = case["d"], np.random.default_rng(case["seed"])
    X = cr.c + cr.s * 0.2 * rng.uniform(-1, 1, (nc, d))
    one = X[0]
    rep = np.tile(one, (nc, 1))
    forms = [("vec", one, rep), ("row", one.reshape(1, -1), rep), ("rows", X, X)]
    if d == 1:
        forms.append(("scalar", float(one[0]), rep))
    if d != nc and nc != 1 and d != 1:
        forms.append(("columns", X.T, X))
    if case["via"] == "info":
        forms.append(("none", None, np.tile(cr.c, (nc, 1))))
    return forms


# ---------------------------------------------------------------------- MH
def g_mh(draw):
    c = g_crit(draw)
    n = integer(draw, 4, 120)
    burn = integer(draw, 0, n)
    # the printed diagnostics need states after burn-in
    c.update(n=n, burn=burn, T=pick(draw, 1.0, 0.5, 3.0, 10.0), silent=chance(draw, 2, 3) or n - burn < 4, progress=chance(draw, 1, 2), pool=pick(draw, 1, 2), out0=chance(draw, 1, 5))
    return c


def mh_args(case):
    pool = case["pool"] if case["nc"] % case["pool"] == 0 else 1
    return dict(n_steps_total=case["n"], burnin_period=case["burn"], n_chains=case["nc"], n_pool=pool, temperature=case["T"], silent=case["silent"], show_progress=case["progress"], plot_chains=False, plot_empirical_distributions=False)


@PROP.case("mh", g_mh, quick=45, budget=(40, 300))
def c_mh(case, ctx):
    cr = Crit(case)
    nc, d = case["nc"], case["d"]
    box, lo, hi = box_of(case, cr)
    cut = moved = False
    for form, arg, X0 in starts_of(case, cr, nc):
        if case["out0"] and form == "rows":
            X0 = X0 + 5 * cr.s * (np.arange(nc)[:, None] == 0)
            arg = X0
        given = arg if arg is None or np.isscalar(arg) else A(arg) if case["seed"] % 2 else np.array(arg).tolist()
        seed_all(case["seed"])
        with quiet():
            out, mh = PP.sample_from_selection_criterion_mh(**source(case, cr), param_initial_states=given, sampling_box=box, **mh_args(case))
        k, it = int(mh.burnin_period), int(mh.global_iter)
        x = N(mh.x)
        shape(f"trajectories ({form})", mh.x, (nc, it + 1, d))
        same(f"starting states ({form})", x[:, 0], X0, sig="start")
        if it == case["n"]:
            check(k == case["burn"], f"burn-in {k}, requested {case['burn']}", "burn-in")
        else:
            check(nc > 1 and it - k == case["n"] - case["burn"], f"{it} steps with burn-in {k}, requested {case['n']} and {case['burn']}", "length")
        shape(f"samples ({form})", out, (nc, it - k, d))
        same("samples are the trajectory after burn-in", N(out), x[:, k:it], sig="samples")
        vals = PP.get_log_target_values(mh)
        shape("log-density trace", vals, (nc, it + 1))
        want = np.array([[clean(cr, lo, hi, x[c, t], case["T"]) for t in range(it + 1)] for c in range(nc)])
        got = N(vals)
        close("log-density of the recorded states", np.where(np.isnan(got), -np.inf, got), want, rtol=1e-11, atol=1e-11, sig="log-density")
        tail = PP.get_log_target_values(mh, discard_burnin=True)
        same("log-density trace after burn-in", N(tail), got[:, k:], sig="trace")
        for c in range(nc):
            dens = want[c] > -np.inf
            first = int(np.argmax(dens)) if dens.any() else it + 1
            check(dens[first:].all(), f"chain {c} left the support at step {first + int(np.argmin(dens[first:])) if dens[first:].size else 0}", "support")
            if not dens[0]:
                check(np.all(x[c, :first] == x[c, 0]), "a chain moved within zero density", "support")
        moved = moved or len(np.unique(x[:, :, 0])) > nc
        # the density really is cut: proposals were refused there
        cut = cut or box is not None or cr.fail != "none"
    # random starts lie in the initial box
    ibox, il, ih = box_of(case, cr, shrink=0.5, form="vec" if case["via"] == "fun" else None)
    if ibox is not None and case["n"] > 0:
        seed_all(case["seed"] + 1)
        with quiet():
            out, mh = PP.sample_from_selection_criterion_mh(**source(case, cr), random_init=True, init_box=ibox, sampling_box=box, **mh_args(case))
        x0 = N(mh.x)[:, 0]
        check(all(inside(v, il, ih) for v in x0), f"random start {x0.tolist()} outside {il.tolist()}, {ih.tolist()}", "random start")
        check(nc == 1 or len(np.unique(x0[:, 0])) == nc, "random starts coincide", "random start")
    ctx.tag(case["form"])
    ctx.tag("T" if case["T"] != 1 else "T=1")
    ctx.nontrivial(moved and cut)


# -------------------------------------------------------------------- NUTS
def g_nuts(draw):
    c = g_crit(draw)
    c.update(ns=integer(draw, 1, 12), nw=integer(draw, 0, 12), nc=pick(draw, 1, 2, 3), depth=pick(draw, 4, 3, 5), eps=pick(draw, 0.3, None, 0.1), acc=pick(draw, 0.8, 0.6), mass=chance(draw, 1, 2), opts=chance(draw, 1, 3))
    return c


@PROP.case("nuts", g_nuts, quick=30, budget=(50, 400))
def c_nuts(case, ctx):
    cr = Crit(case)
    nc, d = case["nc"], case["d"]
    box, lo, hi = box_of(case, cr)
    kw = dict(target_accept=case["acc"], max_depth=case["depth"], init_step_size=case["eps"], init_mass_diag=A(np.linspace(0.5, 1.5, d)) if case["mass"] else None, seed=case["seed"], progress=False, verbose=0)
    if case["opts"]:
        kw = {"options": NU.NUTSOptions(**kw)}
    moved = False

    def mine(p):
        p = gnp.asarray(p)
        if not inside(N(p.detach() if hasattr(p, "detach") else p), lo, hi):
            return gnp.safe_neginf()
        try:
            return -cr(p)
        except RuntimeError:
            return gnp.safe_neginf()

    for form, arg, X0 in starts_of(case, cr, nc):
        given = arg if arg is None or np.isscalar(arg) else A(arg)
        seed_all(case["seed"])
        with quiet():
            out, info = PP.sample_from_selection_criterion_nuts(**source(case, cr), param_initial_states=given, sampling_box=box, num_samples=case["ns"], num_warmup=case["nw"], n_chains=nc, **kw)
        shape(f"samples ({form})", out, (nc, case["ns"], d))
        x = N(out)
        for c in range(nc):
            for t in range(case["ns"]):
                check(clean(cr, lo, hi, x[c, t]) > -np.inf, f"sample {x[c, t].tolist()} outside the support", "support")
        lp = info["log_prob_trace"]
        shape("log-density trace", lp, (case["ns"], nc))
        close("log-density of the samples", N(lp).T, [[-cr.np(v) for v in row] for row in x], rtol=1e-10, atol=1e-10, sig="log-density")
        # the same chain as NUTS run on minus the criterion
        seed_all(case["seed"])
        with quiet():
            raw, _ = NU.nuts_sample(mine, A(X0), num_samples=case["ns"], num_warmup=case["nw"], **kw)
        close(f"samples against NUTS on minus the criterion ({form})", x, N(raw).transpose(1, 0, 2), rtol=1e-7, atol=1e-9, sig="chain")
        moved = moved or np.abs(x - X0[:, None]).max() > 1e-3
    # starting states, through steps too small to move
    ibox, il, ih = box_of(case, cr, shrink=0.25, form="vec" if case["via"] == "fun" else None)
    if ibox is not None:
        seed_all(case["seed"] + 1)
        with quiet():
            out, _ = PP.sample_from_selection_criterion_nuts(**source(case, cr), random_init=True, init_box=ibox, sampling_box=box, num_samples=1, num_warmup=0, n_chains=nc, init_step_size=1e-9, max_depth=1, seed=case["seed"], progress=False, verbose=0)
        x0 = N(out)[:, 0]
        check(all(inside(v, il - 1e-6, ih + 1e-6) for v in x0), f"random start {x0.tolist()} outside {il.tolist()}, {ih.tolist()}", "random start")
        check(nc == 1 or np.ptp(x0[:, 0]) > 1e-7, "random starts coincide", "random start")
    ctx.tag(case["form"])
    ctx.nontrivial(moved and (box is not None or cr.fail != "none"))


# --------------------------------------------------------------------- SMC
def g_smc(draw):
    c = g_crit(draw)
    c.update(n=integer(draw, 30, 60), Ti=pick(draw, 1e6, 100.0, 30.0), Tf=pick(draw, 1.0, 0.5, 4.0), mhs=pick(draw, 3, 1, 6), ess=pick(draw, 0.5, 0.3, 0.7), shift=pick(draw, 0.0, 0.6, -0.6))
    if c["kind"] == "student" and c["form"] == "none":  # improper once tempered: no proposal scale suits
        c["kind"] = "quad"
    return c


@PROP.case("smc", g_smc, quick=30, budget=(50, 400), rule="several tempering stages were needed, or the support was cut, and the particles moved")
def c_smc(case, ctx):
    cr = Crit(case)
    d, n = case["d"], case["n"]
    box, lo, hi = box_of(case, cr)
    form = case["form"] if case["via"] == "info" and case["form"] != "none" else "vec"
    ibox, il, ih = box_of(case, cr, shrink=1.0, form=form)
    if case["shift"] and form == "vec":  # the initial box sticks out of the sampling box
        il, ih = il + case["shift"] * 0.3 * cr.s, ih + case["shift"] * 0.3 * cr.s
        ibox = [il.tolist(), ih.tolist()]
    # keep at least a share of the initial volume in the support
    grid = il + (ih - il) * np.random.default_rng(0).random((400, d))
    if np.mean([clean(cr, lo, hi, g) > -np.inf for g in grid]) < 0.3:
        return
    seed_all(case["seed"])
    seen = []

    def rec(p):
        seen.append(N(p).copy())
        return cr(p)

    src = source(case, cr)
    if case["via"] == "fun":
        src = {"selection_criterion": rec}
    with quiet():
        x, smc = PP.sample_from_selection_criterion_smc(**src, init_box=ibox, sampling_box=box, n_particles=n, initial_temperature=case["Ti"], final_temperature=case["Tf"], min_ess_ratio=case["ess"], mh_steps=case["mhs"])
    shape("particles", x, (n, d))
    x = N(x)
    for v in x:
        check(clean(cr, lo, hi, v) > -np.inf, f"particle {v.tolist()} outside the support", "support")
    shape("log-densities", smc.particles.logpx, (n,))
    close("log-density of the particles", N(smc.particles.logpx), [clean(cr, lo, hi, v, case["Tf"]) for v in x], rtol=1e-10, atol=1e-10, sig="log-density")
    if len(seen) >= n:
        check(all(inside(v, il, ih) for v in seen[:n]), "the criterion is first evaluated outside the initial box", "initial box")
        ctx.tag("initial box seen")
    stages = len(smc.log)
    ctx.tag(case["form"])
    ctx.nontrivial(stages > 3 or box is not None)


# -------------------------------------------------------------------- SVGD
def g_svgd(draw):
    c = g_crit(draw)
    c.update(n=pick(draw, 5, 1, 2, 12), steps=pick(draw, 6, 0, 1, 15), eps=pick(draw, 0.01, 0.1, 0.5), Ti=pick(draw, 10.0, 1.0, 3.0), Tf=pick(draw, 1.0, 0.5), sch=pick(draw, "geometric", "linear"), jit=pick(draw, 1e-3, 0.0, 0.05), bw=pick(draw, None, 0.7), hist=chance(draw, 1, 2), opts=chance(draw, 1, 3), pre=chance(draw, 1, 2), bmin=pick(draw, None, 0.4), bsc=pick(draw, 1.0, 0.5), progress=chance(draw, 1, 4))
    return c


@PROP.case("svgd", g_svgd, quick=40, budget=(50, 400))
def c_svgd(case, ctx):
    cr = Crit(case)
    d, n = case["d"], case["n"]
    box, lo, hi = box_of(case, cr)
    kw = dict(n_steps=case["steps"], step_size=case["eps"], initial_temperature=case["Ti"], final_temperature=case["Tf"], annealing_schedule=case["sch"], bandwidth=case["bw"], bandwidth_scale=case["bsc"], bandwidth_min=case["bmin"], preconditioner_diag=A(np.linspace(0.5, 1.0, d)) if case["pre"] else None, store_particles_history=case["hist"], progress=case["progress"])
    opts = SV.SVGDOptions(**kw, sampling_box=box)
    if case["opts"]:
        kw = {"options": opts}
    rng = np.random.default_rng(case["seed"])
    X = cr.c + cr.s * 0.25 * rng.uniform(-1, 1, (n, d))
    rep = np.tile(X[0], (n, 1))
    forms = [("rows", X, X, 0.0), ("vec", X[0], rep, case["jit"]), ("row", X[:1], rep, case["jit"])]
    if d == 1:
        forms.append(("scalar", float(X[0, 0]), rep, case["jit"]))
    if case["via"] == "info":
        forms.append(("none", None, np.tile(cr.c, (n, 1)), case["jit"]))

    def mine(p):
        p = gnp.asarray(p)
        if not inside(N(p.detach() if hasattr(p, "detach") else p), lo, hi):
            return gnp.safe_neginf()
        try:
            return -cr(p)
        except RuntimeError:
            return gnp.safe_neginf()

    moved = False
    for form, arg, X0, jit in forms:
        given = arg if arg is None or np.isscalar(arg) else A(arg)

        def go(**extra):
            seed_all(case["seed"])
            with quiet():
                return PP.sample_from_selection_criterion_svgd(**source(case, cr), particles_initial=given, sampling_box=box, n_particles=n, init_jitter=case["jit"], **extra)

        p0, _ = go(n_steps=0, progress=False)
        shape(f"initial particles ({form})", p0, (n, d))
        p0 = N(p0)
        if jit == 0.0 or n == 1:
            close(f"initial particles ({form})", p0, np.clip(X0, lo, hi), rtol=1e-14, atol=1e-14, sig="start")
        else:
            dev = np.abs(p0 - np.clip(X0, lo, hi)).max()
            check(0 < dev <= 8 * jit, f"initial particles ({form}) differ from the start by {dev}, jitter {jit}", "start")
        out, info = go(**kw)
        shape(f"particles ({form})", out, (n, d))
        x = N(out)
        check(np.all(np.isfinite(x)), "non-finite particles", "finite")
        check(all(inside(v, lo - 1e-12, hi + 1e-12) for v in x), f"particles {x.tolist()} outside the sampling box", "support")
        seed_all(case["seed"])
        with quiet():
            want, winfo = SV.svgd_sample(mine, A(p0), n_particles=n, dim=d, options=opts)
        close(f"particles against SVGD on minus the criterion ({form})", x, N(want), rtol=1e-6, atol=1e-8, sig="transport")
        if case["hist"]:
            h = info.get("particles_history")
            check(h is not None, "the requested history is missing", "history")
            shape("history", h, (case["steps"] + 1, n, d))
            close("initial particles of the history", N(h)[0], p0, rtol=1e-14, atol=1e-14, sig="history")
        moved = moved or np.abs(x - p0).max() > 1e-4
    if box is not None:
        # a start outside the sampling box begins on its boundary, whichever side it is on
        far = cr.c + cr.s * rng.choice([-40.0, 0.1, 40.0], (n, d))
        seed_all(case["seed"])
        with quiet():
            p0, _ = PP.sample_from_selection_criterion_svgd(**source(case, cr), particles_initial=A(far), sampling_box=box, n_particles=n, n_steps=0, progress=False)
        close("start outside the sampling box", p0, np.clip(far, lo, hi), rtol=1e-14, atol=1e-14, sig="start")
    if case["via"] == "fun":
        ibox, il, ih = box_of(case, cr, shrink=0.5, form="vec")
    else:
        ibox, il, ih = box_of(case, cr, shrink=0.5)
    if ibox is not None:
        seed_all(case["seed"])
        with quiet():
            p0, _ = PP.sample_from_selection_criterion_svgd(**source(case, cr), random_init=True, init_box=ibox, sampling_box=box, n_particles=n, n_steps=0, progress=False)
        shape("random particles", p0, (n, d))
        check(all(inside(v, il, ih) for v in N(p0)), f"random start {N(p0).tolist()} outside {il.tolist()}, {ih.tolist()}", "random start")
        check(n == 1 or len(np.unique(N(p0)[:, 0])) == n, "random starts coincide", "random start")
    ctx.tag(case["form"])
    ctx.nontrivial(moved and (box is not None or cr.fail != "none"))


# ----------------------------------------------- from a selection result of a GP
def g_gp(draw):
    d = integer(draw, 1, 2)
    n = integer(draw, 6, 10)
    x = points(draw, n, d, scale=1.0, lo=0.0)
    p = pick(draw, 1, 2, 3)
    return {"x": x, "p": p, "z": reals(draw, n, -2, 2), "cov": covparam_for(draw, x, p, condmax=1e4), "half": reals(draw, d + 1, 0.3, 1.0), "crit": pick(draw, "reml", "ml"), "T": pick(draw, 1.0, 4.0), "seed": integer(draw, 0, 10**6)}


@PROP.case("gaussian-process", g_gp, quick=12, budget=(50, 300), rule="samples differ from the selected parameter")
def c_gp(case, ctx):
    x, z, p = np.array(case["x"]), np.array(case["z"]), case["p"]
    d = x.shape[1]
    if np.ptp(z) < 0.5 or np.linalg.norm(z - z.mean()) < 0.5:
        return
    reml = case["crit"] == "reml"
    mean = {"type": "linear_predictor", "kind": "const"} if reml else {"type": "parameterized", "kind": "const", "theta": [0.3]}
    model = make_model(mean, p, None)
    k = gp.kernel
    if reml:
        J = lambda cp: ref.reml(ref.matern_cov(x, x, p, cp), np.ones((len(x), 1)), z)
    c0 = A(case["cov"])
    # a selection result as documented, without the cost of optimising
    with quiet():
        if reml:
            model, info = k.select_parameters_with_reml(model, A(x), A(z), info=True)
        else:
            model = make_model({"type": "zero"}, p, c0)
            model, info = k.select_parameters_with_criterion(model, lambda m, cp, xi, zi: m.negative_log_likelihood_zero_mean(cp, xi, zi), A(x), A(z), covparam0=c0, info=True)
    cs = N(info["covparam"] if isinstance(info, dict) else info.covparam)
    if not np.all(np.isfinite(cs)) or np.abs(cs).max() > 12:
        return
    h = np.array(case["half"])
    lo, hi = cs - h, cs + h
    box = [lo.tolist(), hi.tolist()]
    if not reml:
        J = lambda cp: ref.gauss_nll(ref.matern_cov(x, x, p, cp), z)

    def cond(cp):
        return np.linalg.cond(ref.matern_cov(x, x, p, cp))

    if max(cond(lo), cond(hi), cond(cs), cond(np.r_[lo[0], lo[1:]])) > 1e9:
        return
    tol = dict(rtol=1e-5, atol=1e-4)
    info_ns = info

    def verify(name, X, lv, T=1.0):
        for v in X:
            check(inside(v, lo - 1e-12, hi + 1e-12), f"{name}: sample {v.tolist()} outside the box", "support")
        close(f"{name}: log-density of the samples", lv, [-J(v) / T for v in X], sig="log-density", **tol)

    seed_all(case["seed"])
    with quiet():
        s, mh = PP.sample_from_selection_criterion_mh(info=info_ns, sampling_box=box, temperature=case["T"], n_steps_total=40, burnin_period=10, silent=True, plot_chains=False, plot_empirical_distributions=False)
    shape("MH samples", s, (2, 30, d + 1))
    same("start of the chains", N(mh.x)[:, 0], np.tile(cs, (2, 1)), sig="start")
    verify("MH", N(mh.x).reshape(-1, d + 1), N(PP.get_log_target_values(mh)).reshape(-1), case["T"])
    with quiet():
        s, inf = PP.sample_from_selection_criterion_nuts(info=info_ns, sampling_box=box, num_samples=3, num_warmup=0, n_chains=1, init_step_size=0.1, max_depth=2, seed=case["seed"], progress=False, verbose=0)
    verify("NUTS", N(s)[0], N(inf["log_prob_trace"])[:, 0])
    with quiet():
        s, smc = PP.sample_from_selection_criterion_smc(info=info_ns, init_box=box, sampling_box=box, n_particles=20, mh_steps=2, final_temperature=case["T"])
    verify("SMC", N(s), N(smc.particles.logpx), case["T"])
    with quiet():
        s, inf = PP.sample_from_selection_criterion_svgd(info=info_ns, sampling_box=box, n_particles=4, n_steps=2, progress=False)
    check(all(inside(v, lo - 1e-12, hi + 1e-12) for v in N(s)), "SVGD particle outside the box", "support")
    ctx.tag(case["crit"])
    ctx.nontrivial(len(np.unique(N(mh.x)[:, :, 0])) > 3)


# ---------------------------------------------------------------- refusals
def g_ref(draw):
    c = g_crit(draw)
    c["badT"] = pick(draw, 0.0, -1.0, -0.3)
    return c


@PROP.case("refusals", g_ref, quick=25, budget=(30, 120), rule="every case")
def c_ref(case, ctx):
    cr = Crit(dict(case, fail="none"))
    d = case["d"]
    info = types.SimpleNamespace(covparam=A(cr.c), selection_criterion=cr, selection_criterion_nograd=cr)
    mhk = dict(n_steps_total=4, burnin_period=1, silent=True, plot_chains=False, plot_empirical_distributions=False)
    samplers = {
        "mh": (PP.sample_from_selection_criterion_mh, mhk, "param_initial_states"),
        "nuts": (PP.sample_from_selection_criterion_nuts, dict(num_samples=1, num_warmup=0, init_step_size=0.1, max_depth=1, progress=False, verbose=0), "param_initial_states"),
        "smc": (PP.sample_from_selection_criterion_smc, dict(init_box=[cr.c.tolist(), (cr.c + 1).tolist()], n_particles=20, mh_steps=1), None),
        "svgd": (PP.sample_from_selection_criterion_svgd, dict(n_steps=1, progress=False, n_particles=3), "particles_initial"),
    }

    def refused(name, fn, **kw):
        with quiet():
            raised = False
            try:
                fn(**kw)
            except ValueError:
                raised = True
        check(raised, f"{name}: accepted", "refusal")

    for name, (fn, kw, start) in samplers.items():
        refused(f"{name}: neither result nor criterion", fn, **kw)
        refused(f"{name}: both result and criterion", fn, info=info, selection_criterion=cr, **kw)
        refused(f"{name}: result without criterion", fn, info=types.SimpleNamespace(covparam=A(cr.c)), **kw)
        for bad in ([0.0], [0.0, 1.0, 2.0], [[0.0] * (d + 1), [1.0] * (d + 1)], 3.0, [[0.0] * (d + 2), 1.0]):
            refused(f"{name}: sampling box {bad}", fn, info=info, sampling_box=bad, **kw)
            if name == "smc":
                refused(f"{name}: initial box {bad}", fn, info=info, **{**kw, "init_box": bad})
        if start:
            refused(f"{name}: no starting point", fn, selection_criterion=cr, sampling_box=[[0.0] * d, [1.0] * d], **kw)
            refused(f"{name}: random start without a box", fn, info=info, random_init=True, **kw)
            refused(f"{name}: starting point of three axes", fn, selection_criterion=cr, **{start: A(np.zeros((1, 1, d)))}, **kw)
            refused(f"{name}: dimension cannot be inferred", fn, selection_criterion=cr, random_init=True, init_box=[0.0, 1.0], **kw)
    for name in ("mh", "nuts"):
        fn, kw, start = samplers[name]
        refused(f"{name}: starts for the wrong number of chains", fn, selection_criterion=cr, n_chains=2, param_initial_states=A(np.zeros((7, 5))), **kw)
    refused("smc: no initial box", PP.sample_from_selection_criterion_smc, info=info, n_particles=20)
    refused("mh: temperature", PP.sample_from_selection_criterion_mh, info=info, temperature=case["badT"], **mhk)
    refused("mh: burn-in longer than the run", PP.sample_from_selection_criterion_mh, info=info, **{**mhk, "burnin_period": 5})
    refused("log-densities of a chain that never ran", PP.get_log_target_values, mh=MH.MetropolisHastings(lambda v: 0.0, options=MH.MHOptions(dim=1, n_chains=1, n_pool=1)))
    # a result whose plain criterion is missing still serves the gradient-free samplers
    lone = types.SimpleNamespace(covparam=A(cr.c), selection_criterion=cr)
    with quiet():
        out, _ = PP.sample_from_selection_criterion_mh(info=lone, **mhk)
    shape("samples from a result with one criterion", out, (2, 3, d))
    ctx.nontrivial(True)
