"""Random operations of the library, for P28."""
import contextlib
import io
import warnings

import numpy as np

from vf.util import A, N, gnp, gp, make_model

import gpmp.mcmc.mh as MH
import gpmp.mcmc.nuts as NU
import gpmp.mcmc.param_posterior as PP
import gpmp.mcmc.smc as SM
import gpmp.mcmc.svgd as SV
import gpmp.misc.designs as DS

D = gp.dataloader


def toy(p):
    p = gnp.asarray(p)
    return 0.5 * gnp.sum((p - 0.2) ** 2)


def neg(p):
    return -toy(p)


def chain(method):
    def fn(c):
        d = c["d"]
        mh = MH.MetropolisHastings(neg, options=MH.MHOptions(dim=d, n_chains=2, n_pool=1, adaptation_method=method, adaptation_interval=5))
        return N(mh.scheduler(A(np.zeros((2, d))), 16, 5))

    return fn


def model(c):
    return make_model({"type": "zero"}, 1, [0.3] + [1.0] * c["d"])


def nuts(c, seed=None):
    s, info = NU.nuts_sample(neg, A(np.zeros((1, c["d"]))), num_samples=4, num_warmup=0, init_step_size=0.5, max_depth=4, seed=seed, progress=False, verbose=0)
    return N(s)


def warm(c, seed=None):
    s, info = NU.nuts_sample(neg, A(np.zeros((2, c["d"]))), num_samples=4, num_warmup=4, max_depth=4, seed=seed, progress=False, verbose=0)
    # the chains may stay put for a while: the acceptance statistics tell runs apart
    return [N(s), N(info["accept_stat"]), N(info["warmup_accept_stat"])]


def svgd(c):
    s, _ = PP.sample_from_selection_criterion_svgd(selection_criterion=toy, particles_initial=A(np.zeros(c["d"])), n_particles=4, n_steps=2, init_jitter=0.1, progress=False)
    return N(s)


def mh_posterior(c):
    s, _ = PP.sample_from_selection_criterion_mh(selection_criterion=toy, param_initial_states=A(np.zeros(c["d"])), n_steps_total=12, burnin_period=4, silent=True, plot_chains=False, plot_empirical_distributions=False)
    return N(s)


def nuts_posterior(c, seed=None):
    s, _ = PP.sample_from_selection_criterion_nuts(selection_criterion=toy, param_initial_states=A(np.zeros(c["d"])), num_samples=4, num_warmup=0, init_step_size=0.5, n_chains=1, max_depth=4, seed=seed, progress=False, verbose=0)
    return N(s)


def data(c):
    n = c["n"]
    return D.Dataset(A(np.arange(float(n)).reshape(-1, 1)), A(np.arange(float(n))))


def parts(c, seed=None):
    return [N(v[1]).reshape(-1).tolist() for s in D.Dataset.split(data(c), (0.5, 0.5), seed) for v in [s[i] for i in range(len(s))]]


def folds(c, seed=None):
    return [[N(a).tolist(), N(b).tolist()] for a, b in D.Dataset.k_fold_indices(c["n"], 3, seed)]


def rfolds(c, seed=None):
    return [[N(a).tolist(), N(b).tolist()] for a, b in D.Dataset.repeated_k_fold_indices(c["n"], 3, 2, seed)]


def epochs(c, seed=None):
    ld = D.DataLoader(data(c), batch_size=4, shuffle=True, seed=seed)
    return [[N(b[1]).reshape(-1).tolist() for b in ld] for _ in range(2)]


# operations drawing from the library's generator
LIB = {
    "rand": lambda c: N(gnp.rand(3, 2)),
    "rand scalar": lambda c: [float(gnp.to_scalar(gnp.rand(1)[0])) for _ in range(2)],
    "randn": lambda c: N(gnp.randn(4)),
    "permutation": lambda c: N(gnp.permutation(40)),
    "permutation of an array": lambda c: N(gnp.permutation(A(np.arange(40.0)))),
    "choice": lambda c: N(gnp.choice(A(np.arange(50.0)), 20)),
    "choice without replacement": lambda c: N(gnp.choice(A(np.arange(50.0)), 25, replace=False)),
    "choice with weights": lambda c: N(gnp.choice(A(np.arange(50.0)), 20, replace=True, p=np.arange(1, 51) / 1275.0)),
    "normal vectors": lambda c: N(gnp.multivariate_normal.rvs(A(np.zeros(c["d"] + 1)), A(np.eye(c["d"] + 1) + 0.5), n=3)),
    "normal numbers": lambda c: N(gnp.multivariate_normal.rvs(1.0, 2.0, n=5)),
    "paths": lambda c: N(model(c).sample_paths(A(np.linspace(0, 1, 4 * c["d"]).reshape(4, c["d"])), 2)),
    "paths by svd": lambda c: N(model(c).sample_paths(A(np.linspace(0, 1, 4 * c["d"]).reshape(4, c["d"])), 2, method="svd")),
    "Haario chain": chain("Haario"),
    "RM chain": chain("RM"),
    "MH posterior": mh_posterior,
    "NUTS": nuts,
    "adapted NUTS": warm,
    "NUTS posterior": nuts_posterior,
    "SVGD": svgd,
    "split": parts,
    "folds": folds,
    "repeated folds": rfolds,
    "loader": epochs,
}

# operations with their own seed
OWN = {"NUTS": nuts, "adapted NUTS": warm, "NUTS posterior": nuts_posterior, "split": parts, "folds": folds, "repeated folds": rfolds, "loader": epochs}


def smc(c, rng):
    """Particles given their own generator."""
    P = SM.ParticlesSet([[0.0] * c["d"], [1.0] * c["d"]], 12, rng=rng)
    P.set_logpdf(lambda x: gnp.asarray(-N(x).sum(1)))
    P.reweight()
    P.resample()
    return N(P.x)


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def flat(v):
    if isinstance(v, np.ndarray):
        return v.astype(float).ravel().tolist()
    if isinstance(v, (list, tuple)):
        return [w for u in v for w in flat(u)]
    return [float(v)]


def lib(name, c):
    return flat(quiet(lambda: LIB[name](c)))


def own(name, c, seed):
    return flat(quiet(lambda: OWN[name](c, seed)))


def run(what, c):
    """In another process: the same seeds, another history."""
    out = {}
    for k in reversed(list(LIB)):
        gnp.set_seed(c["seed"])
        out["lib " + k] = lib(k, c)
    for k in reversed(list(OWN)):
        out["own " + k] = own(k, c, c["seed"])
    return out
