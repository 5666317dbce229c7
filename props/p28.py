"""P28: fixing the seed fixes every random result."""
import random

import numpy as np

from vf.core import Prop
from vf.peer import Peer
from vf.util import A, N, check, chance, close, gnp, gp, integer, pick, shape

from props import p28ops as O

PROP = Prop(
    "P28",
    rule="every operation was repeated after an unrelated history",
    assumptions=[
        "results of different seeds or of consecutive draws coincide with probability below 1e-9 for the sizes used",
        "across processes results are compared to 1e-9 relative",
        "Latin hypercube designs and particle sets without a generator take fresh entropy by design; uniform designs use NumPy's global generator",
    ],
)

_PEER = []


def disturb(rng, c):
    """Unrelated use of every random source."""
    np.random.seed(int(rng.integers(2**31)))
    np.random.rand(int(rng.integers(1, 5)))
    random.seed(int(rng.integers(2**31)))
    gnp.set_seed(int(rng.integers(2**31)))
    gnp.randn(int(rng.integers(1, 7)))
    if gp.config.get_backend() == "torch":
        import torch

        torch.manual_seed(int(rng.integers(2**31)))
        torch.rand(3)


def g(draw):
    return {"seed": integer(draw, 0, 2**31 - 2), "other": integer(draw, 1, 1000), "d": integer(draw, 1, 3), "n": integer(draw, 40, 60), "hist": integer(draw, 0, 10**6)}


@PROP.case("seeds", g, quick=25, budget=(60, 400))
def c_seeds(case, ctx):
    if not _PEER:
        _PEER.append(Peer(ctx.backend))
    _PEER[0].send("props.p28ops", "all", case)
    try:
        mine = local(case)
    finally:
        there = _PEER[0].receive()
    for k, v in mine.items():
        w = there[k]
        check(len(v) == len(w), f"{k}: {len(v)} values here, {len(w)} in another process", "process")
        close(f"{k}: same seed in another process", v, w, rtol=1e-9, atol=1e-9, sig=f"process:{k}")
    ctx.nontrivial(True)


def local(case):
    rng = np.random.default_rng(case["hist"])
    s, s2 = case["seed"], case["seed"] + case["other"]
    out = {}
    for k in rng.permutation(list(O.LIB)):
        disturb(rng, case)
        gnp.set_seed(s)
        a = O.lib(k, case)
        again = O.lib(k, case)
        disturb(rng, case)
        np.random.seed(1)
        gnp.set_seed(s)
        b = O.lib(k, case)
        check(a == b, f"{k}: setting seed {s} twice gives different values", f"seed:{k}")
        check(a != again, f"{k}: consecutive calls give the same values", f"stream:{k}")
        gnp.set_seed(s2)
        check(O.lib(k, case) != a, f"{k}: seeds {s} and {s2} give the same values", f"distinct:{k}")
        out["lib " + k] = a
    for k in rng.permutation(list(O.OWN)):
        disturb(rng, case)
        a = O.own(k, case, s)
        disturb(rng, case)
        b = O.own(k, case, s)
        check(a == b, f"{k} with its own seed {s} depends on other random sources", f"own:{k}")
        disturb(rng, case)
        b = O.own(k, case, 0)
        disturb(rng, case)
        check(O.own(k, case, 0) == b, f"{k} with its own seed 0 depends on other random sources", f"own:{k}")
        check(O.own(k, case, s2) != a, f"{k}: own seeds {s} and {s2} give the same values", f"own distinct:{k}")
        out["own " + k] = a
    return out


def g_seq(draw):
    names = list(O.LIB)
    return {"seed": integer(draw, 0, 10**6), "d": integer(draw, 1, 2), "n": 40, "ops": [integer(draw, 0, len(names) - 1) for _ in range(integer(draw, 2, 7))], "hist": integer(draw, 0, 10**6)}


@PROP.case("sequences", g_seq, quick=60, budget=(30, 300), rule="the sequence repeats some operation")
def c_seq(case, ctx):
    names = list(O.LIB)
    rng = np.random.default_rng(case["hist"])

    def go():
        disturb(rng, case)
        gnp.set_seed(case["seed"])
        return [O.lib(names[i], case) for i in case["ops"]]

    a, b = go(), go()
    for i, (u, v) in enumerate(zip(a, b)):
        check(u == v, f"{names[case['ops'][i]]} as number {i} of a sequence is not reproduced", "sequence")
        for j in range(i):
            if case["ops"][i] == case["ops"][j]:
                check(a[j] != u, f"{names[case['ops'][i]]} repeats its values within a sequence", "repeat")
    ctx.nontrivial(len(set(case["ops"])) < len(case["ops"]))


@PROP.case("generators", g, quick=40, budget=(20, 100))
def c_gen(case, ctx):
    """Sources other than the library's generator."""
    rng = np.random.default_rng(case["hist"])
    d, s = case["d"], case["seed"]
    box = [[0.0] * d, [2.0] * d]

    def uni():
        disturb(rng, case)
        np.random.seed(s)
        return O.flat(O.quiet(lambda: O.DS.randunif(d, 5, box)))

    a = uni()
    check(uni() == a, "uniform design with NumPy's seed set", "design")
    np.random.seed(s + 1)
    check(O.flat(O.DS.randunif(d, 5, box)) != a, "uniform designs of different seeds coincide", "design")

    # explicitly seeded designs of the loader family do not repeat across epochs
    ld = gp.dataloader.DataLoader(O.data(case), batch_size=case["n"], shuffle=True, seed=s)
    e = [tuple(O.flat([N(b[1]) for b in ld])) for _ in range(3)]
    check(len(set(e)) == 3, "epochs of a seeded loader repeat", "epochs")
    ld2 = gp.dataloader.DataLoader(O.data(case), batch_size=case["n"], shuffle=True, seed=s)
    disturb(rng, case)
    e2 = [tuple(O.flat([N(b[1]) for b in ld2]))]
    disturb(rng, case)
    e2.append(tuple(O.flat([N(b[1]) for b in ld2])))
    check(e2 == e[:2], "a seeded loader depends on other random sources", "epochs")

    for own in (None, 0, s):
        reps = [tuple(O.flat([N(a), N(b)])) for a, b in gp.dataloader.Dataset.repeated_k_fold_indices(case["n"], 4, 3, own)]
        check(len(reps) == 12 and len({reps[0], reps[4], reps[8]}) == 3, f"repetitions of the folds (seed {own}) coincide", "repetitions")

    def particles():
        disturb(rng, case)
        np.random.seed(5)
        gnp.set_seed(6)
        return O.flat(O.quiet(lambda: O.smc(case, np.random.default_rng(s))))

    check(particles() == particles(), "a particle set with its own generator is not reproduced", "particles")
    ctx.nontrivial(True)
