"""P32: configuration and imports."""
import os

import numpy as np
from hypothesis import strategies as st

from vf import ref
from vf.core import Prop
from vf.forkserver import ForkServer
from vf.util import chance, check, close, integer, pick

PROP = Prop(
    "P32",
    rule="a request for a backend or a data type is made in the program, or at least two packages are imported",
    assumptions=[
        "every scenario runs in a process that has not imported the package before",
        "an installation without torch is simulated by making its import fail",
        "requests made after the numerical layer has been imported are outside the documented use and are not generated",
    ],
)
SERVERS = {}
MODULES = ["gpmp", "gpmp.config", "gpmp.num", "gpmp.core", "gpmp.kernel", "gpmp.dataloader", "gpmp.parameter", "gpmp.misc", "gpmp.misc.designs", "gpmp.modeldiagnosis", "gpmp.mcmc", "gpmp.mcmc.mh", "gpmp.mcmc.nuts", "gpmp.mcmc.svgd", "gpmp.mcmc.smc", "gpmp.mcmc.param_posterior", "gpmp.kernel.priors", "gpmp.plot"]
ATTRS = ["Model", "num", "core", "kernel", "dataloader", "modeldiagnosis", "mcmc", "parameter", "misc", "plot", "config"]
PUBLIC = ["gpmp", "gpmp.core", "gpmp.kernel", "gpmp.mcmc", "gpmp.modeldiagnosis", "gpmp.parameter", "gpmp.misc", "gpmp.plot", "gpmp.num"]
WITHOUT_FIGURES = {"gpmp", "gpmp.config", "gpmp.num", "gpmp.core", "gpmp.kernel", "gpmp.dataloader", "gpmp.parameter", "gpmp.modeldiagnosis", "gpmp.kernel.priors"}


def server(mode):
    if mode not in SERVERS:
        SERVERS[mode] = ForkServer(mode)
    return SERVERS[mode]


def cased(draw, s):
    return pick(draw, s, s, s.upper(), s.capitalize(), s[0] + s[1:].upper())


GOOD_DTYPE = ["float64", "double", "np.float64", "torch.float64", "numpy.float64", "Float64", "<f8", "f8"]
BAD_DTYPE = ["float32", "torch.float32", "np.float32", "single", "f4", "<f4", "int32", "half", "FLOAT32"]
BAD_BACKEND = ["jax", "JAX", "tensorflow", "", "numpy ", "cupy"]


def request(draw, bad):
    """One request made before the numerical layer is imported."""
    kind = integer(draw, 0, 4)
    b = pick(draw, *BAD_BACKEND) if bad else cased(draw, pick(draw, "numpy", "torch"))
    d = pick(draw, *BAD_DTYPE) if bad else pick(draw, *GOOD_DTYPE)
    if kind == 0:
        return ["set_backend", b]
    if kind == 1:
        return ["update", {"backend": b}]
    if kind == 2:
        return ["set_dtype", d]
    if kind == 3:
        good = cased(draw, pick(draw, "numpy", "torch"))
        return ["update", {"backend": b if not bad or chance(draw, 1, 2) else good, "dtype": d, "seed": integer(draw, 0, 99)}]
    return ["get_backend"]


def g_case(draw):
    mode = pick(draw, "torch", "torch", "bare")
    env = {}
    k = integer(draw, 0, 7)
    if k < 5:
        env["GPMP_BACKEND"] = cased(draw, pick(draw, "numpy", "torch"))
    elif k == 5:
        env["GPMP_BACKEND"] = pick(draw, "", "automatic", "jax", "JAX")
    k = integer(draw, 0, 5)
    if k == 0:
        env["GPMP_DTYPE"] = pick(draw, *GOOD_DTYPE)
    elif k == 1 and chance(draw, 1, 3):
        env["GPMP_DTYPE"] = pick(draw, *BAD_DTYPE)
    level = pick(draw, None, "WARNING", "info", "Error", "nonsense")
    if level:
        env["GPMP_LOG_LEVEL"] = level
    steps = []
    if chance(draw, 1, 3):
        steps.append(["import", "gpmp"])
    for _ in range(integer(draw, 0, 4)):
        steps.append(request(draw, chance(draw, 1, 3)))
        if chance(draw, 1, 3):
            steps.append(["state"])
    steps.append(["state"])
    mods = draw(st.lists(st.sampled_from(range(len(MODULES))), max_size=6, unique=True))
    for i in mods:
        steps.append(["import", MODULES[i]])
    for _ in range(integer(draw, 0, 5)):
        k = integer(draw, 0, 3)
        if k == 0:
            steps.append(["attr", pick(draw, *ATTRS)])
        elif k == 1:
            steps.append(["names", pick(draw, *PUBLIC)])
        elif k == 2:
            steps.append(["from", pick(draw, "gpmp.kernel", "gpmp.mcmc", "gpmp", "gpmp.parameter", "gpmp.modeldiagnosis"), "*"])
        else:
            steps.append(["clear"] if chance(draw, 1, 2) else ["clear", pick(draw, "gammaln", "mine")])
    if chance(draw, 1, 2):
        steps += [["cache", "mine", 3], ["cache", "other", 4], ["state"], ["clear", "mine"], ["state"]]
        if chance(draw, 1, 2):
            steps += [["clear"], ["state"]]
    steps += [["use"], ["get_backend"], ["state"], ["version"]]
    if mode == "bare":  # everything asked for must be available there
        env = {k: ("numpy" if k == "GPMP_BACKEND" and v.lower() == "torch" else v) for k, v in env.items()}
        out = []
        for s in steps:
            if s[0] == "set_backend" and s[1].lower() == "torch":
                s = ["set_backend", "NumPy"]
            if s[0] == "update" and s[1].get("backend", "").lower() == "torch":
                s = ["update", {**s[1], "backend": "NUMPY"}]
            out.append(s)
        steps = out
    return {"mode": mode, "env": env, "steps": steps}


X = np.array([[0.0], [0.7], [1.5]])
Z = np.array([1.0, -0.5, 2.0])
XT = np.array([[0.3], [0.7]])


def expected_prediction():
    p = np.array([0.3, -0.2])
    k = lambda a, b: ref.matern_cov(a, b, 2, p)
    return ref.krige_blup(k(X, X), np.ones((3, 1)), k(X, XT), np.ones((2, 1)), k(XT, XT), Z)


def level_of(name):
    return {"WARNING": 30, "INFO": 20, "ERROR": 40}.get(name.upper(), 20)


@PROP.case("processes", g_case, quick=260, thorough=3000, budget=(45, 400), backends=("numpy",))
def c_proc(case, ctx):
    env, steps = case["env"], case["steps"]
    got = server(case["mode"]).run({"env": env, "steps": steps})
    ctx.tag(case["mode"])
    ctx.nontrivial(any(s[0] in ("set_backend", "set_dtype", "update") for s in steps) or sum(s[0] == "import" for s in steps) >= 2)

    if "GPMP_DTYPE" in env and env["GPMP_DTYPE"] in BAD_DTYPE:
        ctx.tag("unsupported type in the environment")
        check(all(r.get("raised") == "ValueError" for r in got), f"a type other than double precision in the environment is accepted: {got}", "env-dtype")
        return
    # model of the configuration
    e = env.get("GPMP_BACKEND", "").lower()
    auto = "torch" if case["mode"] == "torch" else "numpy"
    detected = e if e in ("numpy", "torch") else ("jax" if e == "jax" else auto)
    backend, dtype, seed, device, env_backend = None, "float64", 1234, "cpu", env.get("GPMP_BACKEND")
    caches = set()

    def settle():
        nonlocal backend, env_backend
        if backend is None:
            backend = env_backend = detected

    figures = False
    for i, (s, r) in enumerate(zip(steps, got)):
        what = f"{s} after {steps[:i]} with {env} ({case['mode']})"
        op = s[0]
        ok = "ok" in r
        if op in ("set_backend", "update", "set_dtype"):
            kw = {"backend": s[1]} if op == "set_backend" else {"dtype": s[1]} if op == "set_dtype" else s[1]
            good = ("backend" not in kw or kw["backend"].lower() in ("numpy", "torch")) and ("dtype" not in kw or kw["dtype"] in GOOD_DTYPE)
            ctx.tag("accepted request" if good else "refused request")
            if good:
                check(ok, f"{what}: raised {r}", "request")
                if "backend" in kw:
                    backend = env_backend = kw["backend"].lower()
                seed = kw.get("seed", seed)
            else:
                check(r.get("raised") == "ValueError", f"{what}: not refused ({r})", "refusal")
            continue
        if op == "state":
            check(ok, f"{what}: raised {r}", "state")
            g = r["ok"]
            if backend is None:  # not needed yet: found out or not
                check(g["backend"] in (None, detected), f"{what}: backend is {g['backend']!r}, expected {detected!r} or none yet", "state:backend")
                check(g["env_backend"] in (env_backend, detected), f"{what}: the environment says {g['env_backend']!r}", "state:env_backend")
            else:
                check(g["backend"] == backend, f"{what}: backend is {g['backend']!r}, expected {backend!r}", "state:backend")
                check(g["env_backend"] == env_backend, f"{what}: the environment says {g['env_backend']!r}, expected {env_backend!r}", "state:env_backend")
            want = {"dtype": dtype, "seed": seed, "device": device, "caches": sorted(caches)}
            for k, v in want.items():
                check(g[k] == v, f"{what}: {k} is {g[k]!r}, expected {v!r}", "state:" + k)
            check(g["level"] == level_of(env.get("GPMP_LOG_LEVEL", "INFO")), f"{what}: log level {g['level']}", "level")
            check(all(repr(v) in t or str(v) in t for t in g["text"] for v in (g["backend"], dtype, seed)), f"{what}: printed configuration {g['text']}", "text")
            if not figures and case["mode"] == "bare":
                check(not g["matplotlib"], f"{what}: the drawing library has been imported", "figures")
            continue
        if op == "cache":
            caches.add(s[1])
        if op == "clear":
            caches -= {s[1]} if len(s) > 1 else set(caches)
        if op in ("import", "attr", "names", "from", "use", "get_backend"):
            if op not in ("use", "get_backend") and (s[1] if op != "attr" else "gpmp." + s[1]) not in WITHOUT_FIGURES or op in ("names", "from"):
                figures = True
            if backend is None and detected == "jax":
                needs = op in ("use", "get_backend")
                check(r.get("raised") == "RuntimeError" or ok and not needs, f"{what}: an unsupported backend in the environment is not refused ({r})", "jax")
                continue
            check(ok, f"{what}: raised {r}", "import")
            if op in ("use", "get_backend") or op == "import" and s[1] == "gpmp.num" or op == "attr" and s[1] == "num":
                settle()
        else:
            check(ok, f"{what}: raised {r}", "step")
        if op == "names":
            check(r["ok"] == [], f"{what}: {r['ok']}", "names")
        elif op == "get_backend":
            check(r["ok"] == backend, f"{what}: {r['ok']}, expected {backend}", "backend")
        elif op == "attr":
            check(r["ok"] == ("Model" if s[1] == "Model" else "gpmp." + s[1]), f"{what}: {r['ok']}", "attr")
        elif op == "version":
            with open("/repo/VERSION") as fh:
                v = fh.read().strip()
            check(r["ok"] == [v, v], f"{what}: {r['ok']} instead of {v}", "version")
        elif op == "use":
            u = r["ok"]
            check(u["backend"] == backend, f"{what}: the arrays are those of {u['backend']}, expected {backend}", "backend-used")
            for k, d in u["arrays"].items():
                check(d[0] == backend and d[1] == "float64", f"{what}: {k} gives {d}", "array-type")
            check("float64" in u["dtype"], f"{what}: data type {u['dtype']}", "dtype")
            m, v = expected_prediction()[:2]
            close("prediction", np.array(u["mean"]), np.asarray(m).ravel(), rtol=1e-9, atol=1e-9)
            v = np.asarray(v)
            close("variance", np.array(u["var"]), (np.diag(v) if v.ndim == 2 else v).ravel(), rtol=1e-8, atol=1e-9)


def g_lazy(draw):
    names = draw(st.permutations(sorted(WITHOUT_FIGURES)))[: integer(draw, 1, len(WITHOUT_FIGURES))]
    return {"names": list(names) + (["gpmp.modeldiagnosis"] if chance(draw, 1, 2) and "gpmp.modeldiagnosis" not in names else []), "attr": chance(draw, 1, 2)}


@PROP.case("drawing-library", g_lazy, quick=20, thorough=100, budget=(12, 60), backends=("numpy",), rule="model diagnosis is imported")
def c_lazy(case, ctx):
    steps = [["attr", n[5:]] if case["attr"] and n.count(".") == 1 else ["import", n] for n in case["names"]] + [["state"]]
    got = server("bare").run({"env": {}, "steps": steps})
    for s, r in zip(steps, got):
        check("ok" in r, f"{s}: raised {r}", "import")
    ctx.nontrivial("gpmp.modeldiagnosis" in case["names"])
    check(not got[-1]["ok"]["matplotlib"], f"importing {case['names']} imports the drawing library", "figures")
