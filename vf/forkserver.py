"""Fresh processes on request: a parent that never imports gpmp, forked once per scenario.

Used as a module:  ForkServer(mode).run(scenario) -> list of step results
Run as a script:   python forkserver.py MODE, one JSON scenario per line on stdin.
MODE: "torch" (both libraries importable), "bare" (torch cannot be imported).
"""
import atexit
import json
import os
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT = 60.0


class ForkServer:
    def __init__(self, mode):
        env = {k: v for k, v in os.environ.items() if not k.startswith("GPMP_")}
        env.update(PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
        self.p = subprocess.Popen(
            [sys.executable, os.path.abspath(__file__), mode],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=HERE, text=True,
        )
        atexit.register(self.close)

    def run(self, scenario):
        from vf.core import HarnessError

        self.p.stdin.write(json.dumps(scenario) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError("the process server died")
        r = json.loads(line)
        if "harness" in r:
            raise HarnessError(r["harness"])
        return r["steps"]

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()


# ---------------------------------------------------------------- child side
def describe(v):
    m = type(v).__module__.split(".")[0]
    return [m, str(getattr(v, "dtype", type(v).__name__)).replace("torch.", ""), list(getattr(v, "shape", []))]


def where_from(exc):
    import traceback

    return [f"{f.filename.split('/repo/')[-1]}:{f.lineno}" for f in traceback.extract_tb(exc.__traceback__) if "/repo/" in f.filename][-3:]


def use():
    """Every kind of array the numerical layer makes, and a small prediction."""
    import numpy as np
    import gpmp as gp
    import gpmp.num as gnp

    a = {
        "asarray-list": gnp.asarray([1.5, 2.0]),
        "asarray-f32": gnp.asarray(np.ones(2, np.float32)),
        "zeros": gnp.zeros((2, 1)),
        "ones": gnp.ones(2),
        "eye": gnp.eye(2),
        "linspace": gnp.linspace(0.0, 1.0, 3),
        "randn": gnp.randn(2, 2),
        "rand": gnp.rand(2, 2),
        "exp": gnp.exp(gnp.asarray([0.0, 1.0])),
        "full": gnp.full((2,), 0.5),
        "empty": gnp.empty((2,)),
    }
    x = np.array([[0.0], [0.7], [1.5]])
    z = np.array([1.0, -0.5, 2.0])
    m = gp.Model(
        lambda x, p: gnp.ones((x.shape[0], 1)),
        lambda x, y, p, pairwise=False: gp.kernel.maternp_covariance(x, y, 2, p, pairwise),
        None, gnp.asarray([0.3, -0.2]),
    )
    zm, zv = m.predict(x, z, np.array([[0.3], [0.7]]))
    return {
        "arrays": {k: describe(v) for k, v in a.items()},
        "ones": gnp.to_np(a["ones"]).tolist(),
        "backend": gnp._gpmp_backend_,
        "dtype": str(gnp.get_dtype()),
        "mean": np.asarray(zm).ravel().tolist(),
        "var": np.asarray(zv).ravel().tolist(),
    }


def names(mod):
    """Public names of a package: each resolves, is listed, and is one object however it is reached."""
    import importlib

    m = importlib.import_module(mod)
    bad = []
    for n in getattr(m, "__all__", [k for k in dir(m) if not k.startswith("_")]):
        try:
            v = getattr(m, n)
        except AttributeError:
            bad.append(f"{n} missing")
            continue
        if n not in dir(m):
            bad.append(f"{n} not listed")
        home = getattr(v, "__module__", None)
        if isinstance(home, str) and home.startswith("gpmp.") and getattr(v, "__name__", None) == n:
            if getattr(importlib.import_module(home), n, None) is not v:
                bad.append(f"{n} is not the one of {home}")
    return bad


def step(s):
    import importlib

    op = s[0]
    if op == "import":
        importlib.import_module(s[1])
        return None
    if op == "attr":
        import gpmp

        v = getattr(gpmp, s[1])
        return getattr(v, "__name__", None)
    if op == "from":
        ns = {}
        exec(f"from {s[1]} import {s[2]}", ns)
        return sorted(k for k in ns if not k.startswith("__"))
    if op == "names":
        return names(s[1])
    if op == "use":
        return use()
    if op == "version":
        import gpmp

        return [gpmp.__version__, gpmp.config.get_config().version]
    import gpmp.config as c

    if op == "set_backend":
        return c.set_backend(s[1])
    if op == "set_dtype":
        return c.set_dtype(s[1])
    if op == "update":
        return c.get_config().update(**s[1]) is c.get_config()
    if op == "get_backend":
        return c.get_backend()
    if op == "log_level":
        c.set_log_level(s[1])
        return None
    if op == "clear":
        c.clear_caches(*s[1:])
        return None
    if op == "cache":
        c.get_config().caches[s[1]] = {"mine": s[2]}
        return None
    if op == "state":
        g = c.get_config()
        return {
            "backend": g.backend, "dtype": g.dtype, "device": g.device, "seed": g.seed, "caches": sorted(k for k in g.caches if k != "gammaln"),
            "env_backend": os.environ.get("GPMP_BACKEND"), "env_dtype": os.environ.get("GPMP_DTYPE"),
            "level": c.get_logger().level, "text": [str(g), repr(g)],
            "torch": "torch" in sys.modules and sys.modules["torch"] is not None, "matplotlib": "matplotlib" in sys.modules and sys.modules["matplotlib"] is not None,
        }
    raise ValueError(f"unknown step {s!r}")


def child(scenario):
    for k, v in scenario["env"].items():
        os.environ[k] = v
    out = []
    for s in scenario["steps"]:
        try:
            out.append({"ok": step(s)})
        except Exception as e:
            w = where_from(e)
            if not w:
                raise
            out.append({"raised": type(e).__name__, "text": str(e)[:300], "where": w})
    return {"steps": out}


def serve(mode):
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, "/repo")
    import warnings

    os.environ["MPLBACKEND"] = "Agg"
    warnings.simplefilter("ignore")
    import numpy  # noqa: F401
    import scipy.integrate, scipy.linalg, scipy.optimize, scipy.spatial, scipy.special, scipy.stats  # noqa: F401,E401

    if mode == "bare":
        sys.modules["torch"] = None
    else:
        import matplotlib.pyplot, torch  # noqa: F401,E401
    for line in sys.stdin:
        scenario = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                text = json.dumps(child(scenario))
            except BaseException as e:
                import traceback

                text = json.dumps({"harness": "".join(traceback.format_exception(e))[-2000:]})
            with os.fdopen(w, "w") as f:
                f.write(text)
            os._exit(0)
        os.close(w)
        buf, end = b"", time.time() + LIMIT
        while True:
            ready, _, _ = select.select([r], [], [], max(0.0, end - time.time()))
            if not ready:
                os.kill(pid, signal.SIGKILL)
                buf = json.dumps({"harness": "a scenario did not end"}).encode()
                break
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
        os.close(r)
        os.waitpid(pid, 0)
        out.write((buf.decode() or json.dumps({"harness": "a scenario died"})) + "\n")
        out.flush()


if __name__ == "__main__":
    serve(sys.argv[1])
