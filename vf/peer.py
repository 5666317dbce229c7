"""A second process running the same operations on the other backend.

Used as a module:  Peer("torch").call(module, op, case) -> result
Run as a script:   serves requests, one JSON object per line, on stdin/stdout.
"""
import atexit
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Peer:
    def __init__(self, backend):
        env = dict(os.environ, GPMP_BACKEND=backend, PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=HERE, text=True)
        atexit.register(self.close)

    def send(self, module, op, case):
        self.p.stdin.write(json.dumps([module, op, case]) + "\n")
        self.p.stdin.flush()

    def receive(self):
        from vf.core import HarnessError, Violation

        line = self.p.stdout.readline()
        if not line:
            raise HarnessError("the second process died")
        r = json.loads(line)
        if "harness" in r:
            raise HarnessError(r["harness"])
        if "raised" in r:
            raise Violation("on the other backend: " + r["raised"], "raise:peer")
        return r["ok"]

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()


def serve():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, "/repo")
    import importlib
    import traceback
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    for line in sys.stdin:
        module, op, case = json.loads(line)
        try:
            r = {"ok": importlib.import_module(module).run(op, case)}
        except BaseException as e:  # noqa: BLE001
            lib = any("/repo/gpmp" in f.filename for f in traceback.extract_tb(e.__traceback__))
            r = {"raised" if lib else "harness": f"{type(e).__name__}: {e} " + traceback.format_exc()[-1500:]}
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    serve()
