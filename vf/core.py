"""Shared machinery: case registry, Hypothesis driver, violation bookkeeping.

A property module registers *subchecks* with the ``case`` decorator.  Each one
has a generator (a Hypothesis composite that builds a JSON-serialisable dict)
and a body that runs the code under test on that dict and raises ``Violation``
when the oracle disagrees.
"""

import hashlib
import json
import os
import signal
import sys
import time
import traceback

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

if TOOLS_SITE not in sys.path:
    sys.path.append(TOOLS_SITE)

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, Verbosity, given, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from hypothesis.internal.conjecture.providers import (  # noqa: E402
    AVAILABLE_PROVIDERS,
    HypothesisProvider,
)


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class HarnessError(Exception):
    pass


class _Stop(BaseException):
    """Escapes Hypothesis when a time budget is used up."""


class Ctx:
    """Given to every subcheck body."""

    def __init__(self, backend, tier, check):
        self.backend = backend
        self.tier = tier
        self.check = check
        self.tags = {}
        self.interesting = False
        self.scratch = {}

    def nontrivial(self, flag=True):
        if flag:
            self.interesting = True

    def tag(self, name):
        self.tags[name] = self.tags.get(name, 0) + 1


class SubCheck:
    def __init__(self, name, gen, body, quick, thorough, backends, budget, rule, guard):
        self.name = name
        self.gen = gen
        self.body = body
        self.quick = quick
        self.thorough = thorough
        self.backends = backends
        self.budget = budget
        self.rule = rule
        self.guard = guard


class Prop:
    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.checks = []

    def case(
        self,
        name,
        gen,
        quick=60,
        thorough=None,
        backends=("numpy", "torch"),
        budget=None,
        rule=None,
        guard=60.0,
    ):
        """Register a subcheck.

        gen: function(draw) -> dict (JSON-serialisable)
        budget: (quick_s, thorough_s) wall budget after which generation stops
        guard: per-case wall limit; reaching it is reported as inconclusive
        """

        def deco(body):
            self.checks.append(
                SubCheck(
                    name,
                    gen,
                    body,
                    quick,
                    thorough if thorough is not None else quick * 8,
                    tuple(backends),
                    budget or (60.0, 400.0),
                    rule,
                    guard,
                )
            )
            return body

        return deco


# --------------------------------------------------------------------------
# exceptions coming out of the code under test
# --------------------------------------------------------------------------
def origin_of(exc):
    """'gpmp' if the exception went through gpmp code (callbacks included)."""
    where = None
    tb = exc.__traceback__
    while tb is not None:
        fn = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(REPO + "/gpmp/"):
            return "gpmp"
        if fn.startswith(VERIF + "/"):
            where = "harness"
        tb = tb.tb_next
    return where


def short_tb(exc):
    out = []
    for f in traceback.extract_tb(exc.__traceback__):
        if f.filename.startswith(REPO + "/"):
            out.append(f"{os.path.relpath(f.filename, REPO)}:{f.lineno}({f.name})")
    return " <- ".join(reversed(out[-4:]))


def malformed_result(exc, case):
    """A check could not read what the library returned: wrong number of values, missing entry.

    Only the reading of a result in the body of a check counts; every other
    exception of the harness stays an error of the check.
    """
    last = exc.__traceback__
    while last.tb_next is not None:
        last = last.tb_next
    if not os.path.abspath(last.tb_frame.f_code.co_filename).startswith(VERIF + "/props/"):
        return False
    msg = str(exc)
    if isinstance(exc, (ValueError, TypeError)):
        return "values to unpack" in msg or "cannot unpack non-iterable" in msg
    if isinstance(exc, KeyError):
        return isinstance(exc.args[0], str) and not any(
            exc.args[0] in v for v in (case, last.tb_frame.f_locals.get("case"))
            if isinstance(v, dict)
        )
    return False


def case_key(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True, default=str).encode()
    ).hexdigest()


def abbreviate(obj, depth=0):
    if isinstance(obj, dict):
        return {k: abbreviate(v, depth + 1) for k, v in list(obj.items())[:24]}
    if isinstance(obj, (list, tuple)):
        if len(obj) > 12:
            return [abbreviate(v, depth + 1) for v in obj[:12]] + [
                f"... {len(obj)} items"
            ]
        return [abbreviate(v, depth + 1) for v in obj]
    if isinstance(obj, str) and len(obj) > 200:
        return obj[:200] + "..."
    return obj


class _Hang(Exception):
    pass


def _alarm(signum, frame):
    raise _Hang()


def seed_process(case):
    """Every process-wide generator starts from the case alone, so that replays are exact."""
    h = int(hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:8], 16)
    import random

    random.seed(h)
    if "numpy" in sys.modules:
        sys.modules["numpy"].random.seed(h)
    if "gpmp.num" in sys.modules:
        sys.modules["gpmp.num"].set_seed(h)


def run_case(sub, case, ctx):
    """Run one case; returns None or raises Violation / other exceptions."""
    seed_process(case)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, sub.guard)
    try:
        sub.body(case, ctx)
    except Violation:
        raise
    except _Hang:
        raise HarnessError(f"{sub.name}: case exceeded {sub.guard}s (inconclusive)")
    except (HarnessError, KeyboardInterrupt):
        raise
    except hypothesis.errors.HypothesisException:
        raise
    except Exception as exc:  # noqa: BLE001
        if origin_of(exc) == "gpmp":
            raise Violation(
                f"raised {type(exc).__name__}: {str(exc)[:300]} [{short_tb(exc)}]",
                sig=f"raise:{type(exc).__name__}",
            ) from exc
        if malformed_result(exc, case):
            raise Violation(
                f"malformed result: {type(exc).__name__}: {str(exc)[:300]}", sig="structure"
            ) from exc
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class EvenProvider(HypothesisProvider):
    """Draws bounded integers (hence choices) evenly; the default provider favours few values within a run."""

    def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0):
        if weights is None and min_value is not None and max_value is not None and max_value - min_value <= 10**6:
            return self._random.randint(min_value, max_value)
        return super().draw_integer(min_value, max_value, weights=weights, shrink_towards=shrink_towards)


AVAILABLE_PROVIDERS["vf-even"] = f"{__name__}.EvenProvider"


def run_subcheck(pid, sub, backend, tier, seed, known):
    """Explore one subcheck; returns a result dict."""
    n = sub.quick if tier == "quick" else sub.thorough
    budget = sub.budget[0] if tier == "quick" else sub.budget[1]
    shrink_budget = 25.0 if tier == "quick" else 60.0
    res = {
        "subcheck": sub.name,
        "backend": backend,
        "evaluations": 0,
        "nontrivial": [],
        "samples": [],
        "tags": {},
        "violation": None,
        "known": [],
        "error": None,
        "budget_hit": False,
        "rule": sub.rule,
    }
    t0 = time.time()
    state = {"fail": None, "msg": None, "sig": None, "first_fail_t": None, "until": budget}
    seen = set()

    @st.composite
    def strat(draw):
        return sub.gen(draw)

    def body(case):
        now = time.time()
        if state["first_fail_t"] is None:
            if now - t0 > state["until"]:
                res["budget_hit"] = True
                raise _Stop()
        elif now - state["first_fail_t"] > shrink_budget:
            raise _Stop()
        ctx = Ctx(backend, tier, sub)
        # round-trip so that a replayed case is exactly what ran here
        case = json.loads(json.dumps(case))
        if state["first_fail_t"] is None:
            res["evaluations"] += 1
        try:
            run_case(sub, case, ctx)
        except Violation as v:
            k = [
                f["id"]
                for f in known
                if f["property"] == pid
                and f["subcheck"] == sub.name
                and f.get("backend") in (None, backend)
                and v.sig is not None
                and f["sig"] == v.sig
            ]
            if k:
                res["known"].extend(x for x in k if x not in res["known"])
                return
            state["fail"] = case
            state["msg"] = str(v)
            state["sig"] = v.sig
            if state["first_fail_t"] is None:
                state["first_fail_t"] = time.time()
            raise
        for t, c in ctx.tags.items():
            res["tags"][t] = res["tags"].get(t, 0) + c
        if ctx.interesting and state["first_fail_t"] is None:
            key = case_key(case)
            if key not in seen:
                seen.add(key)
                if len(res["samples"]) < 3:
                    res["samples"].append(
                        {
                            "subcheck": sub.name,
                            "backend": backend,
                            "case": abbreviate(case),
                        }
                    )

    sub_seed = int.from_bytes(
        hashlib.sha256(f"{seed}:{pid}:{sub.name}:{backend}".encode()).digest()[:6],
        "big",
    )
    # two thirds of the cases with even choices, the rest with the library's own (boundary values, repetitions)
    even = -(-2 * n // 3)
    for provider, count in (("vf-even", even), ("hypothesis", n - even)):
        if count == 0 or state["fail"] is not None or res["error"] is not None:
            continue
        state["until"] = budget * (2 / 3 if provider == "vf-even" and count < n else 1)
        test = given(strat())(body)
        test = hypothesis.seed(sub_seed)(test)
        test = settings(
            max_examples=count,
            deadline=None,
            database=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            verbosity=Verbosity.quiet,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
            backend=provider,
        )(test)
        try:
            test()
        except _Stop:
            pass
        except Violation:
            pass
        except BaseException as exc:  # noqa: BLE001
            if state["fail"] is None:
                res["error"] = (
                    f"{type(exc).__name__}: {str(exc)[:400]}\n"
                    + "".join(traceback.format_exception(exc))[-3000:]
                )
    if state["fail"] is not None:
        res["violation"] = {
            "message": state["msg"],
            "sig": state["sig"],
            "case": state["fail"],
        }
    res["nontrivial"] = sorted(seen)
    res["wall_s"] = time.time() - t0
    return res
