"""P16: scoring rules equal the integrals they stand for."""
import math

import numpy as np

from vf.core import Prop, st
from vf.util import A, F, N, check, chance, close, gnp, gp, integer, pick, raises, real, reals, same, shape

from gpmp.misc import scoringrules as S

PROP = Prop(
    "P16",
    rule="at least one prediction whose score is neither its tail value nor zero (observation or bound within six deviations of the mean)",
    assumptions=[
        "reference integrals by 24-point Gauss-Legendre quadrature on pieces of one deviation, truncated where the integrand is below 1e-20; accuracy 1e-12 deviations",
        "bounds satisfy a <= b; absolute tolerance 1e-9 of the largest of |mean|, |observation|, |bounds| and deviation (differences of moments cancel)",
    ],
)

GX, GW = np.polynomial.legendre.leggauss(24)


def ncdf(t):
    return np.array([0.5 * math.erfc(-v / math.sqrt(2)) for v in np.ravel(t)]).reshape(np.shape(t))


def integrate(g, a, b, mu, s, extra=()):
    """integral of g over [a, b] with breakpoints around mu."""
    lo, hi = mu - 11 * s, mu + 11 * s
    for e in extra:
        lo, hi = min(lo, e), max(hi, e)
    a, b = max(a, lo), min(b, hi)
    if a >= b:
        return 0.0
    br = sorted({a, b} | {v for v in [mu + k * s for k in range(-11, 12)] + list(extra) if a < v < b})
    tot = 0.0
    for u, v in zip(br[:-1], br[1:]):
        x = 0.5 * (u + v) + 0.5 * (v - u) * GX
        tot += 0.5 * (v - u) * float(GW @ g(x))
    return tot


def tcrps(mu, s, z, a, b):
    lo, hi = min(z, mu - 11 * s), max(z, mu + 11 * s)
    f = lambda u: ((z <= u) - ncdf((u - mu) / s)) ** 2
    # outside [lo, hi] the integrand vanishes
    return integrate(f, max(a, lo), min(b, hi), mu, s, (z,))


def ei(mu, s, z, k):
    top = mu + 11 * s
    if z >= top:
        return 0.0
    return integrate(lambda u: 1 - ncdf((u - mu) / s) ** k, z, top, mu, s, (z,))


def g_s(draw):
    n = integer(draw, 1, 4)
    sc = pick(draw, 1.0, 1e-3, 200.0)
    off = pick(draw, 0.0, 3.0)
    one = lambda lo=-3, hi=3: [sc * (off + v) for v in reals(draw, n, lo, hi)]
    mu, z = one(), one(-4, 4)
    sig = [sc * v for v in reals(draw, n, 0.05, 3)]
    if chance(draw, 1, 6):
        z[0] = mu[0]
    if chance(draw, 1, 8):
        sig[0] *= 1e-2
    cut = sorted(sc * (off + v) for v in reals(draw, 2, -4, 4))
    if chance(draw, 1, 6):
        cut[1] = cut[0]
    if chance(draw, 1, 6):
        cut[0] = z[0] if z[0] <= cut[1] else cut[0]
    return {
        "mu": mu, "sigma": sig, "z": z, "a": cut[0], "b": cut[1], "form": pick(draw, "array", "scalar-bounds-array", "scalar", "mixed"),
        "c": real(draw, 0.2, 5), "t": real(draw, -5, 5),
    }


@PROP.case("integrals", g_s, quick=500, thorough=5000, budget=(25, 250))
def c_s(case, ctx):
    mu, s, z = (np.asarray(case[k]) for k in ("mu", "sigma", "z"))
    a, b = case["a"], case["b"]
    n = len(mu)
    mag = max(np.max(np.abs(v)) for v in (mu, s, z, [a, b]))
    t = 1e-9 * mag
    if case["form"] == "scalar":
        n, mu, s, z = 1, mu[:1], s[:1], z[:1]
        M, G, Z = float(mu[0]), float(s[0]), float(z[0])
    elif case["form"] == "mixed":
        s = np.full(n, s[0])
        M, G, Z = A(mu), float(s[0]), A(z)
    else:
        M, G, Z = A(mu), A(s), A(z)
    flat = lambda v: N(v).reshape(-1)
    inf = math.inf
    full = np.array([tcrps(m, q, y, -inf, inf) for m, q, y in zip(mu, s, z)])
    crps = flat(S.crps_gaussian(M, G, Z))
    close("CRPS", crps, full, atol=t, rtol=1e-9, sig="crps")
    check(np.all(crps >= -t), "negative CRPS", "sign")
    close("expected improvement", flat(S.ei1_up(M, G, Z)), [ei(m, q, y, 1) for m, q, y in zip(mu, s, z)], atol=t, rtol=1e-9, sig="ei1")
    close("expected improvement of two draws", flat(S.ei2_up(M, G, Z)), [ei(m, q, y, 2) for m, q, y in zip(mu, s, z)], atol=t, rtol=1e-9, sig="ei2")
    parts = []
    for lo, hi in ((-inf, inf), (a, b), (-inf, a), (a, inf), (b, inf), (-inf, b)):
        want = np.array([tcrps(m, q, y, lo, hi) for m, q, y in zip(mu, s, z)])
        kw = {}
        if lo > -inf:
            kw["a"] = lo
        if hi < inf:
            kw["b"] = hi
        got = flat(S.tcrps_gaussian(M, G, Z, **kw))
        close(f"score on [{'-inf' if lo == -inf else 'a'}, {'inf' if hi == inf else 'b'}]", got, want, atol=4 * t, rtol=1e-9, sig="tcrps")
        check(np.all(got >= -4 * t), "negative truncated score", "sign")
        parts.append(got)
    close("scores of adjacent intervals add up", parts[2] + parts[1] + parts[4], parts[0], atol=12 * t, sig="additive")
    if case["form"] == "scalar-bounds-array" and n > 1:
        lo = np.array([[-inf, a, a, -inf][i % 4] for i in range(n)])
        hi = np.array([[b, b, inf, inf][i % 4] for i in range(n)])
        got = S.tcrps_gaussian(M, G, Z, a=A(lo), b=A(hi))
        close("one interval per prediction", got, [tcrps(*v) for v in zip(mu, s, z, lo, hi)], atol=4 * t, rtol=1e-9, sig="tcrps")
        close("one lower bound per prediction", S.tcrps_gaussian(M, G, Z, a=A(lo), b=b), [tcrps(m, q, y, u, b) for m, q, y, u in zip(mu, s, z, lo)], atol=4 * t, rtol=1e-9, sig="tcrps")
        ctx.tag("array bounds")
    # units
    c, sh = case["c"], case["t"] * mag
    cv = lambda v: c * (v + sh)
    g2 = flat(S.tcrps_gaussian(A(cv(mu)), A(c * s), A(cv(z)), a=cv(a), b=cv(b)))
    close("unit and origin of the data", g2, c * parts[1], atol=60 * t * max(c, 1.0), sig="units")
    g3 = flat(S.tcrps_gaussian(A(-mu), A(s), A(-z), a=-b, b=-a))
    close("mirror image", g3, parts[1], atol=12 * t, sig="mirror")
    ctx.nontrivial(bool(np.any(np.abs(z - mu) < 6 * s)))
    ctx.tag(case["form"])
