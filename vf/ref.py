"""Reference models: plain float64 NumPy / SciPy / mpmath, no gpmp import."""

import math

import numpy as np


def dist(x, y, invrho=None):
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    if invrho is not None:
        x = x * invrho
        y = y * invrho
    return np.sqrt(((x[:, None, :] - y[None, :, :]) ** 2).sum(-1))


def matern_h(p, h):
    """Matern correlation, nu = p + 1/2, argument 2 sqrt(nu) h (explicit polynomial)."""
    h = np.asarray(h, float)
    c = 2.0 * math.sqrt(p + 0.5)
    t = np.minimum(c * h, 1e5)
    s = np.zeros_like(t)
    for i in range(p + 1):
        coef = math.factorial(p) / math.factorial(2 * p)
        coef *= math.factorial(p + i) / (math.factorial(i) * math.factorial(p - i))
        s = s + coef * (2.0 * t) ** (p - i)
    return np.exp(-t) * s


def matern_cov(x, y, p, param):
    param = np.asarray(param, float)
    return math.exp(param[0]) * matern_h(p, dist(x, y, np.exp(param[1:])))


def nugget(param):
    return 10.0 * math.exp(param[0]) * np.finfo(float).eps


# ---------------------------------------------------------------- mean bases
def basis(kind, x):
    x = np.asarray(x, float)
    n, d = x.shape
    one = np.ones((n, 1))
    if kind == "const":
        return one
    if kind == "linear":
        return np.hstack((one, x))
    if kind == "first":
        return np.hstack((one, x[:, :1]))
    if kind == "quad":
        return np.hstack((one, x, x**2))
    if kind == "sin":
        return np.hstack((one, np.sin(x[:, :1])))
    if kind == "slope":
        return x[:, :1] + 2.0
    raise ValueError(kind)


BASES = ("const", "linear", "first", "quad", "sin", "slope")


def param_mean(kind, theta, x):
    """Known mean, theta = list of 2 numbers."""
    x = np.asarray(x, float)
    if kind == "const":
        return theta[0] + 0.0 * x[:, 0]
    if kind == "affine":
        return theta[0] + theta[1] * x.sum(1)
    if kind == "sin":
        return theta[0] * np.sin(x[:, 0]) + theta[1]
    raise ValueError(kind)


# ----------------------------------------------------------------- kriging
def krige_zero(K, Kit, Ktt, z):
    """mean, covariance, weights."""
    lam = np.linalg.solve(K, Kit)
    return lam.T @ z, Ktt - lam.T @ Kit, lam


def krige_blup(K, P, Kit, Pt, Ktt, z):
    """Universal kriging through GLS (K positive definite)."""
    Ki = np.linalg.inv(K)
    A = P.T @ Ki @ P
    M = np.linalg.solve(A, P.T @ Ki)  # beta = M z
    # weights: lam = Ki Kit + M^T (Pt^T - P^T Ki Kit)
    R = Pt.T - P.T @ Ki @ Kit
    lam = Ki @ Kit + M.T @ R
    C = Ktt - Kit.T @ Ki @ Kit + R.T @ np.linalg.solve(A, R)
    return lam.T @ z, C, lam


def krige_cpd(K, P, Kit, Pt, Ktt, z):
    """Universal kriging for a kernel only positive on contrasts (null-space form)."""
    from scipy.linalg import null_space

    W = null_space(P.T)
    B = np.linalg.lstsq(P.T, Pt.T, rcond=None)[0]  # particular: P^T B = Pt^T
    G = W.T @ K @ W
    alpha = np.linalg.solve(G, W.T @ (Kit - K @ B))
    lam = B + W @ alpha
    C = Ktt - lam.T @ Kit - Kit.T @ lam + lam.T @ K @ lam
    return lam.T @ z, C, lam


def contrasts(P):
    from scipy.linalg import null_space

    return null_space(P.T)


def gauss_nll(K, z):
    s, ld = np.linalg.slogdet(K)
    return 0.5 * (len(z) * math.log(2 * math.pi) + ld + z @ np.linalg.solve(K, z))


def reml(K, P, z):
    W = contrasts(P)
    return gauss_nll(W.T @ K @ W, W.T @ z)


# -------------------------------------------------- derivatives in the parameters
def matern_dh(p, h):
    """Derivative of matern_h with respect to h."""
    h = np.asarray(h, float)
    c = 2.0 * math.sqrt(p + 0.5)
    t = np.minimum(c * h, 1e5)
    s = np.zeros_like(t)
    ds = np.zeros_like(t)
    for i in range(p + 1):
        coef = math.factorial(p) / math.factorial(2 * p)
        coef *= math.factorial(p + i) / (math.factorial(i) * math.factorial(p - i))
        k = p - i
        s = s + coef * (2.0 * t) ** k
        if k > 0:
            ds = ds + coef * k * 2.0 * (2.0 * t) ** (k - 1)
    return c * np.exp(-t) * (ds - s)


def matern_dK(x, p, param):
    """K (no nugget) and [dK/dparam_i]."""
    x = np.asarray(x, float)
    w = np.exp(np.asarray(param[1:], float))
    s2 = math.exp(param[0])
    h = dist(x, x, w)
    K = s2 * matern_h(p, h)
    g = s2 * matern_dh(p, h)
    hs = np.where(h > 0, h, 1.0)
    out = [K]
    for j in range(x.shape[1]):
        dj = (w[j] * (x[:, None, j] - x[None, :, j])) ** 2
        out.append(np.where(h > 0, g * dj / hs, 0.0))
    return K, out


def nll_grad(K, dK, z):
    Ki = np.linalg.inv(K)
    a = Ki @ z
    return np.array([0.5 * np.trace(Ki @ D) - 0.5 * a @ D @ a for D in dK])


def fisher(K, dK):
    Ki = np.linalg.inv(K)
    M = [Ki @ D for D in dK]
    return np.array([[0.5 * np.trace(a @ b) for b in M] for a in M])
