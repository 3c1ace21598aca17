"""Documented formulas (docs/guide, class docstrings), as the analyser reads them.

This file is data for the analysis: its functions are turned into value graphs by the same abstract interpreter that reads
the package, and are never executed.  x is a one-dimensional array of observations.
"""
from numpy import arange, unique, where, log, sum as np_sum, exp, pi, inf, euler_gamma, nan
from scipy.special import digamma, gamma
from scipy.spatial import KDTree
from scipy.stats import gaussian_kde


def counts_of(x):
    u, c = unique(x, return_counts=True)
    return c


# ------------------------------------------------------------------ discrete entropies
def discrete(x, base):
    p = counts_of(x) / len(x)
    return -np_sum(p * log(p)) / log(base)


def miller_madow(x, base):
    c = counts_of(x)
    p = c / len(x)
    return (-np_sum(p * log(p)) + (len(c) - 1) / (2 * len(x))) / log(base)


def grassberger(x, base):
    c = counts_of(x)
    N = len(x)
    return np_sum(c / N * (log(N) - digamma(c) - (-1) ** c / (c + 1))) / log(base)


def shrink(x, base):
    c = counts_of(x)
    N = len(x)
    K = len(c)
    p = c / N
    d = np_sum((1 / K - p) ** 2)
    if d == 0:
        lam = 1
    else:
        lam = (1 - np_sum(p ** 2)) / (N - 1) / d
        if lam > 1:
            lam = 1
        elif lam < 0:
            lam = 0
    q = lam / K + (1 - lam) * p
    return -np_sum(q * log(q)) / log(base)


def chao_shen(x, base):
    c = counts_of(x)
    N = len(x)
    f1 = np_sum(c == 1)
    if f1 == N:
        f1 = f1 - 1
    C = 1 - f1 / N
    q = C * c / N
    return -np_sum(q * log(q) / (1 - (1 - q) ** N)) / log(base)


def chao_wang_jost(x, base):
    c = counts_of(x)
    N = len(x)
    f1 = np_sum(c == 1)
    f2 = np_sum(c == 2)
    if f2 > 0:
        A = 2 * f2 / ((N - 1) * f1 + 2 * f2)
    elif f1 > 0:
        A = 2 / ((N - 1) * (f1 - 1) + 2)
    else:
        A = 1
    h = np_sum(c / N * (digamma(N) - digamma(c)))
    if A != 1 and f1 > 0:
        h = h + f1 / N * (1 - A) ** (1 - N) * (-log(A) - sum((1 - A) ** r / r for r in range(1, N)))
    return h / log(base)


def ansb(x, base, K):
    d = len(x) - K
    if d == 0:
        return nan
    return (euler_gamma - log(2) + 2 * log(len(x)) - digamma(d)) / log(base)


def ansb_observed(x, base):
    return ansb(x, base, len(counts_of(x)))


def zhang(x, base):
    c = counts_of(x)
    N = len(x)
    if len(c) == 1:
        return 0.0
    k = arange(1, N - c.min() + 1)[None, :]
    n = c[:, None]
    on = k <= N - n
    t = where(on, where(on, 1 - (n - 1) / (N - k), 1).cumprod(axis=1), 0)
    return np_sum(c / N * np_sum(t / k, axis=1)) / log(base)


def bonachela(x, base):
    c = counts_of(x)
    N = len(x)
    j = arange(2, N + 3)
    inner = np_sum((j[None, :] > c[:, None] + 1) / j[None, :], axis=1)
    return np_sum((c + 1) * inner) / (N + 2) / log(base)


def bayes(x, base, alpha, K):
    c = counts_of(x)
    p = (c + alpha) / (len(x) + K * alpha)
    return -np_sum(p * log(p)) / log(base)


def bayes_observed(x, base, alpha):
    return bayes(x, base, alpha, len(counts_of(x)))


def bayes_jeffrey(x, base):
    return bayes_observed(x, base, 0.5)


def bayes_laplace(x, base):
    return bayes_observed(x, base, 1)


def bayes_sch_grass(x, base):
    return bayes_observed(x, base, 1 / len(counts_of(x)))


def bayes_min_max(x, base):
    return bayes_observed(x, base, len(x) ** 0.5 / len(counts_of(x)))


# ------------------------------------------------------------------ continuous entropies (x of shape (N, d))
def knn(x, k):
    return KDTree(x).query(x, k=k + 1)[0][:, -1]


def renyi(x, base, k, alpha):
    N, m = x.shape
    if alpha == k + 1:
        return 0.0
    r = knn(x, k)
    V = pi ** (m / 2) / gamma(m / 2 + 1)
    C = (gamma(k) / gamma(k + 1 - alpha)) ** (1 / (1 - alpha))
    return log(np_sum(((N - 1) * C * V * r ** m) ** (1 - alpha)) / N) / log(base) / (1 - alpha)


def tsallis(x, base, k, q):
    N, m = x.shape
    if q == k + 1:
        return 0.0
    r = knn(x, k)
    V = pi ** (m / 2) / gamma(m / 2 + 1)
    C = (gamma(k) / gamma(k + 1 - q)) ** (1 / (1 - q))
    return (1 - np_sum(((N - 1) * C * V * r ** m) ** (1 - q)) / N) / (q - 1)


def order_one(x, base, k):
    N, m = x.shape
    r = knn(x, k)
    V = pi ** (m / 2) / gamma(m / 2 + 1)
    return np_sum(log((N - 1) * exp(-digamma(k)) * V * r ** m)) / N / log(base)


def metric_max(x, base, k):
    N, d = x.shape
    e = 2 * KDTree(x).query(x, k=k + 1, p=inf)[0][:, -1]
    return (digamma(N) - digamma(k) + d * np_sum(log(e)) / N) / log(base)


def metric_max_2(x, base, k):
    N, d = x.shape
    e = 2 * KDTree(x).query(x, k=k + 1, p=inf)[0][:, -1]
    return (digamma(N) - digamma(k) + 1 / k + d * np_sum(log(e)) / N) / log(base)


def metric_two(x, base, k):
    N, d = x.shape
    e = 2 * KDTree(x).query(x, k=k + 1, p=2)[0][:, -1]
    return (digamma(N) - digamma(k) + log(pi ** (d / 2) / gamma(1 + d / 2) / 2 ** d) + d * np_sum(log(e)) / N) / log(base)


def metric_p(x, base, k, p):
    N, d = x.shape
    e = 2 * KDTree(x).query(x, k=k + 1, p=p)[0][:, -1]
    return (digamma(N) - digamma(k) + log(gamma(1 + 1 / p) ** d / gamma(1 + d / p)) + d * np_sum(log(e)) / N) / log(base)


def kernel_box(x, base, h):
    N, d = x.shape
    c = KDTree(x).query_ball_point(x, r=h / 2, p=inf, return_length=True)
    return -np_sum(log(c / (N * h ** d))) / N / log(base)


def kernel_gaussian(x, base, h):
    p = gaussian_kde(x.T, bw_method=h).evaluate(x.T)
    return -np_sum(log(p)) / len(x) / log(base)


# ------------------------------------------------------------------ cross-entropies (x from P, y from Q)
def common(x, y):
    return set(unique(x)).intersection(set(unique(y)))


def on_common(x, y, p, q, base):
    p = dict(zip(unique(x), p))
    q = dict(zip(unique(y), q))
    return -np_sum([p[v] * log(q[v]) for v in common(x, y)]) / log(base)


def cross_discrete(x, y, base):
    return on_common(x, y, counts_of(x) / len(x), counts_of(y) / len(y), base)


def cross_miller_madow(x, y, base):
    K = (len(counts_of(x)) + len(counts_of(y))) / 2 - 1
    return cross_discrete(x, y, base) + K / (len(x) + len(y)) / log(base)


def cross_bayes_priors(x, y, base, ap, aq, Kp, Kq):
    return on_common(x, y, (counts_of(x) + ap) / (len(x) + Kp * ap), (counts_of(y) + aq) / (len(y) + Kq * aq), base)


def cross_bayes(x, y, base, alpha, K):
    return cross_bayes_priors(x, y, base, alpha, alpha, K, K)


def cross_bayes_observed(x, y, base, alpha):
    return cross_bayes_priors(x, y, base, alpha, alpha, len(counts_of(x)), len(counts_of(y)))


def cross_bayes_sch_grass(x, y, base):
    Kp, Kq = len(counts_of(x)), len(counts_of(y))
    return cross_bayes_priors(x, y, base, 1 / Kp, 1 / Kq, Kp, Kq)


def cross_bayes_min_max(x, y, base):
    Kp, Kq = len(counts_of(x)), len(counts_of(y))
    return cross_bayes_priors(x, y, base, len(x) ** 0.5 / Kp, len(y) ** 0.5 / Kq, Kp, Kq)


def cross_bayes_jeffrey(x, y, base):
    return cross_bayes_observed(x, y, base, 0.5)


def cross_bayes_laplace(x, y, base):
    return cross_bayes_observed(x, y, base, 1)


def cross_knn(x, y, k):
    return KDTree(y).query(x, k=[k])[0][:, -1]


def cross_renyi(x, y, base, k, alpha):
    M, m = y.shape
    if alpha == k + 1:
        return 0.0
    r = cross_knn(x, y, k)
    V = pi ** (m / 2) / gamma(m / 2 + 1)
    C = (gamma(k) / gamma(k + 1 - alpha)) ** (1 / (1 - alpha))
    return log(np_sum((M * C * V * r ** m) ** (1 - alpha)) / len(x)) / log(base) / (1 - alpha)


def cross_tsallis(x, y, base, k, q):
    M, m = y.shape
    if q == k + 1:
        return 0.0
    r = cross_knn(x, y, k)
    V = pi ** (m / 2) / gamma(m / 2 + 1)
    C = (gamma(k) / gamma(k + 1 - q)) ** (1 / (1 - q))
    return (1 - np_sum((M * C * V * r ** m) ** (1 - q)) / len(x)) / (q - 1)


def cross_order_one(x, y, base, k):
    M, m = y.shape
    r = cross_knn(x, y, k)
    V = pi ** (m / 2) / gamma(m / 2 + 1)
    return np_sum(log(M * exp(-digamma(k)) * V * r ** m)) / len(x) / log(base)


def cross_metric(x, y, base, k, p, volume, type_two):
    M, d = y.shape
    e = 2 * KDTree(y).query(x, k=[k], p=p)[0][:, -1]
    return (digamma(M) - digamma(k) + type_two / k + volume + d * np_sum(log(e)) / len(x)) / log(base)


def cross_metric_max(x, y, base, k):
    return cross_metric(x, y, base, k, inf, 0, 0)


def cross_metric_max_2(x, y, base, k):
    return cross_metric(x, y, base, k, inf, 0, 1)


def cross_metric_two(x, y, base, k):
    d = y.shape[1]
    return cross_metric(x, y, base, k, 2, log(pi ** (d / 2) / gamma(1 + d / 2) / 2 ** d), 0)


def cross_metric_p(x, y, base, k, p):
    d = y.shape[1]
    return cross_metric(x, y, base, k, p, log(gamma(1 + 1 / p) ** d / gamma(1 + d / p)), 0)


def cross_kernel_box(x, y, base, h):
    M, d = y.shape
    c = KDTree(y).query_ball_point(x, r=h / 2, p=inf, return_length=True)
    return -np_sum(log(c / (M * h ** d))) / len(x) / log(base)


def cross_kernel_gaussian(x, y, base, h):
    p = gaussian_kde(y.T, bw_method=h).evaluate(x.T)
    return -np_sum(log(p)) / len(x) / log(base)


# ------------------------------------------------------------------ divergences
def mixture(dists, base):
    m = {k: sum(d.get(k, 0) for d in dists) / len(dists) for k in set().union(*dists)}
    v = list(m.values())
    return -np_sum(v * log(v)) / log(base)


def jsd(dists, hs, base):
    return mixture(dists, base) - sum(hs) / len(hs)


def entropy_of(dist, base):
    v = list(dist.values())
    return -np_sum(v * log(v)) / log(base)


# ------------------------------------------------------------------ ordinal patterns
def rises(count, n, base):
    """two patterns: count of n windows rise"""
    p = count / n
    return -(p * log(p) + (1 - p) * log(1 - p)) / log(base)
