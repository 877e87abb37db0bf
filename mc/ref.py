"""Reference models, written from the documented formulas and independent of
the code under test: no girth import here."""
import itertools
import math

import numpy as np
from scipy import optimize
from scipy.special import expit
from scipy.stats import norm

MISSING = -99999


# ---------------------------------------------------------------- integration
def legendre(n, a, b):
    x, w = np.polynomial.legendre.leggauss(n)
    return (b - a) / 2 * (x + 1) + a, (b - a) / 2 * w


def latent(options=None):
    """Quadrature locations and distribution times weight for an options dict."""
    o = options or {}
    lo, hi = o.get("quadrature_bounds", (-4.5, 4.5))
    th, w = legendre(o.get("quadrature_n", 41), lo, hi)
    pdf = o.get("distribution", norm(0, 1).pdf)
    return th, w * pdf(th)


# -------------------------------------------------------------- item response
def p2(a, b, th, c=0.0):
    """[2, Q]: probability of 0 and of 1."""
    p = c + (1 - c) * expit(a * (th - b))
    return np.array([1 - p, p])


def p2_stable(a, b, th, c=0.0):
    z = a * (th - b)
    return np.array([(1 - c) * expit(-z), c + (1 - c) * expit(z)])


def grm(a, b, th):
    """[K, Q] for K-1 ascending thresholds."""
    b = np.atleast_1d(b)
    top = [np.ones_like(th)] + [expit(a * (th - x)) for x in b] + [np.zeros_like(th)]
    out = np.array([top[k] - top[k + 1] for k in range(len(b) + 1)])
    out[0] = expit(-a * (th - b[0]))
    return out


def pcm(a, b, th):
    b = np.atleast_1d(b)
    z = np.vstack([np.zeros_like(th)] + [a * (th - x) for x in b]).cumsum(axis=0)
    z -= z.max(axis=0)
    e = np.exp(z)
    return e / e.sum(axis=0)


def gum(a, delta, tau, th):
    """Graded unfolding: the 2K-category credit model folded in half."""
    tau = np.atleast_1d(tau)
    full = np.concatenate([tau, [0.0], -tau[::-1]]) + delta
    p = pcm(a, full, th)
    k = len(tau) + 1
    return p[:k] + p[::-1][:k]


def grm_md(a, d, theta):
    """theta [F, Q]; descending intercepts d."""
    d = np.atleast_1d(d)
    z = np.asarray(a) @ theta
    top = [np.ones_like(z)] + [expit(z + x) for x in d] + [np.zeros_like(z)]
    out = np.array([top[k] - top[k + 1] for k in range(len(d) + 1)])
    out[0] = expit(-(z + d[0]))
    return out


# ------------------------------------------------------------------ data sets
def patterns(data):
    """Unique columns with counts."""
    u, c = np.unique(np.asarray(data), axis=1, return_counts=True)
    return u, c


def coded(data):
    """0-based codes of the categories each item shows; MISSING stays.
    Returns codes, number of categories."""
    data = np.asarray(data)
    out = np.full(data.shape, MISSING, dtype=int)
    lowest = data[data != MISSING].min()
    sizes = []
    for i, row in enumerate(data):
        seen = np.unique(row[row != MISSING])
        if seen.size == 1:
            # one category: it is either the lowest of the data or not
            out[i, row != MISSING] = int(seen[0] != lowest)
            sizes.append(2)
            continue
        for k, v in enumerate(seen):
            out[i, row == v] = k
        sizes.append(seen.size)
    return out, np.array(sizes)


def factor(table, row):
    """[P, Q] likelihood of one item's answers; 1 where there is none."""
    out = np.ones((row.size, table.shape[1]))
    for p, v in enumerate(row):
        if v != MISSING:
            out[p] = table[v]
    return out


def likelihood(tables, codes):
    out = np.ones((codes.shape[1], tables[0].shape[1]))
    for t, row in zip(tables, codes):
        out *= factor(t, row)
    return out


def marginal_ll(tables, codes, counts, weight):
    """Marginal log likelihood."""
    lik = likelihood(tables, codes) @ weight
    return float(np.log(lik) @ counts)


def eap(tables, codes, th, weight):
    post = likelihood(tables, codes) * weight
    return (post @ th) / post.sum(axis=1)


# ------------------------------------------------- thresholds from proportions
def at_least(row, n_cat):
    """Observed proportion at or above each category k = 1..n_cat-1."""
    ok = row[row != MISSING]
    return np.array([(ok >= k).mean() for k in range(1, n_cat)])


def cumulative(a, b, th, weight):
    return float(expit(a * (th - b)) @ weight)


def threshold(a, p, th, weight, lo=-6.0, hi=6.0):
    """Difficulty at which the marginal proportion is p; clipped to [lo, hi].
    Second value: whether it is inside."""
    f = lambda b: cumulative(a, b, th, weight) - p
    if f(hi) >= 0:
        return hi, False
    if f(lo) <= 0:
        return lo, False
    return optimize.brentq(f, lo, hi, xtol=1e-10), True


def local_max(f, x0, width, lo, hi):
    """Best point of a scalar function near x0."""
    a, b = max(lo, x0 - width), min(hi, x0 + width)
    r = optimize.minimize_scalar(lambda x: -f(x), bounds=(a, b), method="bounded",
                                 options={"xatol": 1e-7})
    best = max([(-r.fun, r.x), (f(a), a), (f(b), b), (f(x0), x0)])
    return best[1], best[0]


# --------------------------------------------------------------------- menus
def quantiles(n, mean=0.0, sd=1.0):
    """A fixed grid of normal abilities, in a scrambled but fixed order."""
    q = norm.ppf((np.arange(n) + 0.5) / n) * sd + mean
    step = next(s for s in range(int(n * 0.618), n) if math.gcd(s, n) == 1) if n > 2 else 1
    return q[(np.arange(n) * step) % n]


def make_data(n_items, cats, n_persons, seed=0, a=None, missing=0.0, start=None, model="grm"):
    """A fixed data set for a configuration. cats: int or list per item."""
    rng = np.random.default_rng([977, n_items, n_persons, seed])
    cats = [cats] * n_items if np.isscalar(cats) else list(cats)
    th = quantiles(n_persons)
    a = np.full(n_items, 1.2) + 0.5 * np.cos(np.arange(n_items)) if a is None else np.full(n_items, a)
    out = np.zeros((n_items, n_persons), dtype=int)
    for i in range(n_items):
        k = cats[i]
        b = np.linspace(-1, 1, k - 1) * (0.8 if k > 2 else 0) + 0.7 * math.sin(2.1 * i + seed)
        if model == "gum":
            table = gum(a[i], 1.2 * math.sin(1.7 * i + 0.4 + seed), np.linspace(-1.5, -0.4, k - 1), th)
        else:
            table = (grm if model == "grm" else pcm)(a[i], b, th)
        cum = table.cumsum(axis=0)[:-1]
        u = rng.random(n_persons)
        out[i] = (u[None, :] > cum).sum(axis=0)
        for v in range(k):          # every category shows
            if not (out[i] == v).any():
                out[i, (7 * v + 3 * i) % n_persons] = v
    if start is None:
        start = 0 if max(cats) == 2 else 1
    out += start
    if missing:
        mask = rng.random(out.shape) < missing
        for i in range(n_items):     # keep every category
            for v in range(cats[i]):
                where = np.flatnonzero(out[i] == v + start)
                mask[i, where[:1]] = False
        out[mask] = MISSING
    return out


UNUSUAL = ("wide", "negative", "large", "rare", "sparse", "lopsided", "pair", "few", "doubles", "empty")


def unusual(name, model="grm", two=False):
    """Data sets unlike the usual: shape, codes, proportions, missing answers.
    two: codes are 0 and 1, which leaves the names of other codes out."""
    cats = 2 if two else 3
    if name == "wide":          # more items than persons
        return make_data(16, cats, 12, seed=2, model=model)
    if name == "negative":
        return None if two else make_data(4, 3, 90, seed=3, start=-4, model=model)
    if name == "large":
        return None if two else make_data(4, [2, 4, 3, 3], 90, seed=4, start=30000, missing=0.1, model=model)
    if name == "rare":          # the first category of one item, the last of another: one person
        out = make_data(5, cats, 300, seed=5, model=model)
        for i, v in ((1, out.min()), (3, out.max())):
            row, at = out[i], 40 + 50 * i
            row[row == v] = v + (1 if i == 1 else -1)
            row[at] = v
        return out
    if name == "sparse":        # most answers are missing
        return make_data(8, cats, 260, seed=6, missing=0.75, model=model)
    if name == "lopsided":      # nearly everyone in one category
        out = make_data(6, 2, 200, seed=7, model=model)
        u = np.random.default_rng(7).random(out.shape)
        out[:3] |= u[:3] < 0.85
        out[3:] &= u[3:] > 0.85
        return out if two else out + 1
    if name == "pair":
        return make_data(2, cats, 70, seed=8, model=model)
    if name == "few":           # hardly any persons
        return make_data(4, cats, 9, seed=9, model=model)
    if name == "doubles":       # all items twice
        return np.repeat(make_data(3, cats, 110, seed=10, model=model), 2, axis=0)
    if name == "empty":         # persons without answers, first, last and between
        out = make_data(4, cats, 90, seed=11, missing=0.2, model=model)
        out[:, [0, 30, 31, 89]] = MISSING
        return out
    raise KeyError(name)


def expand(pats, counts):
    """Data set with the given count of every pattern (columns)."""
    cols = [np.repeat(np.array(p)[:, None], c, axis=1) for p, c in zip(pats, counts) if c]
    return np.concatenate(cols, axis=1)


def all_patterns(n_items, values):
    return list(itertools.product(values, repeat=n_items))


def close(x, y, atol, rtol=0.0):
    """Elementwise closeness with matching nan pattern."""
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.shape != y.shape:
        return False
    nx, ny = np.isnan(x), np.isnan(y)
    if (nx != ny).any():
        return False
    with np.errstate(all="ignore"):
        ok = (np.abs(x - y) <= atol + rtol * np.abs(y)) | (x == y) | nx
    return bool(ok.all())
