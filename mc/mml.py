"""Reference side of the marginal methods: proportions, thresholds on the
proportion curve, marginal likelihood over distinct patterns."""
import numpy as np
from scipy import optimize
from scipy.special import expit

from mc import ref

M = ref.MISSING


class Problem:
    """A data set with its quadrature, as the model sees it."""

    def __init__(self, data, options=None, weight=None):
        codes, self.sizes = ref.coded(data)
        self.codes, self.counts = np.unique(codes, axis=1, return_counts=True)
        self.n_persons = codes.shape[1]
        self.n_items = codes.shape[0]
        self.th, self.weight = ref.latent(options)
        if weight is not None:
            self.weight = weight
        self.props = [ref.at_least(codes[i], self.sizes[i]) for i in range(self.n_items)]

    def single(self, i):
        """Whether item i shows one category only."""
        row = self.codes[i]
        return np.unique(row[row != M]).size < 2

    def thresholds(self, a, i):
        """Thresholds reproducing item i's proportions; all of them inside?"""
        out, inside = [], True
        for p in self.props[i]:
            b, ok = ref.threshold(a, p, self.th, self.weight)
            out.append(b)
            inside &= ok
        return np.array(out), inside

    def lut_slack(self, a, i, b, na=500, lo_a=.15, hi_a=5.05, nb=500):
        """How far linear interpolation in a table of the documented size may
        be from the exact thresholds."""
        alphas, betas = np.linspace(lo_a, hi_a, na), np.linspace(-6, 6, nb)
        k = min(int((a - lo_a) / (alphas[1] - alphas[0])), na - 2)
        dx = (a - alphas[k]) / (alphas[1] - alphas[0])
        got = []
        for al in (alphas[k], alphas[k + 1]):
            values = expit(al * (self.th[:, None] - betas)).T @ self.weight
            got.append(np.interp(self.props[i], values[::-1], betas[::-1]))
        return np.abs((1 - dx) * got[0] + dx * got[1] - b)

    # ------------------------------------------------------------ likelihood
    def rest(self, tables, i):
        """Likelihood of everything but item i, times the weight."""
        out = np.ones((self.codes.shape[1], self.th.size))
        for j, t in enumerate(tables):
            if j != i:
                out *= ref.factor(t, self.codes[j])
        return out * self.weight

    def item_ll(self, rest, table, i):
        with np.errstate(all="ignore"):
            return float(np.log((rest * ref.factor(table, self.codes[i])).sum(axis=1)) @ self.counts)

    def ll(self, tables):
        with np.errstate(all="ignore"):
            return float(np.log(ref.likelihood(tables, self.codes) @ self.weight) @ self.counts)


def grm_tables(pb, a, b):
    return [ref.grm(a[i], b[i][:pb.sizes[i] - 1], pb.th) for i in range(pb.n_items)]


def pcm_tables(pb, a, b):
    return [ref.pcm(a[i], b[i][:pb.sizes[i] - 1], pb.th) for i in range(pb.n_items)]


def gum_tables(pb, a, delta, tau):
    return [ref.gum(a[i], delta[i], tau[i][:pb.sizes[i] - 1], pb.th) for i in range(pb.n_items)]


def improvable(f, x, steps, lo, hi, tol):
    """A step up or down along one coordinate that raises f by more than tol;
    (gain, step) or None. Steps that leave [lo, hi] are not taken."""
    base = f(x)
    best = None
    for s in steps:
        for sign in (1, -1):
            y = x + sign * s
            if lo <= y <= hi:
                gain = f(y) - base
                if gain > tol and (best is None or gain > best[0]):
                    best = (gain, sign * s)
    return best
