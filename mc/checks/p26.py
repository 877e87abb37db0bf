"""Contingency tables and polychoric correlations."""
import itertools

import numpy as np
from scipy.special import ndtr, ndtri

from girth.common import contingency_table, polychoric_correlation_serial, validate_contingency_table
from mc import ref

LEVEL = "exploration"
RULE = ("every pair of vectors up to length 4 over four codes for the tables; every table up to 3x3 of counts 0-2 for the "
        "validation; every 2x2 table of counts 0-5, 2x3 of 0-2, 3x3 of 0-1 (thorough: larger) and a menu of larger ones (up to 70001 persons) "
        "for the correlation, in every combination of exchanged and reversed scales; one evaluation is one table or one "
        "correlation; distinct by table; non-trivial with two rows and two columns")
ASSUMPTIONS = ["the likelihood is compared with its largest value over a grid of 399 correlations and their golden "
               "refinement, to 1e-4; where the likelihood is flat (a single row or column) any value will do",
               "pairs without a common valid observation are not judged"]
M = ref.MISSING
G, W = np.polynomial.legendre.leggauss(80)


def cases(tier):
    out = []
    codes = (0, 1, 2, 3)
    for n in range(1, 5):
        for first in codes:
            out.append((f"count-{n}-{first}", ["count", n, first]))
    out.append(("count-types", ["types"]))
    for r, c in itertools.product((1, 2, 3), repeat=2):
        for first in range(3):
            out.append((f"validate-{r}-{c}-{first}", ["validate", r, c, first]))
    sets = [(2, 2, 5, 3), (2, 3, 2, 2), (3, 3, 1, 3), (1, 3, 2, 1), (2, 4, 1, 2)] if tier == "quick" else \
        [(2, 2, 9, 3), (2, 3, 3, 3), (3, 3, 2, 4), (1, 3, 2, 1), (2, 4, 2, 4), (3, 4, 1, 6)]
    for r, c, top, split in sets:
        for head in itertools.product(range(top + 1), repeat=min(split, r * c - 1) if r * c > 3 else 1):
            out.append((f"corr-{r}-{c}-{top}-{'.'.join(map(str, head))}", ["corr", r, c, top, list(head)]))
    for k in range(24 if tier == "quick" else 120):
        out.append((f"large-{k}", ["large", k]))
    for total in (127, 129, 255, 257, 1000, 4097, 32769, 70001):
        out.append((f"counts-{total}", ["counts", total]))
    for n in (1, 2, 3, 4, 5):
        out.append((f"matrix-{n}", ["matrix", n]))
    return out


# ------------------------------------------------------------------ reference
def bvn(h, k, rho):
    """P(X < h, Y < k): Plackett's integral."""
    top = np.arcsin(rho)
    t = top * (G + 1) / 2
    s, c2 = np.sin(t), np.cos(t) ** 2
    h, k = np.asarray(h)[..., None], np.asarray(k)[..., None]
    f = np.exp(-(h * h + k * k - 2 * h * k * s) / (2 * c2))
    return ndtr(h[..., 0]) * ndtr(k[..., 0]) + (f * W).sum(axis=-1) * top / (4 * np.pi)


class Table:
    def __init__(self, t):
        t = np.asarray(t, dtype=float)
        self.t = t[t.sum(axis=1) > 0][:, t.sum(axis=0) > 0]
        rows, cols = self.t.sum(axis=1).cumsum(), self.t.sum(axis=0).cumsum()
        self.h = ndtri(rows[:-1] / rows[-1])
        self.k = ndtri(cols[:-1] / cols[-1])
        self.flat = min(self.t.shape) < 2

    def ll(self, rho):
        r, c = self.t.shape
        cum = np.zeros((r + 1, c + 1))
        cum[1:r, 1:c] = bvn(self.h[:, None], self.k[None], rho)
        cum[1:r, c] = ndtr(self.h)
        cum[r, 1:c] = ndtr(self.k)
        cum[r, c] = 1
        p = np.diff(np.diff(cum, axis=0), axis=1)
        return float((self.t * np.log(np.maximum(p, 1e-46)) * (self.t > 0)).sum())

    def best(self):
        grid = np.linspace(-0.995, 0.995, 399)
        v = [self.ll(x) for x in grid]
        j = int(np.argmax(v))
        lo, hi = grid[max(j - 1, 0)], grid[min(j + 1, len(grid) - 1)]
        phi = (np.sqrt(5) - 1) / 2
        for _ in range(25):
            a, b = hi - phi * (hi - lo), lo + phi * (hi - lo)
            if self.ll(a) > self.ll(b):
                hi = b
            else:
                lo = a
        return max(v[j], self.ll((lo + hi) / 2))


def vectors(t, start=1):
    t = np.asarray(t)
    rows, cols = np.indices(t.shape)
    n = t.astype(int).ravel()
    return np.array([np.repeat(rows.ravel(), n) + start, np.repeat(cols.ravel(), n) + start])


def value(rec, x, lo, hi):
    rec.count("evaluations")
    m = polychoric_correlation_serial(x, lo, hi)
    rec.check(m.shape == (2, 2) and m[0, 0] == 1 == m[1, 1] and m[0, 1] == m[1, 0], "not a correlation matrix", got=m)
    return float(m[0, 1])


def judge(rec, t, full=True):
    """One table: optimal, symmetric, antisymmetric under reversal, robust."""
    if np.sum(t) < 2:
        return
    tab = Table(t)
    size = max(np.shape(t))
    x = vectors(t)
    if x.shape[1] < 2:
        return
    got = value(rec, x, 1, size)
    info = dict(table=np.asarray(t))
    if not rec.check(-1 < got < 1, "not between -1 and 1", got=got, **info) or tab.flat:
        return
    best = tab.best()
    near = lambda rho: best - tab.ll(float(np.clip(rho, -0.995, 0.995)))
    tol = 1e-4 if abs(got) < 0.99 else 0.02
    rec.check(near(got) < tol, "a correlation of higher likelihood exists", got=got, missing=near(got), **info)
    rec.key(np.asarray(t))
    same = lambda a, b: abs(a - b) < 2e-3 or (abs(near(a)) < tol and abs(near(b)) < tol)
    swapped = value(rec, x[::-1], 1, size)
    rec.check(same(got, swapped), "not symmetric in its arguments", got=[got, swapped], **info)
    if not full:
        return
    r, c = np.shape(t)
    for flip in (0, 1):
        y = x.copy()
        y[flip] = (r if flip == 0 else c) + 1 - y[flip]
        back = value(rec, y, 1, size)
        rec.check(same(got, -back), "the sign does not follow a reversed scale", got=[got, back], flip=flip, **info)
    more = np.concatenate([[[M], [1]], x[:, :1], [[0], [size]], x[:, 1:], [[size + 1], [1]], [[1], [M]]], axis=1)
    rec.check(value(rec, more, 1, size) == got, "observations outside the range count", **info)
    for shift in (-1, 3):
        rec.check(abs(value(rec, x + shift, 1 + shift, size + shift) - got) < 1e-9, "other codes, other result", **info)
    rec.check(abs(value(rec, x, 0, size + 2) - got) < 1e-9, "unused codes change the result", **info)


def run(payload, rec):
    kind = payload[0]
    if kind == "count":
        _, n, first = payload
        for rest in itertools.product(range(4), repeat=n - 1):
            a = np.array((first,) + rest)
            for b in itertools.product(range(4), repeat=n):
                b = np.array(b)
                for lo, hi in ((0, 3), (1, 2), (1, 4), (2, 2)):
                    if n == 4 and (lo, hi) not in ((0, 3), (1, 2)):
                        continue
                    rec.count("evaluations")
                    got = contingency_table(a, b, lo, hi)
                    want = np.zeros((hi - lo + 1,) * 2)
                    for p, q in zip(a, b):
                        if lo <= p <= hi and lo <= q <= hi:
                            want[p - lo, q - lo] += 1
                    if not (got.shape == want.shape and np.array_equal(got, want)):
                        rec.fail("a count is wrong", vectors=[a, b], range=[lo, hi], got=got, want=want)
        rec.key(n, first)
    elif kind == "types":
        a, b = np.array([1, 2, 2, 5, 3, 1, 4]), np.array([2, 2, 1, 5, 3, 1, 1])
        want = contingency_table(a, b)
        rec.check(want.shape == (5, 5) and want.sum() == 7 and want[1, 0] == 1, "the default range")
        for t in ("int8", "uint8", "int16", "int32", "uint64", "float32", "float64"):
            for lo, hi in ((1, 5), (0, 5), (-1, 6), (2, 4), (-140, -120), (250, 262), (-257, -250)):
                rec.count("evaluations")
                ref_t = np.zeros((hi - lo + 1,) * 2)
                for p, q in zip(a, b):
                    if lo <= p <= hi and lo <= q <= hi:
                        ref_t[p - lo, q - lo] += 1
                got = contingency_table(a.astype(t), b.astype(t), lo, hi)
                rec.check(np.array_equal(got, ref_t), "a count is wrong", storage=t, range=[lo, hi])
                rec.key(t, lo, hi)
        for lo, hi in ((-3, 1), (-5, -1)):
            x, y = np.array([-3, -1, 0, 1, -1]), np.array([-1, -1, 1, -3, -5])
            want = np.zeros((hi - lo + 1,) * 2)
            for p, q in zip(x, y):
                if lo <= p <= hi and lo <= q <= hi:
                    want[p - lo, q - lo] += 1
            rec.check(np.array_equal(contingency_table(x, y, lo, hi), want), "negative codes", range=[lo, hi])
        for bools in ((True, False, True), (False, False, True)):
            got = contingency_table(np.array(bools), np.array(bools[::-1]), 0, 1)
            rec.check(np.array_equal(got, contingency_table(np.array(bools).astype(int), np.array(bools[::-1]).astype(int), 0, 1)),
                      "boolean answers")
    elif kind == "counts":
        # counts around the limits of small storage types
        total = payload[1]
        k = np.arange(total)
        for cells in (1, 4, 9):
            a, b = k % 3, (k // 3) % 3
            if cells == 1:
                a, b = a * 0 + 1, b * 0 + 1
            if cells == 4:
                a, b = a % 2, b % 2
            want = np.array([[np.count_nonzero((a == i) & (b == j)) for j in range(3)] for i in range(3)])
            for t in ("int64", "int8", "uint8", "float64"):
                rec.count("evaluations")
                got = contingency_table(a.astype(t), b.astype(t), 0, 2)
                rec.check(np.array_equal(got, want), "a count is wrong", got=got, want=want, storage=t, persons=total)
            rec.key(total, cells)
        share = np.array([[.2, .1, .05], [.1, .15, .1], [.02, .08, .2]])
        judge(rec, np.maximum(np.round(share * total), 1).astype(int), full=False)
        judge(rec, np.array([[total, 2], [1, 3]]), full=False)
        judge(rec, np.array([[total, total // 5], [total // 3, total]]), full=False)
    elif kind == "validate":
        _, r, c, first = payload
        for rest in itertools.product(range(3), repeat=r * c - 1):
            t = np.array((first,) + rest).reshape(r, c)
            for store in (int, float):
                rec.count("evaluations")
                x = t.astype(store)
                got = validate_contingency_table(x)
                want = t[t.any(axis=1)][:, t.any(axis=0)]
                if not (got.shape == want.shape and np.array_equal(got, want) and np.array_equal(x, t)):
                    rec.fail("validation keeps or drops the wrong rows and columns", table=t, got=got, want=want)
        rec.key(r, c, first)
    elif kind == "corr":
        _, r, c, top, head = payload
        for k, rest in enumerate(itertools.product(range(top + 1), repeat=r * c - len(head))):
            t = np.array(list(head) + list(rest)).reshape(r, c)
            if not (t.any(axis=1).all() and t.any(axis=0).all()):
                if k % 5:
                    continue            # empty lines are also met here, sparsely
            judge(rec, t, full=k % 3 == 0)
    elif kind == "large":
        k = payload[1]
        rng = np.random.default_rng([26, k])
        r, c = ((3, 3), (4, 4), (5, 5), (2, 5), (5, 3), (2, 2))[k % 6]
        rho = (-0.9, -0.6, -0.2, 0.0, 0.3, 0.7, 0.95)[k % 7]
        n = (30, 100, 400, 1500)[k % 4]
        z = rng.multivariate_normal([0, 0], [[1, rho], [rho, 1]], n)
        t = np.zeros((r, c), dtype=int)
        i = np.digitize(z[:, 0], np.linspace(-1.1, 1.3, r - 1) if r > 2 else [0.4])
        j = np.digitize(z[:, 1], np.linspace(-1.4, 0.9, c - 1) if c > 2 else [-0.2])
        np.add.at(t, (i, j), 1)
        judge(rec, t)
        rec.sample(table=t, generated_with=rho, correlation=value(rec, vectors(t), 1, max(r, c)))
    else:
        n = payload[1]
        rng = np.random.default_rng([27, n])
        f = rng.standard_normal(70)
        x = np.array([np.digitize(f * (0.9 - 0.35 * i) + rng.standard_normal(70), [-0.8, 0.1, 1.0]) for i in range(n)]) + 1
        x[rng.random(x.shape) < 0.1] = M
        m = polychoric_correlation_serial(x, 1, 4)
        rec.count("evaluations")
        rec.check(m.shape == (n, n) and np.array_equal(m, m.T) and (np.diag(m) == 1).all(), "not a correlation matrix", got=m)
        for i, j in itertools.combinations(range(n), 2):
            rec.check(abs(m[i, j] - value(rec, x[[i, j]], 1, 4)) < 2e-3, "the matrix disagrees with its pairs", pair=[i, j])
            both = (x[i] != M) & (x[j] != M)
            t = np.zeros((4, 4), dtype=int)
            np.add.at(t, (x[i][both] - 1, x[j][both] - 1), 1)
            tab = Table(t)
            rec.check(tab.best() - tab.ll(m[i, j]) < 1e-4, "a correlation of higher likelihood exists", pair=[i, j])
        wide = polychoric_correlation_serial(np.where(x == M, M, x), 1, 5)
        rec.check(np.abs(wide - polychoric_correlation_serial(x)).max() == 0, "the default range")
        rec.key("matrix", n)
