"""Polyserial correlation, Cronbach's alpha and the classical item table."""
import itertools

import numpy as np
from scipy.special import ndtr, ndtri

from girth import classical_test_statistics
from girth.common import cronbach_alpha, polyserial_correlation
from mc import ref

LEVEL = "exploration"
RULE = ("every assignment of 2 or 3 codes to up to 7 persons x a menu of continuous scores; every 2x4 and 3x3 (thorough: "
        "3x4) answer matrix over two codes and missing; menus of larger tables (up to 130 items, 4099 persons) x missing patterns x storage; one evaluation "
        "is one statistic; distinct by data; non-trivial when the statistic is defined")
ASSUMPTIONS = ["the polyserial likelihood is compared with its maximum over a grid and its refinement, to 1e-4",
               "statistics whose definition divides by zero, or has too few answers, are not judged"]
M = ref.MISSING


def cases(tier):
    out = []
    for n in range(3, 8 if tier == "quick" else 9):
        for k in (2, 3, 4):
            if k == 4 and n < 6:
                continue
            for first in range(k):
                out.append((f"serial-{n}-{k}-{first}", ["serial", n, k, first]))
    for k in range(24 if tier == "quick" else 100):
        out.append((f"serial-menu-{k}", ["menu", k]))
    for first in itertools.product((1, 2, M), repeat=3):
        out.append((f"alpha-2-4-{first}", ["alpha", 2, 4, list(first)]))
        out.append((f"alpha-3-3-{first}", ["alpha", 3, 3, list(first)]))
        if tier == "thorough":
            out.append((f"alpha-3-4-{first}", ["alpha", 3, 4, list(first)]))
    for n, persons in ((3, 257), (3, 1025), (4, 4099), (40, 300), (130, 60)):
        out.append((f"size-{n}-{persons}", ["size", n, persons]))
    for k in range(48 if tier == "quick" else 240):
        out.append((f"table-{k}", ["table", k]))
    return out


# ------------------------------------------------------------------ reference
class Serial:
    def __init__(self, x, y):
        x, y = np.asarray(x, dtype=float), np.asarray(y)
        self.z = (x - x.mean()) / x.std(ddof=1)
        values, self.y, counts = np.unique(y, return_inverse=True, return_counts=True)
        self.tau = np.concatenate([[-np.inf], ndtri(counts.cumsum()[:-1] / len(y)), [np.inf]])

    def ll(self, rho):
        s = np.sqrt(1 - rho * rho)
        up, lo = (self.tau[self.y + 1] - rho * self.z) / s, (self.tau[self.y] - rho * self.z) / s
        flip = lo > 0                       # the thinner tail keeps its digits
        p = np.where(flip, ndtr(-lo) - ndtr(-up), ndtr(up) - ndtr(lo))
        return float(np.log(np.maximum(p, 1e-300)).sum())

    def best(self):
        grid = np.linspace(-0.9899, 0.9899, 199)
        v = [self.ll(r) for r in grid]
        j = int(np.argmax(v))
        lo, hi = grid[max(j - 1, 0)], grid[min(j + 1, len(grid) - 1)]
        phi = (np.sqrt(5) - 1) / 2
        for _ in range(25):
            a, b = hi - phi * (hi - lo), lo + phi * (hi - lo)
            if self.ll(a) > self.ll(b):
                hi = b
            else:
                lo = a
        return max(v[j], self.ll((lo + hi) / 2))


def judge_serial(rec, x, y, got, **info):
    if np.unique(y).size < 2 or np.std(x) == 0 or len(y) < 3:
        return
    s = Serial(x, y)
    best = s.best()
    ok = np.isfinite(got) and -1 < got < 1
    if not rec.check(ok, "not between -1 and 1", got=got, continuous=x, ordinal=y, **info):
        return
    if abs(s.ll(0.9899) - best) < 1e-3 or abs(s.ll(-0.9899) - best) < 1e-3:
        # the best value is the end of the interval, where probabilities underflow
        rec.check(best - s.ll(float(np.clip(got, -0.9899, 0.9899))) < 0.05, "a correlation of higher likelihood exists",
                  got=got, missing=best - s.ll(got), continuous=x, ordinal=y, **info)
    else:
        rec.check(best - s.ll(got) < 1e-4, "a correlation of higher likelihood exists", got=got, missing=best - s.ll(got),
                  continuous=x, ordinal=y, **info)
    rec.key(np.round(x, 6), y)


def alpha(x):
    """By definition; None where it divides by zero or lacks answers."""
    x = np.asarray(x)
    n = len(x)
    items = []
    for row in x:
        v = row[row != M].astype(float)
        if len(v) < 2:
            return None
        items.append(((v - v.mean()) ** 2).sum() / (len(v) - 1))
    people = []
    for col in x.T:
        v = col[col != M].astype(float)
        if len(v):
            people.append(v.mean())
    people = np.array(people)
    if n < 2 or len(people) < 2:
        return None
    var = ((people - people.mean()) ** 2).sum() / (len(people) - 1)
    if var < 1e-12:
        return None
    return n / (n - 1) * (1 - sum(items) / (n * n * var))


def scores(n):
    """Continuous menus of n persons."""
    yield "even", np.linspace(-1, 1, n)
    yield "scrambled", np.sin(2.3 * np.arange(n)) * 3 + 5
    yield "ties", (np.arange(n) * 2 % 3).astype(float)
    yield "whole", (np.arange(n) ** 2 % 7)
    yield "outlier", np.where(np.arange(n) == 1, 40.0, np.cos(np.arange(n)))


def storages(x):
    yield "int64", x
    yield "int32", x.astype("int32")
    yield "float", x.astype(float)
    yield "fortran", np.asfortranarray(x)
    yield "strided", np.repeat(x, 2, axis=1)[:, ::2]


def run(payload, rec):
    kind = payload[0]
    if kind == "serial":
        _, n, k, first = payload
        for j, rest in enumerate(itertools.product(range(k), repeat=n - 1)):
            if n >= 7 and j % 5 or n >= 6 and k == 4 and j % 17:
                continue
            y = np.array((first,) + rest)
            if np.unique(y).size < 2:
                continue
            for name, x in scores(n):
                if np.std(x) == 0:
                    continue
                if n > 4 and (j + len(name)) % 3:
                    continue
                rec.count("evaluations")
                judge_serial(rec, x, y, float(polyserial_correlation(x, y)), scores=name)
    elif kind == "menu":
        k = payload[1]
        rng = np.random.default_rng([27, k])
        n, cats, rho = (30, 80, 200, 500)[k % 4], (2, 3, 5, 7)[(k // 4) % 4], (-0.9, -0.5, 0, 0.2, 0.6, 0.93)[k % 6]
        z = rng.standard_normal(n)
        u = rho * z + np.sqrt(1 - rho * rho) * rng.standard_normal(n)
        y = np.digitize(u, np.linspace(-1.2, 1.4, cats - 1) if cats > 2 else [0.3])
        if np.unique(y).size < 2:
            return
        rec.count("evaluations", 6)
        got = float(polyserial_correlation(z, y))
        judge_serial(rec, z, y, got)
        for name, (a, b) in {"codes": (z, 3 * y - 4), "codes as floats": (z, y * 0.5), "scale": (7 * z + 2, y)}.items():
            rec.check(abs(float(polyserial_correlation(a, b)) - got) < 1e-4, "depends on the units", units=name, persons=n)
        rec.check(abs(float(polyserial_correlation(-z, y)) + got) < 1e-3 and abs(float(polyserial_correlation(z, -y)) + got) < 1e-3,
                  "the sign does not follow a reversed scale", got=got)
        order = rng.permutation(n)
        rec.check(abs(float(polyserial_correlation(z[order], y[order])) - got) < 1e-6, "depends on the order of persons")
        rec.sample(persons=n, categories=cats, generated_with=rho, correlation=got)
    elif kind == "alpha":
        _, r, c, first = payload
        for rest in itertools.product((1, 2, M), repeat=r * c - len(first)):
            x = np.array(list(first) + list(rest)).reshape(r, c)
            want = alpha(x)
            if want is None:
                continue
            rec.count("evaluations")
            got = cronbach_alpha(x)
            if not abs(got - want) < 1e-9 * max(1, abs(want)):
                rec.fail("alpha differs from its definition", data=x, got=got, want=want)
            rec.key(x)
    else:
        if kind == "size":
            _, n, persons = payload
            k, cats, miss = n * persons, 4, 0.1
        else:
            k = payload[1]
            n, persons, cats = (3, 5, 8, 12)[k % 4], (12, 40, 90)[k % 3], (2, 3, 5)[(k // 3) % 3]
            miss = (0, 0.1, 0.4)[(k // 2) % 3]
        x = ref.make_data(n, cats, persons, seed=k, missing=miss, start=(0, 1)[k % 2])
        if k % 5 == 0 and miss:
            x[:, 2] = M                     # a person without any answer
            x[1:, 4] = M                    # one with a single answer
        tables = {}
        for name, y in storages(x):
            kept = y.copy()
            rec.count("evaluations", 6 * n)
            tables[name] = got = classical_test_statistics(y, int(x[x != M].min()), int(x.max()))
            rec.check(np.array_equal(kept, y), "the data is modified", storage=name)
            info = dict(items=n, persons=persons, case=k, storage=name)
            rec.check(all(np.shape(v) == (n,) for v in got.values()), "one entry per item",
                      shapes={key: np.shape(v) for key, v in got.items()}, **info)
            for i in range(n):
                row = x[i][x[i] != M].astype(float)
                rec.check(got["Item Counts"][i] == len(row), "number of answers", item=i, got=got["Item Counts"][i], **info)
                rec.check(abs(got["Mean"][i] - row.mean()) < 1e-9, "mean", item=i, got=got["Mean"][i], want=row.mean(), **info)
                sd = np.sqrt(((row - row.mean()) ** 2).sum() / (len(row) - 1))
                rec.check(abs(got["Std"][i] - sd) < 1e-9, "standard deviation", item=i, got=got["Std"][i], want=sd, **info)
                others = np.delete(x, i, axis=0)
                pairs = []
                for p in range(persons):
                    rest = others[:, p][others[:, p] != M]
                    if x[i, p] != M and len(rest):
                        pairs.append((rest.mean(), x[i, p]))
                score, item = np.array(pairs).T
                if score.std() > 1e-9 and item.std() > 1e-9:
                    zs, zi = score - score.mean(), item - item.mean()
                    want = (zs * zi).sum() / np.sqrt((zs ** 2).sum() * (zi ** 2).sum())
                    rec.check(abs(got["Item-Score Correlation"][i] - want) < 1e-9, "correlation with the other items", item=i,
                              got=got["Item-Score Correlation"][i], want=want, **info)
                    if name == "int64":
                        judge_serial(rec, score, item, float(got["Polyserial Correlation"][i]), item=i)
                    else:
                        rec.check(abs(got["Polyserial Correlation"][i] - tables["int64"]["Polyserial Correlation"][i]) < 1e-6,
                                  "polyserial correlation depends on storage", item=i, **info)
                want = alpha(others)
                if want is not None:
                    rec.check(abs(got["Cronbach Alpha"][i] - want) < 1e-8 * max(1, abs(want)), "alpha without the item", item=i,
                              got=got["Cronbach Alpha"][i], want=want, **info)
            whole = alpha(x)
            if whole is not None:
                rec.check(abs(cronbach_alpha(y) - whole) < 1e-8 * max(1, abs(whole)), "alpha differs from its definition",
                          got=cronbach_alpha(y), want=whole, **info)
            rec.key(k, name)
        if x[x != M].min() == 1 and cats == 5:
            a, b = classical_test_statistics(x), tables["int64"]
            rec.check(all(ref.close(a[key], b[key], 0) for key in b), "the default range")
