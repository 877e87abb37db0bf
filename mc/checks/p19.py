"""Conditional Rasch estimation."""
import itertools

import numpy as np
from scipy import optimize

import girth
from mc import ref

LEVEL = "exploration"
RULE = ("every count vector in 1..6 over the two patterns of 2 items, in {1,3} (thorough: 0..2) over the six patterns of 3 "
        "items, every single and double increment over the 14 patterns of 4 items, each with and without persons with none or all right, a "
        "menu of long tests, discriminations and iteration bounds; every exchange of margins of a menu; one evaluation is one "
        "estimation; distinct by data; non-trivial when difficulties differ")
ASSUMPTIONS = ["complete data in which no item is answered alike by all persons whose answers vary",
               "solutions with a difficulty beyond 4.8 are left out (the search interval ends at 5)"]
SIZES = [(5, 40), (8, 100), (12, 60), (25, 150), (50, 120)]
ALPHAS = [None, 1.0, 1.7, 0.5, 2.5]


def cases(tier):
    out = [("two", ["two"]), ("wide", ["wide"])]
    values = (0, 1, 2) if tier == "thorough" else (1, 3)
    for lead in itertools.product(values, repeat=3):
        out.append((f"three-{''.join(map(str, lead))}", ["three", list(lead), list(values)]))
    for k in range(14):
        out.append((f"four-{k}", ["four", k]))
    for c in range(len(SIZES)):
        for s in range(3 if tier == "quick" else 20):
            out.append((f"menu-{c}-{s}", ["menu", c, s]))
        out.append((f"swap-{c}", ["swap", c]))
        out.append((f"iter-{c}", ["iter", c]))
    for n in (10, 30, 60, 100) + ((200,) if tier == "thorough" else ()):
        for lean in ("even", "low", "high", "ends"):
            out.append((f"scores-{n}-{lean}", ["scores", n, lean]))
    return out


def esf(e):
    """Elementary symmetric functions by recursion."""
    out = np.zeros(e.size + 1)
    out[0] = 1.0
    for x in e:
        out[1:] = out[1:] + x * out[:-1]
    return out


class Reference:
    def __init__(self, data):
        vary = (data.sum(axis=0) > 0) & (data.sum(axis=0) < data.shape[0])
        self.data = data[:, vary].astype(int)
        self.n = data.shape[0]
        self.totals = self.data.sum(axis=1)
        self.scores = np.bincount(self.data.sum(axis=0), minlength=self.n + 1)
        self.usable = self.data.shape[1] > 0 and (self.totals > 0).all() and (self.totals < self.data.shape[1]).all()

    def ll(self, b):
        g = esf(np.exp(-b))
        return float(-b @ self.totals - np.log(g) @ self.scores)

    def gradient(self, b):
        e = np.exp(-b)
        g = esf(e)
        out = np.zeros(self.n)
        for i in range(self.n):
            h = np.concatenate(([0.0], esf(np.delete(e, i))))
            out[i] = -self.totals[i] + (e[i] * h / g) @ self.scores
        return out

    def solve(self):
        r = optimize.minimize(lambda b: -self.ll(b), np.zeros(self.n), jac=lambda b: -self.gradient(b), method="L-BFGS-B",
                              options={"maxiter": 2000, "ftol": 1e-15, "gtol": 1e-9})
        return r.x - r.x.mean()


def estimate(rec, data, alpha=None, k=200):
    rec.count("evaluations")
    o = {"max_iteration": k}
    return girth.rasch_conditional(data, options=o) if alpha is None else girth.rasch_conditional(data, alpha, o)


def judge(rec, data, alpha=None, got=None, tag=None):
    reference = Reference(data)
    if not reference.usable:
        rec.count("not_judged")
        return
    info = dict(data=data if data.size < 200 else data.shape, discrimination=alpha)
    got = got or estimate(rec, data, alpha)
    want = reference.solve()
    if np.abs(want).max() > 4.8:
        rec.count("not_judged")
        return
    b = np.asarray(got["Difficulty"])
    if not rec.check(b.shape == (reference.n,), "one difficulty per item", shape=b.shape, **info):
        return
    rec.check(got["Discrimination"] == (1 if alpha is None else alpha), "the given discrimination is reported", **info)
    b = b * (1 if alpha is None else alpha)
    rec.check(abs(b.sum()) < 1e-8, "difficulties sum to zero", got=b, **info)
    gap = reference.ll(want) - reference.ll(b)
    rec.check(np.abs(b - want).max() < 5e-3 and gap < 1e-3 * max(1, reference.data.shape[1] / 100),
              "not the maximiser of the conditional likelihood", got=b, want=want, gap=gap, **info)
    if np.ptp(want) > 0.02:
        rec.key(tag, np.round(want, 4))


def run(payload, rec):
    kind = payload[0]
    if kind == "two":
        for x, y in itertools.product(range(1, 7), repeat=2):
            data = ref.expand([(1, 0), (0, 1)], [x, y])
            b = np.asarray(estimate(rec, data)["Difficulty"])
            want = np.array([-0.5, 0.5]) * np.log(x / y)
            rec.check(np.abs(b - want).max() < 1e-3, "two items: log ratio of the counts", counts=[x, y], got=b, want=want)
            rec.key("two", x, y)
    elif kind == "wide":
        vary = [p for p in ref.all_patterns(3, (0, 1)) if 0 < sum(p) < 3]
        for big in (20, 60, 200, 600):
            for where in itertools.permutations(range(6), 2):
                counts = np.ones(6, dtype=int)
                counts[where[0]] = big
                counts[where[1]] = big // 2
                judge(rec, ref.expand(vary, counts), tag="wide")
        for big in (100, 400, 900, 1200):
            for where in range(6):
                counts = np.ones(6, dtype=int)
                counts[where] = big
                judge(rec, ref.expand(vary, counts), tag="wide")
    elif kind == "three":
        vary = [p for p in ref.all_patterns(3, (0, 1)) if 0 < sum(p) < 3]
        for tail in itertools.product(payload[2], repeat=3):
            counts = payload[1] + list(tail)
            if not sum(counts):
                continue
            judge(rec, ref.expand(vary, counts), tag="three")
            judge(rec, ref.expand(vary + [(0, 0, 0), (1, 1, 1)], counts + [sum(counts) % 3 + 1, 4]), 1.4, tag="three")
    elif kind == "four":
        vary = [p for p in ref.all_patterns(4, (0, 1)) if 0 < sum(p) < 4]
        for j in range(payload[1], 14):
            counts = np.ones(14, dtype=int)
            counts[payload[1]] += 2
            counts[j] += 3
            judge(rec, ref.expand(vary + [(1, 1, 1, 1)], list(counts) + [j % 3]), tag="four")
    elif kind == "menu":
        n, persons = SIZES[payload[1]]
        data = ref.make_data(n, 2, persons, seed=payload[2] + 7, a=1.0)
        for alpha in ALPHAS:
            judge(rec, data, alpha, tag=("menu", n))
        rec.sample(items=n, persons=persons)
    elif kind == "scores":      # every score occurs, the smallest and largest among them
        _, n, lean = payload
        rng = np.random.default_rng([19, n])
        want = {"even": range(1, n), "low": [1, 1, 2, 2, 3] * 12, "high": [n - 1, n - 1, n - 2, n - 2, n - 3] * 12,
                "ends": [1, 2, n - 2, n - 1] * 15 + [n // 2] * 10}[lean]
        easy = np.linspace(-1, 1, n)
        cols = []
        for s in list(want) * (3 if n <= 30 else 1):
            col = np.zeros(n, dtype=int)
            col[np.argsort(easy + rng.gumbel(size=n))[:s]] = 1
            cols.append(col)
        # every item is right and wrong at least once
        cols += [(np.arange(n) % 3 == k).astype(int) for k in range(3)] + [(np.arange(n) % 3 != k).astype(int) for k in range(3)]
        judge(rec, np.array(cols).T, tag=("scores", n, lean))
    elif kind == "swap":
        n, persons = SIZES[payload[1]]
        data = ref.make_data(n, 2, persons, seed=3, a=1.0)
        base = estimate(rec, data)["Difficulty"]
        other = data.copy()
        for i in range(0, n - 1, 2):        # exchange answers of two persons on two items
            x = np.flatnonzero((other[i] == 1) & (other[i + 1] == 0))
            y = np.flatnonzero((other[i] == 0) & (other[i + 1] == 1))
            if x.size and y.size:
                other[i:i + 2, x[0]], other[i:i + 2, y[0]] = [0, 1], [1, 0]
                rec.check(ref.close(estimate(rec, other)["Difficulty"], base, 1e-6),
                          "item and score totals decide the estimates", item=i)
        rec.key("swap", n)
    elif kind == "iter":
        n, persons = SIZES[payload[1]]
        data = ref.make_data(n, 2, persons, seed=5, a=1.0)
        reference = Reference(data)
        last = reference.ll(np.zeros(n))
        seen = {}
        for k in (1, 2, 3, 4, 5, 24, 25, 26, 100):
            b = np.asarray(estimate(rec, data, None, k)["Difficulty"])
            now = reference.ll(b)
            rec.check(abs(b.sum()) < 1e-8, "difficulties sum to zero", k=k)
            rec.check(now >= last - 1e-6, "an iteration lowers the likelihood", k=k, ll=[last, now])
            grad = reference.gradient(b)
            rec.check(abs(grad[-1]) < 0.01 * persons / 20, "the last item solved is not at its maximum", k=k, gradient=grad[-1])
            last = now
            seen[k] = b
        rec.count("evaluations")
        rec.check(ref.close(girth.rasch_conditional(data)["Difficulty"], seen[25], 0), "25 iterations by default")
        rec.check(np.abs(seen[100] - reference.solve()).max() < 5e-3, "not the maximiser of the conditional likelihood")
        if np.abs(seen[2] - seen[1]).max() > 2e-2:
            rec.check(np.abs(seen[2] - seen[3]).max() > 0, "it stops while still moving")
