"""Dichotomous joint estimation as a transition system."""
import itertools

import numpy as np
from scipy import optimize
from scipy.special import expit

import girth
from mc import ref

LEVEL = "model_checking"
RULE = ("states are the item parameters after k iterations, transitions the iterations; every count vector of a bound over "
        "the patterns of 3 items that vary, every added pattern with missing answers, and a menu of longer data; unusual data sets (ref.unusual: more items than persons, negative and large codes, rare categories, mostly missing answers, lopsided, doubled items, persons without answers); "
        "for each, all "
        "iterations up to a bound are replayed on the model; distinct by data and state; non-trivial when the "
        "difficulties of a state differ")
ASSUMPTIONS = ["the model starts from the documented approximation of the difficulties (P01) and the given discrimination",
               "data in which an item is answered alike by all, or whose persons cannot be told apart, is left out",
               "a step conforms when the model's likelihood at the implementation's successor is within the "
               "optimiser's accuracy of its maximum"]
M = ref.MISSING
CONFIGS = [(4, 30), (5, 60), (8, 120), (12, 80), (20, 60), (4, 1100), (45, 60)]


def cases(tier):
    out = []
    for model in ("rasch", "onepl", "twopl"):
        leads = itertools.product((0, 1, 2), repeat=3) if tier == "thorough" else itertools.product((1, 3), repeat=3)
        for lead in leads:
            out.append((f"{model}-counts-{''.join(map(str, lead))}", [model, "counts", list(lead), tier]))
        for p in range(9):
            out.append((f"{model}-missing-{p}", [model, "missing", p]))
        for c in range(len(CONFIGS)):
            for s in range(2 if tier == "quick" else 10):
                out.append((f"{model}-menu-{c}-{s}", [model, "menu", c, s]))
    for a in (0.5, 1.7, 2.6):
        for c in range(3):
            out.append((f"rasch-alpha-{a}-{c}", ["rasch", "alpha", c, a]))
    for model in ("rasch", "onepl", "twopl"):
        for name in ref.UNUSUAL:
            if name not in ("negative", "large"):
                out.append((f"{model}-unusual-{name}", [model, "unusual", name]))
        for k in range(3):
            out.append((f"{model}-trim-{k}", [model, "trim", k]))
            out.append((f"{model}-steep-{k}", [model, "steep", k]))
    return out


class Model:
    """The documented algorithm on distinct patterns."""

    def __init__(self, data, kind, alpha=1.0):
        self.kind = kind
        pats, counts = np.unique(data, axis=1, return_counts=True)
        ok = [len(set(p[p != M])) > 1 for p in pats.T]
        self.pats, self.counts = pats[:, ok], counts[ok]
        self.sign = np.where(self.pats == 1, 1.0, np.where(self.pats == 0, -1.0, 0.0))
        yes, no = (data == 1).sum(axis=1), (data == 0).sum(axis=1)
        self.n = data.shape[0]
        self.usable = self.pats.shape[1] > 1 and (yes > 0).all() and (no > 0).all()
        if self.usable:     # within what is left, too
            s = self.sign
            self.usable = ((s == 1).any(axis=1) & (s == -1).any(axis=1)).all()
        with np.errstate(all="ignore"):
            self.start = (np.full(self.n, float(alpha)),
                          np.sqrt(1 + alpha ** 2 / 3) * np.log(no / yes) / alpha)

    def thetas(self, a, b):
        """Standardised abilities; None when they do not vary enough."""
        out = []
        for s in self.sign.T:
            z = a * s

            def slope(t):
                return float((z * expit(-z * (t - b))).sum())
            if slope(6.0) >= 0:
                out.append(6.0)
            elif slope(-6.0) <= 0:
                out.append(-6.0)
            else:
                out.append(optimize.brentq(slope, -6, 6, xtol=1e-11))
        out = np.array(out)
        sd = out.std(ddof=1)
        if sd < 0.02:
            return None
        return (out - out.mean()) / sd

    def cost(self, i, a, b, th):
        return float(np.logaddexp(0, -self.sign[i] * a * (th - b)) @ self.counts)

    def best_b(self, i, a, th):
        z = a * self.sign[i]

        def slope(b):   # of the cost
            return float((z * expit(-z * (th - b))) @ self.counts)
        if slope(6.0) <= 0:
            return 6.0
        if slope(-6.0) >= 0:
            return -6.0
        return optimize.brentq(slope, -6, 6, xtol=1e-11)

    def profile(self, a, th):
        bs = [self.best_b(i, a, th) for i in range(self.n)]
        return sum(self.cost(i, a, bs[i], th) for i in range(self.n)), bs

    def judge(self, rec, k, before, after, info):
        """Whether after is a successor of before."""
        th = self.thetas(*before)
        if th is None:
            rec.count("not_judged")
            return False
        rec.count("transitions")
        rec.count("traces_validated_against_impl")
        a, b = after
        if self.kind in ("rasch", "onepl"):
            rec.check(np.ptp(a) == 0, "one discrimination for all", a=a, **info)
            if self.kind == "rasch":
                rec.check((a == before[0]).all(), "the discrimination stays as given", a=a, **info)
            else:
                lo, hi = 0.25, 5.0
                grid = np.geomspace(lo, hi, 25)
                vals = [self.profile(x, th)[0] for x in grid]
                j = int(np.argmin(vals))
                r = optimize.minimize_scalar(lambda x: self.profile(x, th)[0], method="bounded",
                                             bounds=(grid[max(j - 1, 0)], grid[min(j + 1, 24)]), options={"xatol": 1e-6})
                best = min(r.fun, min(vals))
                here = sum(self.cost(i, a[0], b[i], th) for i in range(self.n))
                rec.check(lo - 1e-6 <= a[0] <= hi + 1e-6 and here - best < 1e-5 + 1e-6 * self.counts.sum(),
                          "the common discrimination is not a maximiser", k=k, a=a[0], best=[r.x, best], here=here, **info)
            for i in range(self.n):
                want = self.best_b(i, a[0], th)
                gap = self.cost(i, a[0], b[i], th) - self.cost(i, a[0], want, th)
                # the search stops within its tolerance of a bound, however steep the cost
                rec.check(abs(b[i]) <= 6 and (gap < 1e-6 or abs(want - b[i]) < 1.1e-5)
                          and (abs(want - b[i]) < 2e-3 or gap < 1e-9),
                          "a difficulty is not a maximiser given the abilities", k=k, item=i, got=b[i], want=want, **info)
        else:
            for i in range(self.n):
                inside = .25 - 1e-6 <= a[i] <= 4 + 1e-6 and abs(b[i]) <= 6 + 1e-6
                r = min((optimize.minimize(lambda x: self.cost(i, x[0], x[1], th), x0, method="L-BFGS-B",
                                           bounds=[(.25, 4), (-6, 6)])
                         for x0 in ((np.clip(a[i], .25, 4), np.clip(b[i], -6, 6)), (1.0, 0.0), (2.5, self.best_b(i, 2.5, th)))), key=lambda r: r.fun)
                gap = self.cost(i, a[i], b[i], th) - r.fun
                rec.check(inside and gap < 1e-4 * max(1, self.counts.sum() / 50),
                          "item parameters are not a maximiser given the abilities", k=k, item=i,
                          got=[a[i], b[i]], want=r.x, gap=gap, **info)
        return True


def call(kind, data, alpha, k):
    o = {"max_iteration": k}
    if kind == "rasch":
        r = girth.rasch_jml(data, alpha, o) if alpha != 1 else girth.rasch_jml(data, options=o)
    else:
        r = (girth.onepl_jml if kind == "onepl" else girth.twopl_jml)(data, o)
    return r


def explore(rec, kind, data, most, alpha=1.0):
    model = Model(data, kind, alpha)
    if not model.usable:
        rec.count("not_judged")
        return
    info = dict(kind=kind, data=data if data.size < 200 else data.shape)
    rec.count("states")
    state, settled = model.start, False
    for k in range(1, most + 1):
        rec.count("evaluations")
        got = call(kind, data, alpha, k)
        a, b = np.asarray(got["Discrimination"], dtype=float), np.asarray(got["Difficulty"])
        shape = () if kind == "onepl" else (model.n,)
        if not rec.check(a.shape == shape and b.shape == (model.n,), "shapes of the estimates", shapes=[a.shape, b.shape], **info):
            return
        new = (np.full(model.n, float(a)) if kind == "onepl" else a, b)
        if settled:
            rec.check((new[0] == state[0]).all() and (new[1] == state[1]).all(), "it goes on after it has settled", k=k, **info)
            return
        if not model.judge(rec, k, state, new, info):
            return
        rec.count("states")
        moved = np.abs(new[1] - state[1]).max()
        # close calls are not judged
        settled = moved < 0.98e-3
        state = new
        if np.ptp(b) > 0.05:
            rec.key(kind, data if data.size < 300 else data.sum(axis=0), k, np.round(b, 3))
        if 0.98e-3 <= moved < 1.02e-3:
            return


def run(payload, rec):
    kind, how = payload[:2]
    vary = [p for p in ref.all_patterns(3, (0, 1)) if 0 < sum(p) < 3]
    if how == "counts":
        values = (0, 1, 2) if payload[3] == "thorough" else (1, 3)
        for tail in itertools.product(values, repeat=3):
            counts = payload[2] + list(tail)
            if sum(counts) < 2:
                continue
            # constant patterns are there as well and must not matter
            data = ref.expand(vary + [(0, 0, 0), (1, 1, 1)], counts + [2, 1])
            explore(rec, kind, data, 4)
    elif how == "missing":
        base = ref.expand(vary, [1, 2, 1, 3, 1, 2])
        for extra in ref.all_patterns(3, (0, 1, M))[payload[2]::9]:
            data = ref.expand([tuple(c) for c in base.T] + [extra], [1] * base.shape[1] + [3])
            explore(rec, kind, data, 4)
    elif how == "menu":
        n, persons = CONFIGS[payload[2]]
        for miss in (0.0, 0.25):
            data = ref.make_data(n, 2, persons, seed=payload[3] + 3, missing=miss, a=0.9)
            explore(rec, kind, data, 5)
        # far iterations
        data = ref.make_data(n, 2, persons, seed=payload[3] + 60, missing=0.1, a=0.7)
        rec.count("evaluations", 4)
        r = {k: call(kind, data, 1.0, k) for k in (24, 25, 26)}
        d = girth.rasch_jml(data) if kind == "rasch" else girth.onepl_jml(data) if kind == "onepl" else girth.twopl_jml(data)
        rec.check(ref.close(d["Difficulty"], r[25]["Difficulty"], 0), "25 iterations by default")
        model = Model(data, kind)
        if model.usable:
            far = [(np.full(n, r[k]["Discrimination"]) if kind == "onepl" else r[k]["Discrimination"], r[k]["Difficulty"])
                   for k in (24, 25, 26)]
            for x, y in zip(far, far[1:]):
                if not (x[1] == y[1]).all():
                    model.judge(rec, 25, x, y, dict(kind=kind, far=True))
        rec.sample(kind=kind, items=n, difficulties_after_25=np.round(d["Difficulty"], 3))
    elif how == "alpha":
        n, persons = CONFIGS[payload[2]]
        data = ref.make_data(n, 2, persons, seed=12, missing=0.1)
        explore(rec, kind, data, 5, payload[3])
    elif how == "unusual":
        explore(rec, kind, ref.unusual(payload[2], two=True), 4)
    elif how == "steep":    # nearly a scale
        n = (4, 6, 9)[payload[2]]
        th = ref.quantiles(40)
        data = (th[None, :] > np.linspace(-1.3, 1.2, n)[:, None]).astype(int)
        steps = [tuple(int(i < k) for i in range(n)) for k in range(1, n)]
        odd = [(0,) + (1,) * (n - 1), (0,) * (n - 1) + (1,)]
        explore(rec, kind, ref.expand(steps + odd, [60] * (n - 1) + [1, 1]), 6)
        data[0, np.argmax(th)] = 0
        data[n - 1, 5:7] = 1
        data[n - 2, 9] ^= 1
        explore(rec, kind, data, 6)
    elif how == "trim":
        base = ref.make_data(5, 2, 40, seed=payload[2])
        extra = np.array([[1, 1, M, 1, 1], [0, M, M, 0, 0], [M, M, M, 1, M], [M] * 5, [1, 0, M, M, M]]).T
        explore(rec, kind, np.concatenate([base, extra, base[:, :7]], axis=1), 4)
