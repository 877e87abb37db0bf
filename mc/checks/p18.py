"""Polytomous joint estimation as a transition system."""
import numpy as np
from scipy import optimize

import girth
from mc import local, ref

LEVEL = "model_checking"
RULE = ("states are the item parameters after k iterations, transitions the iterations; a menu of items x categories (up to 11) x "
        "seeds x missing answers x persons to be left out; unusual data sets (ref.unusual: more items than persons, negative and large codes, rare categories, mostly missing answers, lopsided, doubled items, persons without answers); "
        "every iteration up to a bound is replayed on the model; distinct by "
        "data and state; non-trivial when the thresholds of a state differ")
ASSUMPTIONS = ["the model starts from discriminations of 1 and thresholds spread evenly from -1 to 1",
               "an item step conforms when the item's likelihood given the model's abilities is at least that of the "
               "state before and has no better point nearby (0.001 per hundred persons, shift above 0.02)"]
M = ref.MISSING
CONFIGS = [(4, 3, 40), (5, [2, 3, 4, 2, 3], 60), (8, 4, 100), (5, [3, 2, 5, 2, 4], 90), (10, 3, 60), (6, 2, 50), (4, 3, 14)]
# many categories, persons or items: items x categories x persons
WIDE = [(4, 7, 150), (3, 11, 200), (5, [2, 11, 3, 7, 5], 180), (3, 3, 1100), (30, 2, 130)]


def cases(tier):
    out = []
    for m in ("grm", "pcm"):
        for c in range(len(CONFIGS)):
            for s in range(3 if tier == "quick" else 20):
                for miss in (0.0, 0.2):
                    out.append((f"{m}-{c}-{s}-{miss}", [m, "menu", c, s, miss]))
            out.append((f"{m}-{c}-trim", [m, "trim", c]))
        for name in ref.UNUSUAL:
            out.append((f"{m}-unusual-{name}", [m, "unusual", name]))
        for k in range(3 + len(WIDE)):
            out.append((f"{m}-shape-{k}", [m, "shape", k]))
    return out


class Model:
    def __init__(self, data, kind):
        self.make = ref.grm if kind == "grm" else ref.pcm
        self.kind = kind
        seen = data[data != M]
        lo, hi = seen.min(), seen.max()
        keep = []
        for p in data.T:
            v = p[p != M]
            keep.append(v.size > 0 and not (v == lo).all() and not (v == hi).all())
        data = data[:, keep]
        self.n, self.persons = data.shape
        self.usable = self.persons > 2 and all(np.unique(r[r != M]).size > 1 for r in data)
        if self.usable:
            self.codes, self.sizes = ref.coded(data)
            self.start = (np.ones(self.n), [np.linspace(-1, 1, s - 1) for s in self.sizes])

    def thetas(self, a, b):
        # all persons on a grid, then refined one by one
        pts = np.linspace(-6, 6, 241)
        with np.errstate(all="ignore"):
            logs = [np.log(self.make(a[i], b[i], pts)) for i in range(self.n)]
        out = []
        for p in range(self.persons):
            ll = sum(logs[i][self.codes[i, p]] for i in range(self.n) if self.codes[i, p] != M)
            j = int(np.nanargmax(ll))

            def f(t):
                t = np.array([t])
                return -sum(float(np.log(self.make(a[i], b[i], t)[self.codes[i, p], 0]))
                            for i in range(self.n) if self.codes[i, p] != M)
            lo, hi = pts[max(j - 1, 0)], pts[min(j + 1, 240)]
            r = optimize.minimize_scalar(f, bounds=(lo, hi), method="bounded", options={"xatol": 1e-8})
            out.append(min([(r.fun, r.x), (f(pts[j]), pts[j])])[1])
        out = np.array(out)
        sd = out.std(ddof=1)
        return None if sd < 0.02 else (out - out.mean()) / sd

    def item_ll(self, i, a, b, th):
        if self.kind == "grm" and (np.diff(b) < 0).any():
            return -np.inf
        row = self.codes[i]
        ok = row != M
        with np.errstate(all="ignore"):
            v = self.make(a, b, th[ok])[row[ok], np.arange(ok.sum())]
            return float(np.log(np.maximum(v, 1e-23)).sum())

    def judge(self, rec, k, before, after, info):
        th = self.thetas(*before)
        if th is None:
            rec.count("not_judged")
            return False
        rec.count("transitions")
        rec.count("traces_validated_against_impl")
        a, b = after
        tol = 0.001 * max(1.0, self.persons / 100)
        for i in range(self.n):
            m = len(b[i])
            if not rec.check(.25 - 1e-6 <= a[i] <= 4 + 1e-6 and (np.abs(b[i]) <= 6 + 1e-6).all(), "estimates within their bounds",
                             k=k, item=i, a=a[i], b=b[i], **info):
                return False
            if self.kind == "grm":
                rec.check((np.diff(b[i]) > -1e-6).all(), "graded thresholds in order", k=k, item=i, b=b[i], **info)
            x = np.concatenate(([a[i]], np.maximum.accumulate(b[i]) if self.kind == "grm" else b[i]))
            here = self.item_ll(i, x[0], x[1:], th)
            old = self.item_ll(i, before[0][i], before[1][i], th)
            rec.check(here >= old - tol, "an item step lowers the likelihood", k=k, item=i, ll=[old, here], **info)
            bad = local.better_point(lambda y: self.item_ll(i, y[0], y[1:], th), x, [.25] + [-6] * m, [4] + [6] * m, tol,
                                     shift=0.02)
            rec.check(bad is None, "item parameters are not a maximiser given the abilities", k=k, item=i,
                      parameters=x, better=bad, **info)
        return True


def call(kind, data, k=None):
    f = girth.grm_jml if kind == "grm" else girth.pcm_jml
    return f(data) if k is None else f(data, {"max_iteration": k})


def same(x, y):
    return (x[0] == y[0]).all() and all((p == q).all() for p, q in zip(x[1], y[1]))


def state_of(rec, model, got, info):
    a, b = np.asarray(got["Discrimination"]), np.asarray(got["Difficulty"])
    if not rec.check(a.shape == (model.n,) and b.shape == (model.n, model.sizes.max() - 1), "shapes of the estimates",
                     shapes=[a.shape, b.shape], **info):
        return None
    ok = True
    for i, s in enumerate(model.sizes):
        ok &= rec.check(np.isfinite(b[i, :s - 1]).all() and np.isnan(b[i, s - 1:]).all(),
                        "unused thresholds are NaN, others numbers", item=i, b=b[i], **info)
    return (a.copy(), [b[i, :s - 1].copy() for i, s in enumerate(model.sizes)]) if ok else None


def explore(rec, kind, data, most, far=False):
    model = Model(data, kind)
    if not model.usable:
        rec.count("not_judged")
        return
    info = dict(kind=kind, data=data if data.size < 200 else data.shape)
    rec.count("states")
    state, settled = model.start, False
    for k in range(1, most + 1):
        rec.count("evaluations")
        new = state_of(rec, model, call(kind, data, k), info)
        if new is None:
            return
        if settled:
            rec.check(same(new, state), "it goes on after it has settled", k=k, **info)
            return
        if k > 1 and moved > 0.01:
            rec.check(not same(new, state), "it stops while still moving", k=k, moved=moved, **info)
        if not model.judge(rec, k, state, new, info):
            return
        rec.count("states")
        moved = (max(np.abs(x - y).max() for x, y in zip(new[1], state[1])) if kind == "grm"
                 else np.abs(new[0] - state[0]).max())
        if 0.98e-3 <= moved < 1.02e-3:
            return
        settled = moved < 0.98e-3
        state = new
        if np.ptp(np.concatenate(new[1])) > 0.05:
            rec.key(kind, data if data.size < 300 else data.sum(axis=0), k, np.round(new[0], 3))
    if far:
        r = {k: state_of(rec, model, call(kind, data, k), info) for k in (24, 25, 26)}
        rec.count("evaluations", 4)
        if None in r.values():
            return
        rec.check(same(r[25], state_of(rec, model, call(kind, data), info)), "25 iterations by default")
        for x, y in ((24, 25), (25, 26)):
            if not same(r[x], r[y]):
                model.judge(rec, y, r[x], r[y], dict(kind=kind, far=True))
        rec.sample(kind=kind, discrimination_after_25=np.round(r[25][0], 3))


def run(payload, rec):
    kind, how = payload[:2]
    if how == "menu":
        _, _, c, s, miss = payload
        n, cats, persons = CONFIGS[c]
        data = ref.make_data(n, cats, persons, seed=10 * c + s, missing=miss, a=1.0, model=kind)
        explore(rec, kind, data, 6 if s == 0 else 3, far=s == 0)
    elif how == "trim":
        n, cats, persons = CONFIGS[payload[2]]
        data = ref.make_data(n, cats, persons, seed=payload[2], missing=0.05)
        top = data.max()
        low = data[data != M].min()
        cols = [np.full(n, low), np.full(n, M), np.full(n, top)]
        one = np.full(n, M)
        one[1] = low
        other = np.full(n, M)
        other[0], other[2] = low, low
        cols += [one, other]
        extra = np.array(cols).T
        if not np.isscalar(cats):       # nobody can have the top code everywhere
            extra = extra[:, [0, 1, 3, 4]]
        explore(rec, kind, np.concatenate([extra, data, extra], axis=1), 2)
    elif how == "unusual":
        for two in (False, True):
            data = ref.unusual(payload[2], kind, two)
            if data is not None:
                explore(rec, kind, data, 3)
    elif how == "shape":
        k = payload[2]
        if k == 0:      # steep
            data = ref.make_data(8, 3, 80, seed=3, a=3.0, model=kind)
        elif k == 1:    # an inverted item
            data = ref.make_data(6, 3, 100, seed=3)
            data[2] = 4 - data[2]
        elif k > 2:
            n, cats, persons = WIDE[k - 3]
            data = ref.make_data(n, cats, persons, seed=k, missing=0.1, model=kind)
        else:           # gaps and different first codes
            data = ref.make_data(5, 4, 90, seed=8)
            data[1] = np.array([0, 2, 3, 7, 11])[data[1]]
            data[2] += 5
        explore(rec, kind, data, 4 if k < 3 else 2)
