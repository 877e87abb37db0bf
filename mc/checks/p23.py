"""Synthetic polytomous data."""
import itertools

import numpy as np

from girth.synthetic import create_synthetic_irt_polytomous as create
from mc import draws, ref
from mc.checks import p22

LEVEL = "exploration"
RULE = ("every combination of model x items x categories x thresholds x discriminations x storage, for a grid of abilities "
        "each met by every one of 400 equally likely draws; every order of up to five thresholds and every sign pattern "
        "of their deviations; every pair of rows and lag of real draws; one evaluation is one probability (item x person x "
        "category), one rejection or one comparison; distinct by parameters; non-trivial with two probable categories")
ASSUMPTIONS = ["the random generator's uniform draws are independent and uniform; they are replaced by a grid",
               "data drawn in another way than by uniform numbers is judged by its frequencies at five standard errors",
               "a multidimensional discrimination has at least two columns and descending intercepts"]
K = 400
TH = np.array([-6.0, -2.5, -1, -0.3, 0, 0.4, 1, 2, 3.3, 6])


def cases(tier):
    top = 5 if tier == "quick" else 8
    out = [("seeds", ["seeds"]), ("reject", ["reject"])]
    for model in ("grm", "pcm", "gum", "grm_md", "GRM", "Pcm"):
        for n in range(1, top) if model.islower() else (2,):
            for k in range(2, top + 2):
                out.append((f"law-{model}-{n}-{k}", ["law", model, n, k]))
        out.append((f"cells-{model}", ["cells", model]))
        if model.islower():
            for n, persons in ((3, 50001), (70, 3000), (300, 400)):
                out.append((f"huge-{model}-{n}-{persons}", ["huge", model, n, persons]))
    for model in ("grm", "pcm", "gum"):
        out.append((f"steep-{model}", ["steep", model]))
    return out


def thresholds(model, n, k, which):
    """items x thresholds (k of them; 2k+1 for unfolding) and the reference's
    probabilities of an item for discrimination a at abilities th."""
    i = np.arange(n)[:, None]
    base = np.linspace(-1.5, 1.2, k)[None]
    if which == "uneven":
        base = np.cumsum(0.2 + 0.5 * np.abs(np.sin(1.3 * np.arange(k)[None] + i)), axis=1) - 1.4
    if which == "close":
        base = 0.05 * np.arange(k)[None] + 0 * i
    if which == "integer":
        base = (np.arange(k)[None] - k // 2 + i % 2).astype(int)
    loc = (0.7 * np.sin(2.1 * i) if which != "integer" else i % 3 - 1)
    if model == "gum":
        tau = -np.abs(base) - (0.3 if which != "integer" else 0)
        mid = np.zeros((n, 1), dtype=tau.dtype)
        tau = tau + 0 * i
        return np.hstack([tau, mid, -tau[:, ::-1]]) + loc, tau + 0 * i, np.ravel(loc)
    if model == "pcm" and which != "integer":
        base = base[:, ::-1] if which == "close" else base + 0.8 * np.cos(2 * np.arange(k)[None] + i)
    if model == "grm_md":
        return -(base + loc), None, None
    return base + loc, None, None


def want_of(model, b, a, th, tau, loc):
    return {"grm": lambda: ref.grm(a, b, th), "pcm": lambda: ref.pcm(a, b, th),
            "gum": lambda: ref.gum(a, loc, tau, th), "grm_md": lambda: ref.grm_md(a, b, th)}[model]()


def run(payload, rec):
    kind = payload[0]
    if kind == "law":
        _, model, n, k = payload
        key = model.lower()
        for which in ("even", "uneven", "close", "integer"):
            b, tau, loc = thresholds(key, n, k, which)
            th = TH
            if key == "grm_md":
                forms = [np.array([[np.cos(i + 2 * j) for j in range(f)] for i in range(n)]) for f in (2, 3)]
                forms.append(np.array([[(i + j) % 3 - 1 for j in range(2)] for i in range(n)]))
            else:
                forms = [1.0, 1, 0.6, np.array([1.4]), 0.5 + 0.4 * (np.arange(n) % 4), 1 + np.arange(n) % 2]
            for a in forms:
                if key == "grm_md":
                    th = np.array(list(itertools.product((-1.5, 0.0, 0.8), repeat=np.shape(a)[1]))).T[:, ::2]
                for dt in (("float64",) if which != "integer" else ("int64", "int8", "float32")):
                    t = th if dt == "float64" and which != "integer" else np.round(th).astype(dt)
                    kept = [np.array(x, copy=True) for x in (b, a, t)]
                    full = np.asarray(a) if key == "grm_md" else np.broadcast_to(np.ravel(a), (n,))
                    want = np.array([want_of(key, b[i].astype(float), full[i].astype(float), t.astype(float),
                                             None if tau is None else tau[i].astype(float), None if loc is None else loc[i])
                                     for i in range(n)])                      # items x categories x persons
                    info = dict(model=model, difficulty=b, discrimination=a, storage=dt)
                    for turn in ((0, 3) if which == "uneven" else (0,)):
                        data, controlled = draws.law(lambda x: create(b, a, x, model=model, seed=3), t, K, turn)
                        rec.count("controlled", controlled)
                        rec.count("evaluations", want.size)
                        if not rec.check(data.shape[:2] == (n, t.shape[-1]) and data.min() >= 1 and
                                         data.max() <= k + 1 and data.dtype.kind in "iu",
                                         "answers outside 1 to the number of categories", lowest=data.min(),
                                         highest=data.max(), **info):
                            break
                        freq = np.array([(data == v).mean(axis=2) for v in range(1, k + 2)]).transpose(1, 0, 2)
                        slack = 1.01 / K if controlled else 5 * np.sqrt(want * (1 - want) / K) + 1 / K
                        bad = np.argwhere(np.abs(freq - want) > slack)
                        rec.check(not len(bad), "a probability differs from the model's", cell=bad[:1],
                                  got=freq[tuple(bad[0])] if len(bad) else None,
                                  want=want[tuple(bad[0])] if len(bad) else None, **info)
                    rec.check(all(np.array_equal(x, y) for x, y in zip(kept, (b, a, t))), "parameters are modified", **info)
                    rec.key(key, b, np.asarray(a), dt)
            if n == 1 and key != "grm_md":
                flat, _ = draws.law(lambda x: create(b[0], 1.2, x, model=model, seed=3), t, K)
                deep, _ = draws.law(lambda x: create(b, 1.2, x, model=model, seed=3), t, K)
                rec.check(np.array_equal(flat, deep), "one item given as a row", **info)
    elif kind == "steep":
        # answers that are as good as certain, the exponents beyond the range of the exponential
        model = payload[1]
        th = np.array([-8.0, -3.1, -0.5, 0.3, 0.9, 4.2, 9.0])
        for a in itertools.product((1.0, 40.0, 300.0, 2000.0), repeat=2):
            for k in (2, 3, 12):
                base = np.linspace(-1, 1.2, k)
                b = np.tile(base if model != "gum" else np.concatenate([base - 2.4, [0], 2.4 - base[::-1]]), (3, 1))
                full = np.array([1.0, *a])
                data, controlled = draws.law(lambda x: create(b, full, x, model=model, seed=3), th, K)
                want = np.array([want_of(model, b[i], full[i], th, b[i, :k], 0.0) for i in range(3)])
                rec.count("evaluations", want.size)
                freq = np.array([(data == v).mean(axis=2) for v in range(1, k + 2)]).transpose(1, 0, 2)
                slack = 1.01 / K if controlled else 5 * np.sqrt(want * (1 - want) / K) + 1 / K
                bad = np.argwhere(~(np.abs(freq - want) <= slack))
                rec.check(not len(bad), "a probability differs from the model's", cell=bad[:1], model=model,
                          got=freq[tuple(bad[0])] if len(bad) else None, want=want[tuple(bad[0])] if len(bad) else None,
                          discrimination=full, thresholds=k)
                rec.key("steep", model, a, k)
    elif kind == "reject":
        def rejected(model, b, what, bad=True):
            rec.count("evaluations")
            th = np.zeros((2, 3)) if model == "grm_md" else np.zeros(3)
            a = np.ones((len(b), 2)) if model == "grm_md" else 1.0
            try:
                create(np.array(b, dtype=float), a, th, model=model, seed=1)
                rec.check(not bad, what, model=model, difficulty=b)
            except (AssertionError, ValueError) as e:
                rec.check(bad, "legal thresholds are rejected", model=model, difficulty=b, error=repr(e))
            rec.key(model, b)
        for model in ("grm", "pcm", "gum", "grm_md"):
            for v in (-1.0, 0.0, 2.0):
                rejected(model, [[v]], "a single threshold is accepted")
                rejected(model, [[v], [v + 1]], "a single threshold is accepted")
        for k in (2, 3, 4, 5):
            for order in itertools.permutations(range(k)):
                good = order == tuple(range(k))
                rejected("grm", [np.array(order) - 1.0], "thresholds out of order are accepted", not good)
                rejected("grm", [np.arange(k), np.array(order) - 1.0], "thresholds out of order are accepted", not good)
                rejected("pcm", [np.array(order) - 1.0], "", False)
            for j in range(k - 1):
                b = np.arange(k, dtype=float)
                b[j + 1] = b[j]
                rejected("grm", [b], "equal thresholds are accepted")
        for k in (2, 4, 6):
            rejected("gum", [np.linspace(-1, 1, k)], "an even number of thresholds is accepted")
        # every assignment of deviations from a menu: symmetric ones and no others
        for k in (1, 2):
            for loc in (0.0, 0.7):
                for dev in itertools.product((-2.0, -1.0, -0.5, 0.5, 1.0, 1.5), repeat=2 * k):
                    b = np.concatenate([dev[:k], [0.0], dev[k:]]) + loc
                    odd = np.abs(np.array(dev) + np.array(dev)[::-1]).max() > 1e-3
                    rejected("gum", [b], "thresholds that are not symmetric are accepted", odd)
        for eps in (1e-2, 1e-3):
            for j in (0, 1, 3, 4):
                b = np.array([-1.5, -0.5, 0, 0.5, 1.5])
                b[j] += eps
                rejected("gum", [[-1, -.4, 0, .4, 1], b], "thresholds that are not symmetric are accepted")
        for model in ("2pl", "", "grm md", "gpcm"):
            rec.count("evaluations")
            try:
                create(np.array([[0.0, 1.0]]), 1.0, np.zeros(3), model=model)
                rec.fail("an unknown model is accepted", model=model)
            except (KeyError, AssertionError, ValueError):
                pass
    elif kind == "huge":
        # no stretch of draws is used twice in a large data set
        model, n, persons = payload[1:]
        b = np.tile([-1.0, 0.0, 1.0] if model == "gum" else [0.7, 0, -0.7] if model == "grm_md" else [-0.7, 0, 0.7], (n, 1))
        a, th = (np.ones((n, 2)), np.zeros((2, persons))) if model == "grm_md" else (1.0, np.zeros(persons))
        x = create(b, a, th, model=model, seed=6)
        rec.count("evaluations", x.size)
        rec.check(x.shape == (n, persons) and x.min() >= 1 and x.max() <= 4, "shape or range", model=model)
        p22.repeated(rec, x - 1, 1 if model == "gum" else 2)
        rec.key("huge", model, n, persons)
    elif kind == "cells":
        model = payload[1]
        key, persons, n, k = model.lower(), 3000, 4, 3
        b = {"gum": np.tile([-1.0, 0, 1.0], (n, 1)), "grm_md": np.tile([1.1, 0, -1.1], (n, 1))}.get(
            key, np.tile([-1.1, 0, 1.1], (n, 1)))
        a, th = (np.ones((n, 2)), np.zeros((2, persons))) if key == "grm_md" else (1.0, np.zeros(persons))
        x = create(b, a, th, model=model, seed=4).astype(float)
        x = (x - x.mean(axis=1, keepdims=True)) / x.std(axis=1, keepdims=True)
        limit = 6 / np.sqrt(persons)
        for i in range(n):
            for lag in range(1, 100):
                rec.count("evaluations")
                r = float((x[i, lag:] * x[i, :-lag]).mean())
                rec.check(abs(r) < limit, "cells share draws along the persons", model=model, item=i, lag=lag, r=r)
            for j in range(i):
                for lag in range(-20, 21):
                    rec.count("evaluations")
                    r = float((np.roll(x[i], lag) * x[j]).mean())
                    rec.check(abs(r) < limit, "two items share draws", model=model, items=[i, j], lag=lag, r=r)
        rec.key("cells", model)
    else:
        th = ref.quantiles(60)
        for model in ("grm", "pcm", "gum", "grm_md"):
            b = np.tile([-1.0, 0, 1.0] if model != "grm_md" else [1.0, 0, -1.0], (5, 1)) + 0.1 * np.arange(5)[:, None]
            a, t = (np.ones((5, 2)), np.vstack([th, th[::-1]])) if model == "grm_md" else (1.0, th)
            seen = []
            for s in (0, 1, 2, 7, 2 ** 32, np.int64(11)):
                rec.count("evaluations", 2)
                x = create(b, a, t, model=model, seed=s)
                rec.check(np.array_equal(x, create(b, a, t, model, s)), "the same seed gives other data", seed=s, model=model)
                rec.check(not any(np.array_equal(x, y) for y in seen), "two seeds give the same data", seed=s, model=model)
                seen.append(x)
                rec.key("seed", s, model)
            rec.check(not np.array_equal(create(b, a, t, model), create(b, a, t, model)), "no seed gives the same data twice",
                      model=model)
            if model == "grm":
                rec.check(np.array_equal(create(b, a, t, seed=3), create(b, a, t, "grm", 3)), "the default model")
