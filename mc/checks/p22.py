"""Synthetic dichotomous data."""
import itertools

import numpy as np

from girth.synthetic import create_synthetic_irt_dichotomous as create
from mc import draws, menus, ref

LEVEL = "exploration"
RULE = ("every combination of items x discriminations (one, per item, one per factor) x guessing x storage of the "
        "parameters, for a grid of abilities each met by every one of 1000 equally likely draws; every pair of rows and "
        "lag of real draws; every pair of seeds of a menu; one evaluation is one probability (item x person) or one "
        "comparison of data sets; distinct by parameters; non-trivial unless the probability is 0 or 1")
ASSUMPTIONS = ["the random generator's uniform draws are independent and uniform; they are replaced by a grid",
               "data drawn in another way than by uniform numbers is judged by its frequencies at five standard errors",
               "a multidimensional discrimination has at least two columns"]
K = 1000
TH = np.array([-40.0, -4, -2.5, -1, -0.3, 0, 0.4, 1, 2, 3.3, 5, 40])


def cases(tier):
    out = [("seeds", ["seeds"])]
    for n in range(1, 7 if tier == "quick" else 13):
        for name, _, _ in menus.dich_params(n):
            out.append((f"one-{n}-{name}", ["one", n, name]))
        for f in (2, 3, 4):
            out.append((f"many-{n}-{f}", ["many", n, f]))
        out.append((f"types-{n}", ["types", n]))
        out.append((f"cells-{n}", ["cells", n]))
    for n, persons in ((3, 100003), (70, 5000), (300, 700), (1000, 65)):
        for md in (False, True):
            out.append((f"huge-{n}-{persons}-{md}", ["huge", n, persons, md]))
    return out


def guessings(n):
    yield "none", None
    for g in (0, 0.0, 0.2, np.float64(0.25), np.array([0.15]), 1.0):
        yield repr(g), g
    if n > 1:
        yield "items", np.linspace(0, 0.5, n)
        yield "one of them", np.where(np.arange(n) == n - 1, 0.3, 0.0)


def judge(rec, b, a, th, g, want, tag):
    kept = [np.array(x, copy=True) for x in (b, a, th, 0 if g is None else g)]
    extra = {} if g is None else {"guessing": g}
    for turn in (0, 3):
        data, controlled = draws.law(lambda t: create(b, a, t, seed=7, **extra), th, K, turn)
        rec.count("evaluations", data.shape[0] * data.shape[1])
        rec.count("controlled", controlled)
        if not rec.check(data.shape[:2] == want.shape and np.isin(data, (0, 1)).all(), "not a matrix of zeros and ones",
                         difficulty=b, discrimination=a, guessing=g):
            return
        freq = data.mean(axis=2)
        slack = 1.01 / K if controlled else 5 * np.sqrt(want * (1 - want) / K) + 1 / K
        bad = np.argwhere(np.abs(freq - want) > slack)
        rec.check(not len(bad), "a probability differs from the model's", difficulty=b, discrimination=a, guessing=g,
                  cell=bad[:1], theta=th[..., bad[0][1]] if len(bad) else None,
                  got=freq[tuple(bad[0])] if len(bad) else None, want=want[tuple(bad[0])] if len(bad) else None)
    now = [np.asarray(x) for x in (b, a, th, 0 if g is None else g)]
    rec.check(all(np.array_equal(x, y) for x, y in zip(kept, now)), "parameters are modified", difficulty=b,
              discrimination=a, guessing=g)
    rec.key(tag, b, a, repr(g))


def logistic(z, g):
    p = 1 / (1 + np.exp(-np.clip(z, -700, 700)))
    g = np.broadcast_to(np.ravel(0 if g is None else g), (len(p),))[:, None]
    return g + (1 - g) * p


def repeated(rec, x, bits=1):
    """Equal stretches of 64 bits of answers, along the persons or along the items."""
    size = 64 // bits
    for way, y in (("persons", x), ("items", x.T)):
        if y.shape[1] < size:
            continue
        y, width = y.astype(np.uint64), y.shape[1] - size + 1
        word = np.zeros((len(y), width), dtype=np.uint64)
        for k in range(size):
            word = (word << np.uint64(bits)) | y[:, k:k + width]
        rec.check(np.unique(word).size == word.size, "cells share draws", along=way, shape=x.shape,
                  repeated=int(word.size - np.unique(word).size))


def run(payload, rec):
    kind = payload[0]
    if kind == "one":
        _, n, name = payload
        _, b, a = next(m for m in menus.dich_params(n) if m[0] == name)
        for form in ("items", 1.0, 1, 0.7, np.array([1.3]), np.float64(2.0), -0.5):
            use = a if isinstance(form, str) else form
            full = np.broadcast_to(np.ravel(use), (n,)).astype(float)
            for label, g in guessings(n):
                want = logistic(full[:, None] * (TH[None] - b[:, None]), g)
                judge(rec, b, use, TH, g, want, (name, label))
        rec.sample(difficulty=b, discrimination=a, abilities=TH)
    elif kind == "many":
        _, n, f = payload
        rng = np.random.default_rng([22, n, f])
        th = np.array(list(itertools.product((-1.5, 0.0, 0.8), repeat=f))).T
        if th.shape[1] > 27:
            th = th[:, ::3]
        A = 1.2 * rng.standard_normal((n, f))
        A[0, -1] = 0
        d = np.linspace(-1, 1.2, n)
        for label, g in guessings(n):
            judge(rec, d, A, th, g, logistic(A @ th + d[:, None], g), ("md", f, label))
    elif kind == "types":
        _, n = payload
        whole = np.arange(n) - n // 2
        for db, da, dt in itertools.product(("float64", "int64", "float32", "int8"), repeat=3):
            b, a, th = whole.astype(db), (1 + np.arange(n) % 3).astype(da), np.array([-2, -1, 0, 1, 3]).astype(dt)
            want = logistic(a[:, None].astype(float) * (th.astype(float)[None] - b.astype(float)[:, None]), 0.25)
            judge(rec, b, a, th, 0.25, want, (db, da, dt))
            if n > 1:
                judge(rec, b, a, th, np.zeros(n, dtype=int), logistic(
                    a[:, None].astype(float) * (th.astype(float)[None] - b.astype(float)[:, None]), 0), (db, da, dt, "int"))
            A = np.array([[(i + j) % 3 - 1 for j in range(2)] for i in range(n)]).astype(da)
            t2 = np.array([[-1, 0, 2, 1], [1, 1, 0, -2]]).astype(dt)
            judge(rec, b, A, t2, 0.25, logistic(A.astype(float) @ t2 + b.astype(float)[:, None], 0.25), (db, da, dt, "md"))
    elif kind == "huge":
        # no stretch of draws is used twice in a large data set
        n, persons, md = payload[1:]
        args = (np.zeros(n), np.zeros((n, 2)) + 0.1, np.zeros((2, persons))) if md else (np.zeros(n), 1.0, np.zeros(persons))
        x = create(*args, seed=6)
        rec.count("evaluations", x.size)
        rec.check(x.shape == (n, persons) and abs(x.mean() - 0.5) < 3 / np.sqrt(x.size), "frequency of right answers", got=x.mean())
        repeated(rec, x)
        rec.key("huge", n, persons, md)
    elif kind == "cells":
        _, n = payload
        persons = 4000
        for g, md in ((0, False), (0.5, False), (0, True)):
            if md:
                args = (np.zeros(n), np.zeros((n, 2)) + 0.1, np.zeros((2, persons)))
            elif g:
                args = (np.full(n, 40.0), 1.0, np.zeros(persons), g)
            else:
                args = (np.zeros(n), 1.0, np.zeros(persons))
            x = 2 * create(*args, seed=5) - 1
            limit = 6 / np.sqrt(persons)
            info = dict(size=n, guessing=g, multidimensional=md)
            for i in range(n):
                rec.count("evaluations", 100)
                rec.check(abs(x[i].mean()) < limit, "an item's frequency is off", item=i, got=x[i].mean(), **info)
                for lag in range(1, 100):
                    r = float((x[i, lag:] * x[i, :-lag]).mean())
                    rec.check(abs(r) < limit * 1.1, "cells share draws along the persons", item=i, lag=lag, r=r, **info)
                for j in range(i):
                    for lag in range(-20, 21):
                        r = float((np.roll(x[i], lag) * x[j]).mean())
                        rec.check(abs(r) < limit, "two items share draws", items=[i, j], lag=lag, r=r, **info)
            rec.key("cells", n, g, md)
    else:
        b, th = np.linspace(-1, 1, 5), ref.quantiles(60)
        for a in (1.0, np.full(5, 1.2), np.ones((5, 2))):
            t = np.vstack([th, th[::-1]]) if np.ndim(a) == 2 else th
            make = lambda s, g=0.1: create(b, a, t, g, s)
            seen = []
            for s in (0, 1, 2, 7, 2 ** 32, np.int64(11)):
                rec.count("evaluations", 2)
                x = make(s)
                rec.check(np.array_equal(x, make(s)), "the same seed gives other data", seed=s)
                rec.check(np.array_equal(x, create(b, a, t, guessing=0.1, seed=s)), "by position or by name", seed=s)
                rec.check(not any(np.array_equal(x, y) for y in seen), "two seeds give the same data", seed=s)
                rec.check(x.dtype.kind in "iu" and x.shape == (5, 60), "shape or type", dtype=x.dtype, shape=x.shape)
                seen.append(x)
                rec.key("seed", s, np.ndim(a))
            rec.count("evaluations", 2)
            rec.check(not np.array_equal(create(b, a, t), create(b, a, t)), "no seed gives the same data twice")
