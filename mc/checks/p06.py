"""MAP / MLE scoring of dichotomous items: maximiser of the posterior or
likelihood on the search interval, and the no-estimate convention."""
import itertools

import numpy as np

import girth
from mc import menus, ref

LEVEL = "exploration"
RULE = ("every response pattern over {0,1,missing} for 1-4 items under every parameter set, prior "
        "and no-estimate value of the menu, a grid of item parameters for 2 items, long tests, large batches, extreme parameters, call histories "
        "whose parameters, answers or prior change by very little, and "
        "every single person / ordered pair as a batch of its own; distinct by pattern, parameters "
        "and prior; non-trivial when at least one answer is present")
ASSUMPTIONS = ["the maximiser is located on a grid of step 0.01 over [-6,6]; where the log posterior "
               "has several separated maxima any local one is accepted"]
GRID = np.linspace(-6, 6, 1201)
M = ref.MISSING


def cases(tier):
    out = []
    for n in (1, 2, 3, 4) + ((5,) if tier == "thorough" else ()):
        for p in range(5):
            for prior in ("std", "shift", "skew", "t5", "mle") + (tuple(menus.LIMITED) if n in (2, 3) else ()):
                out.append((f"all-{n}-{p}-{prior}", ["all", n, p, prior]))
    for chunk in range(9):
        out.append((f"grid-{chunk}", ["grid", chunk]))
    for n in (12, 40, 120):
        for prior in ("std", "mle"):
            out.append((f"long-{n}-{prior}", ["long", n, prior]))
    for persons in (257, 1025) + ((4099,) if tier == "thorough" else ()):
        out.append((f"many-{persons}", ["many", persons]))
    for n in (1, 2, 3):
        out.append((f"scalar-{n}", ["scalar", n]))
        out.append((f"batch-{n}", ["batch", n]))
        out.append((f"near-{n}", ["near", n]))
        for prior in ("std", "t5", "mle"):
            out.append((f"extreme-{n}-{prior}", ["extreme", n, prior]))
    return out


def loglik(col, b, a, c, th):
    out = np.zeros_like(th)
    for i, v in enumerate(col):
        if v != M:
            with np.errstate(all="ignore"):
                out += np.log(ref.p2_stable(a[i], b[i], th, c[i])[v])
    return out


def judge(rec, name, data, got, b, a, c, prior, tag, tol=2e-5):
    """Every ability maximises the log posterior on [-6, 6]."""
    rec.count("evaluations", data.shape[1])
    if not rec.check(got.shape == (data.shape[1],), f"{name}: one ability per person", shape=got.shape):
        return
    with np.errstate(all="ignore"):
        lp_grid = 0 if prior is None else np.log(prior(GRID))
    cache = {}
    for k in range(data.shape[1]):
        col = tuple(data[:, k])
        if col not in cache:
            cache[col] = loglik(col, b, a, c, GRID) + lp_grid
        f = cache[col]
        x = got[k]
        if not (np.isfinite(x) and -6.0001 <= x <= 6.0001):
            rec.fail(f"{name}: ability outside the search interval", pattern=col, got=x)
            continue
        if all(v == M for v in col) and prior is None:
            continue
        fx = loglik(col, b, a, c, np.array([x]))[0]
        if prior is not None:
            fx += float(np.log(prior(x)))
        # local maximum: not worse than its surroundings
        near = np.abs(GRID - x) <= 0.25
        gap_local = f[near].max() - fx
        # unimodal posterior: not worse than anything
        ext = np.concatenate([[-np.inf], np.where(np.isfinite(f), f, -np.inf), [-np.inf]])
        peaks = np.count_nonzero((ext[1:-1] >= ext[:-2]) & (ext[1:-1] > ext[2:]))
        gap = f.max() - fx if peaks <= 1 else gap_local
        if not (gap <= tol and gap_local <= tol):
            rec.fail(f"{name}: not the maximiser", pattern=col, got=x, gap=gap, best=GRID[np.argmax(f)],
                     difficulty=b, discrimination=a, guessing=c)
        if any(v != M for v in col):
            rec.key(tag, name, col[:8], round(float(x), 4))


def mle(rec, data, b, a, c, tag, disc=None, tol=2e-5):
    has0, has1 = (data == 0).any(axis=0), (data == 1).any(axis=0)
    both = has0 & has1
    disc = a if disc is None else disc
    for x in (None, 3.5, -2.0, np.nan, np.inf):
        kw = {} if x is None else {"no_estimate": x}
        runs = [("2pl mle", girth.ability_mle(data, b, disc, **kw), 0 * b)]
        if c is not None:
            runs.append(("3pl mle", girth.ability_3pl_mle(data, b, a, c, **kw), c))
        for name, got, cc in runs:
            if not rec.check(got.shape == (data.shape[1],), f"{name}: one ability per person"):
                continue
            mag = np.nan if x is None else abs(x)
            for mask, want, what in ((has0 & ~has1, -mag, "all wrong"), (has1 & ~has0, mag, "all right")):
                sub = got[mask]
                ok = np.isnan(sub).all() if np.isnan(want) else (sub == want).all()
                rec.count("evaluations", sub.size)
                rec.check(ok, f"{name}: no-estimate value for {what}", no_estimate=x, got=sub[:5])
            none = got[~has0 & ~has1]
            if np.isnan(mag):
                rec.check(np.isnan(none).all(), f"{name}: a person without answers has no estimate", got=none)
            else:
                rec.check((np.isnan(none) | (np.abs(none) == mag)).all(),
                          f"{name}: a person without answers has no estimate", got=none)
            if x is None or x == 3.5:
                judge(rec, name, data[:, both], got[both], b, a, cc, None, tag, tol)


def run(payload, rec):
    kind = payload[0]
    if kind == "all":
        _, n, p, prior = payload
        _, b, a = menus.dich_params(n)[p]
        c = np.full(n, 0.15) + 0.1 * np.sin(np.arange(n))
        data = np.array(ref.all_patterns(n, (0, 1, M))).T
        one(rec, data, b, a, c, prior, (n, p, prior))
    elif kind == "grid":
        values = list(itertools.product((-2.0, -0.3, 1.1), (0.4, 1.0, 2.5)))
        data = np.array(ref.all_patterns(2, (0, 1, M))).T
        b0, a0 = values[payload[1]]
        for b1, a1 in values:
            for prior in ("std", "mle"):
                one(rec, data, np.array([b0, b1]), np.array([a0, a1]), np.array([0.05, 0.3]), prior,
                    (payload[1], b1, a1, prior))
    elif kind == "long":
        _, n, prior = payload
        k = np.arange(n)
        b, a = 2 * np.sin(1.3 * k), 0.8 + 0.4 * np.cos(2.2 * k)
        data = ref.make_data(n, 2, 24, seed=3, missing=0.1)
        extra = np.array([np.zeros(n), np.ones(n), k % 2, (k % 3 == 0)]).T.astype(int)
        data = np.concatenate([data, extra], axis=1)
        one(rec, data, b, a, np.full(n, 0.1), prior, (n, prior))
    elif kind == "scalar":
        n = payload[1]
        b = np.linspace(-1, 1.4, n)
        data = np.array(ref.all_patterns(n, (0, 1, M))).T
        for s in (0.7, 2.0, 1):
            a = np.full(n, float(s))
            got = girth.ability_map(data, b, s)
            judge(rec, "2pl map", data, got, b, a, 0 * b, menus.DISTS["std"], (n, s))
            for g in (0.0, 0.25, np.array([0.25])):
                c = np.full(n, float(np.ravel(g)[0]))
                judge(rec, "3pl map", data, girth.ability_3pl_map(data, b, s, g), b, a, c, menus.DISTS["std"], (n, s))
                both = (data == 0).any(axis=0) & (data == 1).any(axis=0)
                judge(rec, "3pl mle", data[:, both], girth.ability_3pl_mle(data, b, s, g)[both], b, a, c, None, (n, s))
            mle(rec, data, b, a, None, (n, s), disc=s)
            whole = np.arange(n) - n // 2                   # difficulties that are whole numbers, and stored so
            judge(rec, "2pl map", data, girth.ability_map(data, whole, s), whole, a, 0.0 * b, menus.DISTS["std"], (n, s, "whole"))
            judge(rec, "3pl map", data, girth.ability_3pl_map(data, whole, s, 0.25), whole, a, 0 * b + 0.25, menus.DISTS["std"],
                  (n, s, "whole"))
            judge(rec, "3pl mle", data[:, both], girth.ability_3pl_mle(data, whole, s, 0.25)[both], whole, a, 0 * b + 0.25, None,
                  (n, s, "whole"))
            mle(rec, data, whole, a, None, (n, s, "whole"), disc=s)
    elif kind == "many":
        few = ref.make_data(5, 2, 37, seed=8, missing=0.15)
        index = (np.arange(payload[1]) * 5) % 37
        k = np.arange(5)
        b, a, c = 1.5 * np.sin(1.3 * k), 0.8 + 0.4 * np.cos(2.2 * k), np.full(5, 0.1)
        for name, f in (("2pl map", lambda d: girth.ability_map(d, b, a)), ("3pl map", lambda d: girth.ability_3pl_map(d, b, a, c)),
                        ("2pl mle", lambda d: girth.ability_mle(d, b, a, no_estimate=4.0)),
                        ("3pl mle", lambda d: girth.ability_3pl_mle(d, b, a, c, no_estimate=4.0))):
            alone, got = f(few), f(few[:, index])
            rec.count("evaluations", index.size)
            rec.check(got.shape == index.shape and np.abs(got - alone[index]).max() < 1e-6,
                      f"{name}: an ability depends on how many are scored", persons=payload[1])
            rec.key(payload, name)
            if name == "2pl map":
                judge(rec, name, few, alone, b, a, 0 * b, menus.DISTS["std"], tuple(payload))
    elif kind == "extreme":
        data = np.array(ref.all_patterns(payload[1], (0, 1, M))).T
        for k, (b, a, c) in enumerate(menus.extremes(payload[1])):
            one(rec, data, b, a, c, payload[2], (tuple(payload), k), tol=3e-4)   # steep where the interval ends
    elif kind == "near":
        near(rec, payload[1])
    elif kind == "batch":
        batch(rec, payload[1])


def near(rec, n):
    """One after the other: parameters, priors and data that differ by very little."""
    _, b, a = menus.dich_params(n)[1]
    data = np.array(ref.all_patterns(n, (0, 1, M))).T
    both = (data == 0).any(axis=0) & (data == 1).any(axis=0)
    std = menus.DISTS["std"]
    for k, (x, y, z) in enumerate(menus.nearby(b, a, np.full(n, 0.2))):
        one(rec, data, x, y, z, "std", ("near", n, k))
        if n > 1:
            judge(rec, "2pl mle", data[:, both], girth.ability_mle(data, x, y)[both], x, y, 0 * z, None, ("near", n, k))
            judge(rec, "3pl mle", data[:, both], girth.ability_3pl_mle(data, x, y, z)[both], x, y, z, None, ("near", n, k))
    for k, by in enumerate((0, 0.02, 0.03, -0.04, 0)):
        def pdf(value, by=by):
            return std(value - by)
        opt = {"distribution": pdf}
        judge(rec, "2pl map", data, girth.ability_map(data, b, a, opt), b, a, 0 * b, pdf, ("near", n, by, k))
        judge(rec, "3pl map", data, girth.ability_3pl_map(data, b, a, 0 * b + 0.2, opt), b, a, 0 * b + 0.2, pdf, ("near", n, by, k))
    for j in range(n):
        for p in range(0, data.shape[1], 3):
            other = data.copy()
            other[j, p] = 1 - other[j, p] if other[j, p] != M else 1
            one(rec, other, b, a, np.full(n, 0.2), "std", ("near", n, "data", j, p))


def one(rec, data, b, a, c, prior, tag, tol=2e-5):
    if prior == "mle":
        mle(rec, data, b, a, c, tag, tol=tol)
        return
    opt = menus.options(prior)
    pdf = menus.DISTS.get(prior)
    if pdf is None:                        # the maximum may be where the prior ends
        pdf, tol = menus.LIMITED[prior], 5e-4
    judge(rec, "2pl map", data, girth.ability_map(data, b, a, opt), b, a, 0 * b, pdf, tag, tol)
    judge(rec, "3pl map", data, girth.ability_3pl_map(data, b, a, c, opt), b, a, c, pdf, tag, tol)
    rec.sample(pattern=data[:, -1][:8], difficulty=b[:8])


def batch(rec, n):
    _, b, a = menus.dich_params(n)[1]
    c = np.full(n, 0.2)
    data = np.array(ref.all_patterns(n, (0, 1, M))).T
    for name, f in (("2pl map", lambda d: girth.ability_map(d, b, a)),
                    ("3pl map", lambda d: girth.ability_3pl_map(d, b, a, c)),
                    ("2pl mle", lambda d: girth.ability_mle(d, b, a, no_estimate=4.0)),
                    ("3pl mle", lambda d: girth.ability_3pl_mle(d, b, a, c, no_estimate=4.0))):
        whole = f(data)
        subsets = [[k] for k in range(data.shape[1])]
        m = data.shape[1]
        subsets += ([list(x) for x in itertools.product(range(m), repeat=2)] if n < 3 else
                    [[k, j] for k in range(m) for j in sorted({k, (k + 1) % m, (2 * k + 5) % m, 0, m - 1})])
        subsets.append(list(range(data.shape[1]))[::-1])
        for s in subsets:
            got = f(data[:, s])
            rec.count("evaluations", len(s))
            ok = got.shape == (len(s),) and (np.abs(got - whole[s]) < 1e-6).all()
            rec.check(ok, f"{name}: an ability depends on who else is scored", persons=s, got=got,
                      whole=whole[s])
            rec.key(name, s)
