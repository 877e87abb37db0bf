"""Multidimensional marginal estimation and its initial guess."""
import itertools

import numpy as np

import girth
from girth.common import polychoric_correlation_serial
from girth.factoranalysis import maximum_likelihood_factor_analysis
from girth.multidimensional import (initial_guess_md, multidimensional_grm_mml,
                                    multidimensional_twopl_mml)
from mc import local, menus, mml, ref

LEVEL = "exploration"
RULE = ("a menu of items x categories x factors x seeds x missing answers x quadrature and distribution options x table "
        "use x initial guess, every iteration bound up to 4; fewer persons than the correlations of the items bear; unusual data sets (ref.unusual: more items than persons, negative and large codes, rare categories, mostly missing answers, lopsided, doubled items, persons without answers); "
        "one "
        "evaluation is one estimation; distinct by data and "
        "options; non-trivial when an item loads on two factors")
ASSUMPTIONS = ["an item counts as optimal when neither steps of 0.1/0.25 nor an ascent in its free loadings, thresholds "
               "following, gains 0.03 per hundred persons with a shift above 0.1",
               "optimality is judged for the last item of any run and for all items once converged",
               "guesses are compared with the package's own correlations and factoring (P26, P28)"]
M = ref.MISSING
CONFIGS = [(5, 2, 80, 2), (4, 3, 60, 2), (5, [2, 3, 4, 2, 3], 100, 2), (6, 2, 120, 3), (5, 3, 90, 3), (8, 2, 150, 2)]

# few persons for the number of items: pairwise correlations that contradict each other
FEW = [(8, 2, 30, 2), (12, 2, 40, 2), (10, [2, 3, 4, 2, 3, 3, 2, 4, 3, 2], 45, 2), (9, 2, 40, 3)]


def cases(tier):
    out = [("reject", ["reject"])]
    for c in range(len(CONFIGS)):
        for q in ("default", "few", "skew", "shift", "odd"):
            for lut in (True, False):
                if tier == "quick" and q in ("shift", "odd") and not lut:
                    continue
                out.append((f"menu-{c}-{q}-{lut}", ["menu", c, q, lut]))
        for guess in (True, False):
            out.append((f"iter-{c}-{guess}", ["iter", c, guess]))
            for s in range(2 if tier == "quick" else 12):
                out.append((f"seeds-{c}-{guess}-{s}", ["seeds", c, guess, s]))
        for k in range(2 if tier == "quick" else 10):
            out.append((f"guess-{c}-{k}", ["guess", c, k]))
    for guess in (True, False):
        out.append((f"long-{guess}", ["long", guess]))
    for name in ref.UNUSUAL:
        for guess in (True, False):
            out.append((f"unusual-{name}-{guess}", ["unusual", name, guess]))
    for c in range(len(FEW)):
        for s in range(2 if tier == "quick" else 12):
            out.append((f"few-{c}-{s}", ["few", c, s]))
    return out


def make(c, seed, missing=0.0):
    """Answers driven by the configuration's number of factors."""
    n, cats, persons, f = c if isinstance(c, tuple) else CONFIGS[c]
    cats = [cats] * n if np.isscalar(cats) else cats
    rng = np.random.default_rng([5, n if isinstance(c, tuple) else c, seed])
    th = rng.standard_normal((f, persons))
    A = np.array([[1.1 * np.cos(1.3 * i + 2.1 * j + 0.3 * seed) + (1.0 if i % f == j else 0.0) for j in range(f)]
                  for i in range(n)])
    out = np.zeros((n, persons), dtype=int)
    for i in range(n):
        d = np.linspace(1, -1, cats[i] - 1) if cats[i] > 2 else np.array([0.5 * np.sin(2 * i + seed)])
        table = ref.grm_md(A[i], d, th)
        out[i] = (rng.random(persons)[None] > table.cumsum(axis=0)[:-1]).sum(axis=0)
        for v in range(cats[i]):
            if not (out[i] == v).any():
                out[i, (7 * v + 3 * i) % persons] = v
    start = 0 if max(cats) == 2 else 1
    out += start
    if missing:
        mask = rng.random(out.shape) < missing
        for i in range(n):
            for v in range(cats[i]):
                mask[i, np.flatnonzero(out[i] == v + start)[0]] = False
        out[mask] = M
    return out


def judge(rec, data, f, got, opts, converged, tag, two=False, transient=False):
    info = dict(data=data if data.size < 200 else data.shape, factors=f,
                options={k: v for k, v in opts.items() if k != "distribution"})
    pb = mml.Problem(data, opts)
    n = pb.n_items
    A, d = np.asarray(got["Discrimination"]), np.asarray(got["Difficulty"])
    if two:
        if not rec.check(d.shape == (n,), "one threshold per item", shape=d.shape, **info):
            return None
        d = d[:, None]
    if not rec.check(A.shape == (n, f) and d.shape == (n, pb.sizes.max() - 1), "shapes of the estimates",
                     shapes=[A.shape, d.shape], **info):
        return None
    guess = opts.get("initial_guess", True)
    # identification
    for j in range(f):
        i = n - 1 - j
        rec.check((np.abs(A[i, j + 1:]) < 1e-8).all(), "loadings fixed at zero are zero", item=i, loadings=A[i], **info)
        if guess:
            rec.check(A[i, j] >= 0.149, "the diagonal is positive", item=i, loadings=A[i], **info)
    lo, hi = np.full((n, f), -3.0), np.full((n, f), 3.0)
    if guess:
        for j in range(f):
            lo[n - 1 - j, j], hi[n - 1 - j, j] = .15, 4
    lo[n - 1, 0], hi[n - 1, 0] = 0.2, 5.0
    free = [min(f, n - i) for i in range(n)]
    if not rec.check(all((A[i, :free[i]] >= lo[i, :free[i]] - 1e-6).all() and (A[i, :free[i]] <= hi[i, :free[i]] + 1e-6).all()
                         for i in range(n)), "loadings within their bounds", loadings=A, **info):
        return None
    lut = opts.get("use_LUT", True)

    def thresholds(x, i):
        size = float(np.clip(np.sqrt((x ** 2).sum()), .15, 5.99))
        b, ok = pb.thresholds(size, i)
        if ok and lut:
            ok = pb.thresholds(max(size - 0.01, 0.15), i)[1]
        return -size * b, ok, size, b

    inside = []
    for i in range(n):
        k = pb.sizes[i] - 1
        rec.check(np.isfinite(d[i, :k]).all() and np.isnan(d[i, k:]).all(), "unused thresholds are NaN, others numbers",
                  item=i, d=d[i], **info)
        want, ok, size, b = thresholds(A[i], i)
        inside.append(ok)
        if ok:
            slack = 5e-4 + (1.5 * size * pb.lut_slack(size, i, b, 1000, .15, 6, 500) if lut else 0)
            rec.check((np.abs(d[i, :k] - want) <= slack).all(), "thresholds reproduce the observed proportions", item=i,
                      loadings=A[i], got=d[i], want=want, **info)
    # likelihood on the product grid
    pts = np.array(list(itertools.product(pb.th, repeat=f))).T
    wts = np.array([np.prod(x) for x in itertools.product(pb.weight, repeat=f)])
    tables = [ref.grm_md(A[i], d[i][:pb.sizes[i] - 1], pts) for i in range(n)]
    lik = [ref.factor(tables[i], pb.codes[i]) for i in range(n)]
    tol = 0.03 * max(1.0, pb.n_persons / 100)
    for i in range(n):
        if (not converged and i < n - 1) or not inside[i] or transient:
            continue
        rest = np.prod([lik[j] for j in range(n) if j != i], axis=0) * wts
        m = free[i]

        def ll(x):
            full = np.zeros(f)
            full[:m] = x
            dd, ok, _, _ = thresholds(full, i)
            if not ok:
                return -np.inf
            t = ref.grm_md(full, dd, pts)
            return float(np.log((rest * ref.factor(t, pb.codes[i])).sum(axis=1)) @ pb.counts)
        bad = local.better_point(ll, A[i, :m], lo[i, :m], hi[i, :m], tol)
        rec.check(bad is None, "an item's loadings can be improved", item=i, loadings=A[i], better=bad, **info)
    total = float(np.log((np.prod(lik, axis=0) * wts).sum(axis=1)) @ pb.counts)
    rec.check(abs(got["LL"] - total) < 1e-5 * max(1, abs(total)) and abs(got["AIC"] + 2 * total) < 1e-4 and
              abs(got["BIC"] + 2 * total) < 1e-4, "the reported likelihood and criteria belong to the estimates",
              got=[got["LL"], got["AIC"], got["BIC"]], want=total, **info)
    post = np.prod([ref.factor(tables[i], ref.coded(data)[0][i]) for i in range(n)], axis=0) * wts
    want = pts @ post.T / post.sum(axis=1)
    rec.check(ref.close(got["Ability"], want, 1e-6), "abilities are posterior means", **info)
    if (np.abs(A) > 0.2).sum() > n:
        rec.key(tag, data if data.size < 400 else data.sum(axis=0), np.round(A, 2))
    return total


def fit(rec, data, f, opts, two=False):
    rec.count("evaluations")
    return (multidimensional_twopl_mml if two else multidimensional_grm_mml)(data, f, opts)


def same(x, y):
    return ref.close(x["Discrimination"], y["Discrimination"], 1e-12) and ref.close(x["Difficulty"], y["Difficulty"], 1e-12)


def points(f, opts):
    out = dict(opts)
    out["quadrature_n"] = min(out.get("quadrature_n", 41), 13 if f == 2 else 8)
    return out


def run(payload, rec):
    kind = payload[0]
    if kind == "reject":
        data = make(0, 1)
        for f in (1, 0, -1):
            for g in (multidimensional_grm_mml, multidimensional_twopl_mml):
                rec.count("evaluations")
                try:
                    g(data, f, {"max_iteration": 1, "quadrature_n": 9})
                    rec.fail("fewer than two factors accepted", factors=f)
                except (AssertionError, ValueError):
                    rec.key("reject", f, g.__name__)
        return
    if kind == "long":
        data = make(0, 3, 0.1)
        o = {"quadrature_n": 9, "initial_guess": payload[1]}
        r = {k: fit(rec, data, 2, {**o, "max_iteration": k}, True) for k in (24, 25, 26)}
        rec.check(same(fit(rec, data, 2, o, True), r[25]), "25 iterations by default")
        judge(rec, data, 2, r[25], o, same(r[24], r[25]), "long", True)
        return
    if kind == "unusual":
        for two in (False, True):
            data = ref.unusual(payload[1], two=two)
            if data is not None and data.shape[0] > 2:
                # a proportion outside the table: a finding of P04
                o = points(2, {"initial_guess": payload[2], "max_iteration": 3, "use_LUT": payload[1] not in ("rare", "lopsided")})
                judge(rec, data, 2, fit(rec, data, 2, o, two), o, False, payload, two)
        return
    if kind == "few":
        return few(rec, FEW[payload[1]], payload[2])
    n, cats, persons, f = CONFIGS[payload[1]]
    two = cats == 2
    if kind == "menu":
        _, c, q, lut = payload
        for miss in (0.0, 0.2):
            data = make(c, 1, miss)
            o = points(f, {**menus.proper(q), "use_LUT": lut, "max_iteration": 2})
            judge(rec, data, f, fit(rec, data, f, o, two), o, False, (c, q, lut), two)
    elif kind == "seeds":
        _, c, guess, s = payload
        data = make(c, 10 + s, 0.1 * (s % 3))
        o = points(f, {"initial_guess": guess, "max_iteration": 60, "use_LUT": bool(s % 2)})
        got = fit(rec, data, f, o, two)
        again = fit(rec, data, f, {**o, "max_iteration": 61}, two)
        converged = same(got, again)
        rec.count("converged", converged)
        judge(rec, data, f, got, o, converged, (c, s), two)
    elif kind == "iter":
        _, c, guess = payload
        data = make(c, 5, 0.1)
        last, lls = None, []
        # a guess of huge loadings (a Heywood case) gives zero likelihoods, which the first iteration cannot divide out
        heywood = guess and np.abs(initial_guess_md(data, f)).max() > 20
        for k in (1, 2, 3, 4):
            o = points(f, {"initial_guess": guess, "max_iteration": k})
            got = fit(rec, data, f, o, two)
            lls.append(judge(rec, data, f, got, o, False, (c, k), two, transient=heywood and k == 1))
            if k > 1 and None not in lls[-2:]:
                rec.check(lls[-1] >= lls[-2] - 0.03, "an iteration lowers the marginal likelihood", k=k, ll=lls[-2:])
            last = got
        if payload[1] == 0:
            default = fit(rec, data, f, points(f, {"max_iteration": 4}), two)
            if guess:
                rec.check(same(default, last), "the initial guess is used by default")
        rec.sample(config=CONFIGS[c], initial_guess=guess, marginal_likelihoods=lls)
    elif kind == "guess":
        _, c, k = payload
        for miss in (0.0, 0.15):
            data = make(c, 20 + k, miss)
            seen = data[data != M]
            corr = polychoric_correlation_serial(data, int(seen.min()), int(seen.max()))
            for nf in range(1, f + 1):
                if n - nf < 2:
                    continue
                rec.count("evaluations")
                got = initial_guess_md(data, nf)
                loads, _, unique = maximum_likelihood_factor_analysis(corr, nf)
                want = 1.7 * loads / np.sqrt(unique)[:, None]
                info = dict(data=data.shape, factors=nf, got=got)
                if not rec.check(np.shape(got) == (n, nf), "shape of the guess", **info):
                    continue
                scale = max(1.0, float(np.abs(want).max()) ** 2)
                rec.check(np.abs(got @ got.T - want @ want.T).max() < 1e-8 * scale,
                          "the guess does not preserve the fitted correlations", **info)
                if nf > 1:
                    for j in range(nf):
                        i = n - 1 - j
                        rec.check((np.abs(got[i, j + 1:]) < 1e-8 * scale).all() and got[i, j] > 0,
                                  "the guess breaks the zero and sign constraints", item=i, **info)
                rec.key("guess", c, k, nf, miss)


def few(rec, config, s):
    n, cats, persons, f = config
    for miss in (0.0, 0.2):
        data = make(config, 40 + s, miss)
        seen = data[data != M]
        corr = polychoric_correlation_serial(data, int(seen.min()), int(seen.max()))
        rec.count("indefinite", np.linalg.eigvalsh(corr)[0] <= 0)
        for nf in range(1, f + 1):
            rec.count("evaluations")
            got = initial_guess_md(data, nf)
            info = dict(data=data.shape, factors=nf, missing=miss, seed=s)
            if not rec.check(np.shape(got) == (n, nf) and np.isfinite(got).all(), "shape of the guess", got=got, **info):
                return
            if nf > 1:
                scale = max(1.0, float(np.abs(got).max()))
                for j in range(nf):
                    i = n - 1 - j
                    rec.check((np.abs(got[i, j + 1:]) < 1e-8 * scale).all() and got[i, j] > 0,
                              "the guess breaks the zero and sign constraints", item=i, got=got, **info)
        o = points(f, {"max_iteration": 40})
        two = cats == 2
        got = fit(rec, data, f, o, two)
        again = fit(rec, data, f, {**o, "max_iteration": 41}, two)
        judge(rec, data, f, got, o, same(got, again), ("few", n, s), two)
