"""Factor extraction: components, principal axes, maximum likelihood, minimum rank."""
import itertools

import numpy as np

from girth.factoranalysis import (maximum_likelihood_factor_analysis as mlfa, minimum_rank_factor_analysis as mrfa,
                                  principal_axis_factor as paf, principal_components_analysis as pca)

LEVEL = "exploration"
RULE = ("every symmetric positive semi-definite 2x2 and 3x3 matrix with entries up to 2 (thorough: 4), every number of "
        "factors; menus of exact factor models, sample correlations and covariances x every number of factors x starts x "
        "iteration budgets x every reordering (4 variables: all 24; more: a transposition for every pair of neighbours and "
        "the reversal); one evaluation is one extraction; distinct by matrix, factors and options")
ASSUMPTIONS = ["principal axis factoring may decline to converge within its iteration limit, with an error",
               "maximum likelihood stationarity is judged where a larger budget changes nothing; at the lower limit of a "
               "unique variance the derivative may only push against the limit",
               "different orders of variables may end in different stationary points of the likelihood"]


def cases(tier):
    out = []
    top = 2 if tier == "quick" else 4
    for d in itertools.product(range(top + 1), repeat=2):
        out.append((f"pca-{top}-{d}", ["pca", top, list(d)]))
    for kind in ("exact", "sample", "cov"):
        for p in (3, 4, 5, 6, 8) if tier == "quick" else (3, 4, 5, 6, 7, 8, 10, 12):
            for r in range(4 if tier == "quick" else 10):
                out.append((f"{kind}-{p}-{r}", [kind, p, r, tier]))
        for p in (15, 24) if kind == "exact" else (15,) if tier == "thorough" else ():
            out.append((f"{kind}-{p}-0", [kind, p, 0, tier]))
    return out


# ------------------------------------------------------------------ matrices
def matrix(kind, p, r):
    rng = np.random.default_rng([28, p, r])
    k0 = min(1 + r % 3, p - 1)
    if kind == "exact" and r % 4 == 3:                         # simple structure
        load = np.zeros((p, min(2, p - 1)))
        load[np.arange(p), np.arange(p) % load.shape[1]] = 0.85 - 0.05 * np.arange(p)
    else:
        load = rng.uniform(-0.9, 0.9, (p, k0))
        load /= np.maximum(1, np.sqrt((load ** 2).sum(1)) * 1.1)[:, None]
    s = load @ load.T
    u = 1 - np.diag(s)
    if kind != "exact":
        n = 8 * p
        x = rng.standard_normal((n, load.shape[1])) @ load.T + rng.standard_normal((n, p)) * np.sqrt(u)
        return (np.corrcoef(x.T) if kind == "sample" else np.cov((x * np.linspace(0.5, 3, p)).T)), None, None
    return s + np.diag(u), load, u


def judge_pairs(rec, a, load, eig, k, what, **info):
    """The columns of load are the leading eigenvectors of a, scaled to their eigenvalues."""
    want = np.sort(np.linalg.eigvals(a).real)[::-1][:k]
    size = max(1.0, np.abs(want).max())
    rec.check(load.shape == (len(a), k) and eig.shape == (k,), what + ": shapes", got=[load.shape, eig.shape], **info)
    rec.check(np.abs(eig - want).max() < 1e-7 * size, what + ": not the largest eigenvalues in order", got=eig, want=want, **info)
    good = want > 1e-6 * size
    rec.check(np.isfinite(load[:, good]).all() and np.abs((a @ load - load * eig)[:, good]).max(initial=0) < 1e-7 * size,
              what + ": not eigenvectors", got=load, **info)
    gram = load[:, good].T @ load[:, good]
    rec.check(np.abs(gram - np.diag(eig[good])).max(initial=0) < 1e-7 * size, what + ": loadings not orthogonal with squared "
              "length the eigenvalue", got=gram, want=eig, **info)


# ------------------------------------------------------------------ criteria
def discrepancy(s, u, k):
    """Maximum likelihood discrepancy with the loadings maximised out."""
    h = 1 / np.sqrt(u)
    t = np.linalg.eigvalsh(s * np.outer(h, h))
    rest = np.concatenate([t[:-k], np.minimum(t[-k:], 1)])
    return float((rest - np.log(rest) - 1).sum())


def derivatives(s, load, u):
    inv = np.linalg.inv(load @ load.T + np.diag(u))
    g = inv @ (load @ load.T + np.diag(u) - s) @ inv
    return np.diag(g) * u, 2 * g @ load * np.sqrt(np.diag(s))[:, None]


def ranked(s, u, k):
    """Criterion of minimum rank factoring: the singular values left over, relative to the smallest."""
    h = 1 / np.sqrt(u)
    sv = np.sqrt(np.maximum(np.linalg.eigvalsh(s * np.outer(h, h)), 0))
    return float(sv[:-k].sum() / sv[0])


def orders(p):
    if p <= 4:
        return [list(o) for o in itertools.permutations(range(p))][1:]
    out = [list(range(p))[::-1]]
    for i in range(p - 1):
        o = list(range(p))
        o[i], o[i + 1] = o[i + 1], o[i]
        out.append(o)
    return out


def settle(s, k):
    """The proper fixed point that the plain iteration reaches from every start, if there is one."""
    ends = []
    for u in (np.zeros(len(s)), 1 / np.diag(np.linalg.inv(s)), 0.9 * np.diag(s)):
        for _ in range(3000):
            w, v = np.linalg.eigh(s - np.diag(u))
            new = np.diag(s) - ((v ** 2)[:, -k:] * np.maximum(w[-k:], 0)).sum(1)
            step, u = np.abs(new - u).max(), new
            if step < 1e-11 * s.max() or u.min() < -1:
                break
        if step > 1e-9 * s.max() or u.min() <= 0 or (ends and np.abs(u - ends[0]).max() > 1e-6 * s.max()):
            return None
        ends.append(u)
    return ends[0]


def axis(rec, s, k, truth, info):
    p = len(s)
    results = {}
    for name, opts in (("default", {}), ("tight", {"tolerance": 1e-10}),
                       ("smc", {"tolerance": 1e-10, "initial_guess": 1 / np.diag(np.linalg.inv(s))}),
                       ("diagonal", {"tolerance": 1e-10, "initial_guess": 0.9 * np.diag(s)})):
        try:
            load, eig, u = paf(s, k, **opts)
        except (RuntimeError, np.linalg.LinAlgError):
            rec.count("declined")
            continue
        rec.count("evaluations")
        rec.key(info["matrix"], k, "paf", name)
        judge_pairs(rec, s - np.diag(u), load, eig, k, "principal axes", start=name, **info)
        tol = 1e-6 if opts else 2e-2
        miss = np.abs(np.diag(s - load @ load.T) - u).max() / np.diag(s).max()
        rec.check(miss < tol, "principal axes: not a fixed point", start=name, missing=miss, **info)
        results[name] = (load, eig, u)
    if "default" in results:
        same = paf(s, k, initial_guess=np.zeros(p))
        rec.check(all(np.abs(a - b).max() < 1e-9 * np.diag(s).max() for a, b in zip(same, results["default"])),
                  "principal axes: the default start is not zero", got=results["default"][2], want=same[2], **info)
    if "tight" not in results:
        return None
    load, eig, u = results["tight"]
    alone = settle(s, k)
    proper = alone is not None
    if proper:
        rec.check(np.abs(alone - u).max() < 1e-6 * np.diag(s).max(), "principal axes: not where the plain iteration ends",
                  got=u, want=alone, **info)
    else:
        rec.count("several_or_improper_axes")
    if "default" in results and proper:
        rec.check(np.abs(results["default"][2] - u).max() < 0.1 * np.diag(s).max(), "principal axes: tolerance changes the end",
                  got=results["default"][2], want=u, **info)
    for order in orders(p):
        try:
            l2, e2, u2 = paf(s[np.ix_(order, order)], k, tolerance=1e-10)
        except (RuntimeError, np.linalg.LinAlgError):
            continue
        rec.count("evaluations")
        miss = np.abs(np.diag(s)[order] - (l2 ** 2).sum(1) - u2).max() / np.diag(s).max()
        rec.check(miss < 1e-6, "principal axes: not a fixed point", order=order, missing=miss, **info)
        if not proper or u2.min() < 0:      # the accelerated iteration may end in another fixed point
            continue
        bad = max(np.abs(u2 - u[order]).max(), np.abs(e2 - eig).max(), np.abs(l2 @ l2.T - (load @ load.T)[np.ix_(order, order)]).max())
        rec.check(bad < 1e-6 * np.diag(s).max(), "principal axes: reordering the variables", order=order, missing=bad, **info)
    if truth is not None:
        off = ~np.eye(p, dtype=bool)
        bad = np.abs((load @ load.T - s)[off]).max()
        rec.check(bad < 1e-6 or u.min() < 0, "principal axes: exact model not recovered", missing=bad, **info)
    return u


def stationary(rec, s, k, load, u, what, **info):
    low = u <= 1.0000001e-6
    du, dl = derivatives(s, load, u)
    rec.check(np.isfinite(load).all() and (u > 0).all(), what + ": not positive", got=u, **info)
    rec.check(np.abs(dl[~low]).max(initial=0) < 1e-3, what + ": loadings not stationary", missing=np.abs(dl[~low]).max(), **info)
    rec.check(np.abs(du[~low]).max(initial=0) < 1e-5, what + ": unique variances not stationary", got=du, unique=u, **info)
    rec.check((du[low] > -1e-6).all(), what + ": held at the limit against the derivative", got=du, unique=u, **info)
    if not low.any():
        bad = np.abs((load ** 2).sum(1) + u - np.diag(s)).max()
        rec.check(bad < 1e-3 * np.diag(s).max(), what + ": implied diagonal", missing=bad, **info)


def likely(rec, s, k, truth, info):
    p = len(s)
    what = "maximum likelihood"
    starts = [("default", None), ("half", 0.5 * np.diag(s)), ("diagonal", np.diag(s).copy()), ("whole", np.full(p, int(np.ceil(s.max()))))]
    ends = {}
    for name, guess in starts:
        kept = None if guess is None else guess.copy()
        load, eig, u = mlfa(s, k, tolerance=1e-10, max_iter=4000, initial_guess=guess)
        rec.count("evaluations")
        rec.key(info["matrix"], k, "ml", name)
        rec.check(guess is None or np.array_equal(kept, guess), what + ": start modified", **info)
        rec.check(np.abs(eig - (load ** 2).sum(0)).max() < 1e-9 * max(1, eig.max()), what + ": eigenvalues", got=eig, **info)
        again = mlfa(s, k, tolerance=1e-10, max_iter=3500, initial_guess=guess)
        if np.abs(again[2] - u).max() > 1e-9 * np.diag(s).max():
            rec.count("unfinished")
            continue
        stationary(rec, s, k, load, u, what, start=name, **info)
        ends[name] = (load, u, discrepancy(s, u, k))
        first = None
        if name == "default":
            first = np.maximum(np.diag(s - pca(s, k)[0] @ pca(s, k)[0].T), 1e-6)
        else:
            first = np.asarray(guess, dtype=float)
        values = [discrepancy(s, first, k)]
        for steps in (1, 2, 3, 4, 5, 8, 12, 20):
            load, eig, u = mlfa(s, k, tolerance=0, max_iter=steps, initial_guess=guess)
            rec.count("evaluations")
            rec.check(np.isfinite(load).all() and np.isfinite(u).all() and (u > 0).all(), what + ": not a number after few "
                      "iterations", steps=steps, start=name, **info)
            values.append(discrepancy(s, u, k))
        gain = np.diff(values)
        rec.check((gain < 1e-8).all(), what + ": discrepancy grows with the iterations", values=values, start=name, **info)
        rec.check(ends[name][2] < values[-1] + 1e-8, what + ": end above the iterates", values=values, end=ends[name][2], **info)
    if truth is not None and "default" in ends and truth[0].shape[1] <= k:
        bad = np.abs(ends["default"][0] @ ends["default"][0].T + np.diag(ends["default"][1]) - s).max()
        rec.check(bad < 1e-3, what + ": exact model not recovered", missing=bad, **info)
    if "default" in ends:
        load, u, value = ends["default"]
        for order in orders(p)[:7]:
            t = s[np.ix_(order, order)]
            l2, e2, u2 = mlfa(t, k, tolerance=1e-10, max_iter=4000)
            rec.count("evaluations")
            other = discrepancy(t, u2, k)
            if abs(other - value) < 1e-7 and np.abs(u2 - u[order]).max() < 0.01:
                bad = np.abs(l2 @ l2.T - (load @ load.T)[np.ix_(order, order)]).max()
                rec.check(bad < 0.02 * np.diag(s).max(), what + ": reordering the variables", order=order, missing=bad, **info)
            else:
                rec.count("elsewhere")


def ranks(rec, s, k, start, info):
    p = len(s)
    what = "minimum rank"
    guesses = [("half", np.full(p, 0.5) * np.diag(s) / np.diag(s).max()), ("smc", 1 / np.diag(np.linalg.inv(s)) / np.diag(s).max())]
    if start is not None:
        guesses.append(("default", None))
    for name, guess in guesses:
        used = start if guess is None else guess
        used = np.clip(used, 1e-4, 1)
        before = ranked(s, used, k)
        for budget in (500, 1, 2, 5):
            try:
                load, eig, u = mrfa(s, k, initial_guess=None if guess is None else guess.copy(), n_iter=budget)
            except RuntimeError:
                rec.count("declined")
                continue
            rec.count("evaluations")
            rec.key(info["matrix"], k, "mr", name, budget)
            tag = dict(start=name, budget=budget, **info)
            size = np.diag(s).max()
            left = np.linalg.eigvalsh(s - np.diag(u))
            rec.check((u > 0).all(), what + ": not positive", got=u, **tag)
            if guess is None:
                same = mrfa(s, k, initial_guess=used.copy(), n_iter=budget)[2]
                rec.check(np.abs(same - u).max() < 1e-9 * size, what + ": the default start is not the principal axes",
                          got=u, want=same, **tag)
            rec.check(left[0] > -1e-9 * size, what + ": reduced matrix not positive semi-definite", got=left, **tag)
            rec.check(left[0] < 1e-6 * size, what + ": reduced matrix of full rank", got=left, **tag)
            judge_pairs(rec, s - np.diag(u), load, eig, k, what, **tag)
            after = ranked(s, u, k)
            rec.check(after < before * (1 + 1e-3) + 1e-6, what + ": residual above the start", before=before, after=after, **tag)
            if budget == 500:
                for i in range(p):
                    for f in (0.8, 1.25):
                        t = u.copy()
                        t[i] *= f
                        if 1.01e-4 < t.min() / t.max():
                            better = ranked(s, t, k)
                            rec.count("moves")
                            rec.check(better > after * 0.98, what + ": a neighbour has a lower residual", item=i, factor=f,
                                      residual=[after, better], **tag)


def run(payload, rec):
    kind = payload[0]
    if kind == "pca":
        _, top, d = payload
        for size in (2, 3):
            for rest in ([()] if size == 2 else [(x,) for x in range(top + 1)]):
                diag = np.array(list(d) + list(rest), dtype=float)
                for off in itertools.product(range(-top, top + 1), repeat=size * (size - 1) // 2):
                    a = np.diag(diag)
                    a[np.triu_indices(size, 1)] = off
                    a = a + a.T - np.diag(diag)
                    if np.linalg.eigvalsh(a)[0] < -1e-9:
                        continue
                    for k in [None, *range(1, size + 1)]:
                        for b in (a, a.astype(int), np.asfortranarray(a)):
                            kept = b.copy()
                            with np.errstate(invalid="ignore"):
                                load, eig, u = pca(b, k) if k else pca(b)
                            rec.count("evaluations")
                            judge_pairs(rec, a, load, eig, k or size, "components", matrix=a, factors=k)
                            rec.check(np.array_equal(u, np.zeros(size)), "components: unique variance", matrix=a, got=u)
                            rec.check(np.array_equal(kept, b), "components: matrix modified", matrix=a)
                    rec.key(a)
        return
    _, p, r, tier = payload
    s, load, u = matrix(kind, p, r)
    kept = s.copy()
    for k in range(1, p):
        info = dict(matrix=[kind, p, r], factors=k)
        judge_pairs(rec, s, *pca(s, k)[:2], k, "components", **info)
        if (p - k) ** 2 < p + k:
            continue
        truth = (load, u) if load is not None and load.shape[1] == k else None
        start = axis(rec, s, k, truth, info)
        likely(rec, s, k, (load, u) if load is not None else None, info)
        try:
            start = paf(s, k)[2]
        except (RuntimeError, np.linalg.LinAlgError):
            start = None
        ranks(rec, s, k, start, info)
        rec.check(np.array_equal(s, kept), "matrix modified", **info)
