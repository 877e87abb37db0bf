"""Multidimensional scoring: posterior mean / posterior mode per person."""
import itertools

import numpy as np
from scipy import optimize

import girth
from mc import menus, ref

LEVEL = "exploration"
RULE = ("every response pattern over all categories and missing for each small item set (so every "
        "category shows), every parameter set, number of factors and quadrature/prior option of the "
        "menu; extreme parameters; histories whose parameters, answers or options "
        "change by very little; up to 5 factors, 1100 items and 4099 persons on single menus; permutations and every leave-out of the batch that keeps all categories; single-person "
        "batches are listed findings; distinct by pattern, parameters and options; non-trivial when "
        "an answer is present")
ASSUMPTIONS = ["every item shows all its categories among the persons scored together"]
M = ref.MISSING

A2 = np.array([[1.2, 0.4], [-0.7, 1.5], [0.9, 0.0], [0.3, -1.1]])
A3 = np.array([[1.2, 0.4, -0.3], [-0.7, 1.5, 0.6], [0.9, 0.0, 1.3], [0.5, -0.9, 0.2]])


def cases(tier):
    out = []
    for f in (2, 3):
        for shape in ("d2", "d3", "p2", "mixed", "d4", "p4"):
            for q in ("default", "odd", "shift", "skew", "few"):
                if f == 3 and shape in ("d4", "p4") and tier == "quick":
                    continue
                out.append((f"eap-{f}-{shape}-{q}", ["eap", f, shape, q]))
            for prior in ("std", "shift", "skew") + (tuple(menus.LIMITED) if shape in ("d3", "p2") else ()):
                out.append((f"map-{f}-{shape}-{prior}", ["map", f, shape, prior]))
    for k in (4, 5) if tier == "thorough" else (4,):
        out.append((f"factors-{k}", ["factors", k]))
    for n in (12, 40, 120, 1100):
        out.append((f"long-{n}", ["long", n]))
    for persons in (257, 1025, 4099):
        out.append((f"many-{persons}", ["many", persons]))
    for shape in ("d3", "mixed"):
        out.append((f"batch-{shape}", ["batch", shape]))
    for f in (2, 3):
        out.append((f"near-{f}", ["near", f]))
        for kind in ("eap", "map"):
            out.append((f"extreme-{f}-{kind}", ["extreme", f, kind]))
    for kind in ("eap", "map"):
        out.append((f"single-{kind}", ["single", kind]))
    return out


def items(shape, f):
    """discrimination, list of intercepts, category counts, first code"""
    A = A2 if f == 2 else A3
    cats = {"d2": [2, 2], "d3": [2, 2, 2], "p2": [3, 3], "mixed": [2, 4, 3], "d4": [2] * 4,
            "p4": [4, 2, 3]}[shape]
    if shape == "p4":
        A = A[::-1]
    d = [np.linspace(1.1, -0.9, k - 1) + 0.3 * np.sin(2 * i) if k > 2 else np.array([0.8 * np.cos(2 * i)])
         for i, k in enumerate(cats)]
    return A[:len(cats)], d, cats, 0 if max(cats) == 2 else 1


def padded(d):
    """Intercepts as the estimators return them: nan at the end."""
    k = max(len(x) for x in d)
    out = np.full((len(d), k), np.nan)
    for i, x in enumerate(d):
        out[i, :len(x)] = x
    return out[:, 0] if k == 1 else out


def batch_of(cats, start):
    pats = list(itertools.product(*[[M] + list(range(k)) for k in cats]))
    codes = np.array(pats).T
    data = np.where(codes == M, M, codes + start)
    return codes, data


def grid(opt, f):
    th, w = ref.latent(opt)
    pts = np.array(list(itertools.product(th, repeat=f))).T
    wts = np.array([np.prod(x) for x in itertools.product(w, repeat=f)])
    return pts, wts


def want_eap(codes, A, d, opt):
    f = A.shape[1]
    pts, wts = grid(opt, f)
    tables = [ref.grm_md(A[i], d[i], pts) for i in range(len(d))]
    out = np.zeros((f, codes.shape[1]))
    for p in range(codes.shape[1]):
        post = wts.copy()
        for i, t in enumerate(tables):
            if codes[i, p] != M:
                post = post * t[codes[i, p]]
                post = post / post.max()
        out[:, p] = (pts @ post) / post.sum()
    return out


def log_post(x, col, A, d, pdf):
    x = np.asarray(x, dtype=float)
    out = np.log(pdf(x)).sum()
    for i, v in enumerate(col):
        if v != M:
            out += np.log(ref.grm_md(A[i], d[i], x[:, None])[v, 0])
    return out


def judge_map(rec, codes, got, A, d, pdf, tag):
    f = A.shape[1]
    if not rec.check(got.shape == (f, codes.shape[1]), "one ability per factor and person",
                     shape=got.shape):
        return
    line = np.linspace(-4, 4, 801)
    line = line[pdf(line) > 0]
    box = [(line[0], line[-1])] * f
    for p in range(codes.shape[1]):
        col, x = codes[:, p], got[:, p]
        rec.count("evaluations")
        if not (np.isfinite(x).all() and (np.abs(x) <= 4 + 1e-9).all()):
            rec.fail("mode outside the search box", pattern=col, got=x)
            continue
        fx = log_post(x, col, A, d, pdf)
        best = min((optimize.minimize(lambda t: -log_post(t, col, A, d, pdf), np.clip(x0, *box[0]), method="L-BFGS-B",
                                      bounds=box) for x0 in (x, np.full(f, line.mean()))), key=lambda r: r.fun)
        gap = -best.fun - fx
        rec.check(gap < 1e-3, "not the posterior mode", pattern=col, got=x, gap=gap, best=best.x)
        if (col != M).any():
            rec.key(tag, col, np.round(best.x, 3))


def run(payload, rec):
    kind = payload[0]
    if kind in ("eap", "map"):
        _, f, shape, q = payload
        A, d, cats, start = items(shape, f)
        codes, data = batch_of(cats, start)
        if kind == "eap":
            opt = menus.quad(q)
            opt.setdefault("quadrature_n", 15 if f == 2 else 9)
            if f == 3:
                opt["quadrature_n"] = min(opt["quadrature_n"], 11)
            got = girth.multidimensional_ability_eap(data, padded(d), A, options=opt)
            want = want_eap(codes, A, d, opt)
            rec.count("evaluations", want.size)
            rec.check(got.shape == want.shape, "one ability per factor and person", shape=got.shape)
            bad = ~(np.abs(got - want).max(axis=0) < 1e-7)
            if bad.any():
                k = int(np.argmax(bad))
                rec.fail("not the posterior mean", pattern=codes[:, k], got=got[:, k], want=want[:, k])
            for k in range(codes.shape[1]):
                if (codes[:, k] != M).any():
                    rec.key(payload, codes[:, k], np.round(want[:, k], 6))
            rec.sample(pattern=codes[:, -1], ability=got[:, -1])
        else:
            got = girth.multidimensional_ability_map(data, padded(d), A, options=menus.options(q))
            judge_map(rec, codes, got, A, d, {**menus.DISTS, **menus.LIMITED}[q], payload)
    elif kind == "near":
        near(rec, payload[1])
    elif kind == "extreme":
        extreme(rec, *payload[1:])
    elif kind in ("factors", "long", "many"):
        sizes(rec, *payload)
    elif kind == "batch":
        batch(rec, payload[1])
    else:
        single(rec, payload[1])


def mean_and_mode(rec, codes, data, d, A, tag, opt=None, kinds=("eap", "map")):
    opt = dict({"quadrature_n": 9}, **(opt or {}))
    if "eap" in kinds:
        got = girth.multidimensional_ability_eap(data, padded(d), A, options=opt)
        want = want_eap(codes, A, d, opt)
        rec.count("evaluations", want.size)
        rec.check(got.shape == want.shape and np.abs(got - want).max() < 1e-7, "not the posterior mean", tag=tag, intercepts=d,
                  discrimination=A)
        rec.key(tag, "eap")
    if "map" in kinds:
        judge_map(rec, codes, girth.multidimensional_ability_map(data, padded(d), A, options=opt), A, d,
                  opt.get("distribution", menus.DISTS["std"]), tag)


def near(rec, f):
    """One after the other: parameters, answers and options that differ by very little."""
    A, d, cats, start = items("d3", f)
    codes, data = batch_of(cats, start)
    flat = np.concatenate(d)
    for k, (x, y) in enumerate(menus.nearby(flat, A)):
        mean_and_mode(rec, codes, data, [x[i:i + 1] for i in range(len(cats))], y, ("near", f, k), kinds=("eap", "map") if k % 4 < 3 else ("eap",))
    std = menus.DISTS["std"]
    for k, opt in enumerate(({}, {"quadrature_n": 10}, {"quadrature_bounds": (-4.5, 4.6)}, {"quadrature_bounds": (-4.6, 4.5)},
                             {"distribution": lambda x: std(x - 0.01)}, {"distribution": lambda x: std(x - 0.03)}, {})):
        mean_and_mode(rec, codes, data, d, A, ("near", f, "options", k), opt)
    for p in range(1, data.shape[1]):
        other = codes.copy()
        other[p % len(cats), p] = 1 - other[p % len(cats), p] if other[p % len(cats), p] != M else 1
        mean_and_mode(rec, other, np.where(other == M, M, other + start), d, A, ("near", f, "data", p), kinds=("eap",))


def extreme(rec, f, kind):
    """Parameters far from the usual."""
    A, d, cats, start = items("mixed", f)
    codes, data = batch_of(cats, start)
    for k, (scale, shift) in enumerate(itertools.product((0.0, 0.02, 1.0, 4.0), (-6.0, 0.0, 5.0))):
        mean_and_mode(rec, codes, data, [x + shift * (-1) ** i for i, x in enumerate(d)], A * scale, ("extreme", f, k), kinds=(kind,))


def sizes(rec, kind, k):
    """More factors, more items, more persons than the complete enumerations hold."""
    f, n, persons = (k, 5, 40) if kind == "factors" else (2, k, 30) if kind == "long" else (2, 4, 37)
    cats = [(2, 3, 5)[i % 3] for i in range(n)]
    A = np.array([[0.9 * np.cos(1.1 * i + 2 * j) + 0.2 for j in range(f)] for i in range(n)])
    d = [np.linspace(1.2, -1.0, c - 1) + 0.3 * np.sin(2 * i) if c > 2 else np.array([0.8 * np.cos(2 * i)]) for i, c in enumerate(cats)]
    rng = np.random.default_rng([7, n, persons])
    codes = np.array([rng.integers(0, c, persons) for c in cats])
    codes[:, :5] = np.minimum(np.arange(5), np.array(cats)[:, None] - 1)         # every category shows
    codes[rng.random(codes.shape) * (np.arange(persons) > 4) > 0.85] = M
    data = np.where(codes == M, M, codes + 1)
    opt = {"quadrature_n": {2: 15 if n < 500 else 9, 4: 9, 5: 8}[f]}
    index = (np.arange(k) * 5) % persons if kind == "many" else np.arange(persons)
    got = girth.multidimensional_ability_eap(data[:, index], padded(d), A, options=opt)
    want = want_eap(codes, A, d, opt)
    rec.count("evaluations", index.size)
    rec.check(got.shape == (f, index.size) and np.abs(got - want[:, index]).max() < 1e-7, "not the posterior mean", size=(kind, k))
    rec.key(kind, k)
    if kind == "long" and k > 500:
        return
    if kind != "many":
        judge_map(rec, codes, girth.multidimensional_ability_map(data, padded(d), A), A, d, menus.DISTS["std"], (kind, k))
    elif k < 500:
        few = girth.multidimensional_ability_map(data, padded(d), A)
        rec.check(np.abs(girth.multidimensional_ability_map(data[:, index], padded(d), A) - few[:, index]).max() < 1e-4,
                  "an ability depends on how many are scored", persons=k)


def batch(rec, shape):
    """Leaving out any one person, reversing, rotating: the others keep their ability."""
    A, d, cats, start = items(shape, 2)
    codes, data = batch_of(cats, start)
    n = data.shape[1]
    for name, f, tol in (
            ("eap", lambda x: girth.multidimensional_ability_eap(x, padded(d), A, {"quadrature_n": 11}), 1e-9),
            ("map", lambda x: girth.multidimensional_ability_map(x, padded(d), A), 1e-4)):
        whole = f(data)
        subsets = [[k for k in range(n) if k != j] for j in range(n)] if name == "eap" else [list(range(1, n))]
        subsets += [list(range(n))[::-1], [(k + 5) % n for k in range(n)]]
        subsets += [list(range(n)) + [j] for j in range(0, n, 7)]
        for s in subsets:
            if any(set(codes[i, s]) - {M} != set(range(cats[i])) for i in range(len(cats))):
                continue
            got = f(data[:, s])
            rec.count("evaluations", len(s))
            rec.check(np.abs(got - whole[:, s]).max() < tol, f"{name}: an ability depends on who else is "
                      "scored", persons=s)
            rec.key(name, s)


def single(rec, kind):
    """A person scored alone. The categories are read from the batch, so a person
    with one answer on every item is misread: listed as a finding."""
    A, d, cats, start = items("d3", 2)
    f = {"eap": lambda x: girth.multidimensional_ability_eap(x, padded(d), A, {"quadrature_n": 15}),
         "map": lambda x: girth.multidimensional_ability_map(x, padded(d), A)}[kind]
    codes, data = batch_of(cats, start)
    whole = f(data)
    top = [k for k in range(data.shape[1]) if (codes[:, k] == 1).all()][0]
    low = [k for k in range(data.shape[1]) if (codes[:, k] == 0).all()][0]
    alone = f(data[:, [top]])[:, 0]
    rec.count("evaluations", 2)
    rec.key(kind, "top")
    if np.abs(alone - whole[:, top]).max() > 1e-4:
        same = np.abs(alone - whole[:, low]).max() < 1e-4
        rec.fail("a person who endorses every item, scored alone, gets another ability",
                 sig="scored-as-all-lowest" if same else "other", got=alone, want=whole[:, top])
    alone = f(data[:, [low]])[:, 0]
    rec.key(kind, "low")
    rec.check(np.abs(alone - whole[:, low]).max() < 1e-4, "a person who endorses no item, scored alone",
              got=alone, want=whole[:, low])
