"""Partial credit marginal estimation."""
import itertools

import numpy as np

import girth
from mc import local, menus, mml, ref

LEVEL = "exploration"
RULE = ("a menu of items x categories (up to 11) x generating models x seeds x missing answers x quadrature and distribution "
        "options, special patterns, and every iteration bound up to 6; data of two items with three categories under every "
        "single and double increment of a pattern count; unusual data sets (ref.unusual: more items than persons, negative and large codes, rare categories, mostly missing answers, lopsided, doubled items, persons without answers); "
        "one evaluation is one estimation; distinct by data and "
        "options; non-trivial when some discrimination is interior")
ASSUMPTIONS = ["an item counts as optimal when neither steps of 0.1 and 0.25 in a coordinate nor an independent ascent of the "
               "item's likelihood gains 0.03 (per hundred persons) with a shift above 0.1: the optimiser under test "
               "works to about 0.01"]
M = ref.MISSING
LO, HI = (.25, -6.0), (4.0, 6.0)
CONFIGS = [(3, 3, 60), (4, [2, 3, 4, 2], 80), (5, 4, 120), (4, [3, 2, 2, 5], 90), (6, 2, 80), (7, 3, 150)]
# many categories, persons or items: items x categories x persons
WIDE = [(4, 7, 150), (3, 11, 200), (5, [2, 11, 3, 7, 5], 180), (3, 3, 1100), (30, 2, 130)]


def cases(tier):
    out = []
    for c in range(len(CONFIGS)):
        for q in menus.PROPER:
            out.append((f"menu-{c}-{q[0]}", ["menu", c, q[0]]))
        for model in ("grm", "pcm"):
            out.append((f"iter-{c}-{model}", ["iter", c, model]))
        for s in range(1, 3 if tier == "quick" else 60):
            out.append((f"seeds-{c}-{s}", ["seeds", c, s]))
    for c in (0, 1):
        for n in (5, 9):
            out.append((f"latent-{c}-{n}", ["latent", c, n]))
    for k in range(9):
        out.append((f"poly2-{k}", ["poly2", k]))
    for name in ref.UNUSUAL:
        out.append((f"unusual-{name}", ["unusual", name]))
    for k in range(6 + 2 * len(WIDE)):
        out.append((f"shape-{k}", ["shape", k]))
    return out


def judge(rec, data, got, opts, converged, tag):
    info = dict(data=data if data.size < 200 else data.shape,
                options={k: v for k, v in opts.items() if k != "distribution"})
    weight = None
    if opts.get("estimate_distribution"):
        th, w = ref.legendre(opts.get("quadrature_n", 41), *opts.get("quadrature_bounds", (-4.5, 4.5)))
        weight = got["LatentPDF"].cubic_splines[-1](th) * w
    pb = mml.Problem(data, opts, weight)
    a, b = np.asarray(got["Discrimination"]), np.asarray(got["Difficulty"])
    want = (pb.n_items, pb.sizes.max() - 1)
    if not rec.check(a.shape == (pb.n_items,) and b.shape == want, "shapes of the estimates",
                     shapes=[a.shape, b.shape], **info):
        return None
    for i in range(pb.n_items):
        k = pb.sizes[i] - 1
        rec.check(np.isfinite(b[i, :k]).all() and np.isnan(b[i, k:]).all(),
                  "unused thresholds are NaN, others numbers", item=i, difficulty=b[i], **info)
    e = 1e-6
    if not rec.check((a >= LO[0] - e).all() and (a <= HI[0] + e).all() and not (np.abs(b) > HI[1] + e).any(),
                     "estimates within their bounds", a=a, b=b, **info):
        return None
    tables = mml.pcm_tables(pb, a, b)
    tol = 0.03 * max(1.0, pb.n_persons / 100)
    # it watches the discriminations: nothing to watch when all are at a bound
    converged = converged and ((a > .26) & (a < 3.99)).any()
    for i in range(pb.n_items):
        if not converged and i < pb.n_items - 1:
            continue
        k = pb.sizes[i] - 1
        rest = pb.rest(tables, i)

        def f(x):
            return pb.item_ll(rest, ref.pcm(x[0], x[1:], pb.th), i)
        x = np.concatenate(([a[i]], b[i, :k]))
        bad = local.better_point(f, x, [LO[0]] + [LO[1]] * k, [HI[0]] + [HI[1]] * k, tol)
        rec.check(bad is None, "an item's parameters can be improved", item=i, parameters=x, better=bad, **info)
    if ((a > 0.3) & (a < 3.9)).any():
        rec.key(tag, data if data.size < 400 else data.sum(axis=0), np.round(a, 2))
    return pb.ll(tables)


def estimate(rec, data, opts):
    rec.count("evaluations")
    return girth.pcm_mml(data, opts)


def same(x, y, tol=1e-12):
    return (ref.close(x["Discrimination"], y["Discrimination"], tol) and
            ref.close(x["Difficulty"], y["Difficulty"], tol))


def settled(rec, data, opts, tag, most=150):
    o = {"max_iteration": most, **opts}
    got = estimate(rec, data, o)
    again = estimate(rec, data, {**o, "max_iteration": most + 1})
    converged = same(got, again)
    rec.count("converged", converged)
    return judge(rec, data, got, o, converged, tag)


def run(payload, rec):
    kind = payload[0]
    if kind == "menu":
        _, c, q = payload
        n, cats, persons = CONFIGS[c]
        for miss in (0.0, 0.2):
            data = ref.make_data(n, cats, persons, seed=c, missing=miss, model="pcm" if c % 2 else "grm")
            settled(rec, data, menus.proper(q), (c, q, miss))
    elif kind == "seeds":
        _, c, s = payload
        n, cats, persons = CONFIGS[c]
        for miss in (0.0, 0.3):
            data = ref.make_data(n, cats, persons, seed=100 * c + s, missing=miss, model="pcm")
            settled(rec, data, {}, (c, s, miss))
    elif kind == "latent":
        _, c, samples = payload
        n, cats, persons = CONFIGS[c]
        data = ref.make_data(n, cats, persons, seed=c + 20)
        o = {"estimate_distribution": True, "number_of_samples": samples, "max_iteration": 30}
        judge(rec, data, estimate(rec, data, o), o, False, (c, samples))
    elif kind == "iter":
        iterations(rec, payload[1], payload[2])
    elif kind == "poly2":
        pats = ref.all_patterns(2, (1, 2, 3))
        for j in range(payload[1], 9):
            counts = np.array([9, 3, 1, 3, 8, 3, 1, 3, 9])
            counts[payload[1]] += 2
            counts[j] += 3
            settled(rec, ref.expand(pats, counts), {}, "poly2", most=100)
    elif kind == "unusual":
        for two in (False, True):
            data = ref.unusual(payload[1], "pcm", two)
            if data is not None:
                settled(rec, data, {}, payload)
    elif kind == "shape":
        shapes(rec, payload[1])


def iterations(rec, c, model):
    n, cats, persons = CONFIGS[c]
    data = ref.make_data(n, cats, persons, seed=c + 5, missing=0.1, model=model)
    results, lls = [], []
    ks = [1, 2, 3, 4, 5, 6, 24, 25, 26]
    for k in ks:
        o = {"max_iteration": k}
        got = estimate(rec, data, o)
        lls.append(judge(rec, data, got, o, bool(results) and same(got, results[-1]), (c, k)))
        results.append(got)
        if len(lls) > 1 and None not in lls[-2:]:
            rec.check(lls[-1] >= lls[-2] - 0.03, "an iteration lowers the marginal likelihood", k=k, ll=lls[-2:])
    rec.check(same(estimate(rec, data, {}), results[ks.index(25)]), "25 iterations by default")
    for k in range(1, 5):
        moved = np.abs(results[k]["Discrimination"] - results[k - 1]["Discrimination"]).max()
        rec.check(moved < 0.02 or not same(results[k], results[k + 1]), "it stops while still moving", k=k + 1, moved=moved)
    start = mml.Problem(data)
    begin = start.ll([ref.pcm(1.0, np.linspace(-1, 1, s - 1), start.th) for s in start.sizes])
    rec.check(lls[0] is None or lls[0] >= begin - 1e-6, "the first iteration lowers the likelihood", ll=[begin, lls[0]])
    for k in range(1, 5):
        moved = np.abs(results[k]["Discrimination"] - results[k - 1]["Discrimination"]).max()
        if 0 < moved < 1e-3:
            rec.check(same(results[k], results[k + 1]), "it stops once settled", k=k + 1)
    rec.sample(config=CONFIGS[c], model=model, marginal_likelihoods=lls)


def shapes(rec, k):
    if k == 0:      # strong items
        data = ref.make_data(5, 3, 120, seed=3, a=3.0)
    elif k == 1:    # an inverted item: smallest discrimination
        data = ref.make_data(5, 3, 100, seed=3)
        data[2] = 4 - data[2]
    elif k == 2:    # identical items
        data = ref.make_data(4, 3, 80, seed=5)
        data[3] = data[0]
    elif k == 3:    # each item answered by less than half of the persons
        data = ref.make_data(6, 3, 200, seed=6, missing=0.55)
    elif k == 4:    # gaps between the codes, different first codes
        data = ref.make_data(4, 4, 90, seed=8)
        data[1] = np.array([0, 2, 3, 7, 11])[data[1]]
        data[2] += 5
    elif k > 5:
        n, cats, persons = WIDE[(k - 6) // 2]
        data = ref.make_data(n, cats, persons, seed=k, missing=0.1, model="pcm", a=(0.8, 2.0)[k % 2])
    else:           # thresholds out of order
        data = ref.make_data(4, 3, 150, seed=10, model="pcm")
        data[1] = np.where(data[1] == 2, np.where(np.arange(150) % 3 > 0, 3, 2), data[1])
    settled(rec, data, {}, ("shape", k))
