"""Graded unfolding marginal estimation."""
import numpy as np

import girth
from mc import local, menus, mml, ref

LEVEL = "exploration"
RULE = ("a menu of items x categories (up to 11) x seeds x missing answers x quadrature and distribution options, every "
        "designated item and sign, every iteration bound up to 6, and special patterns; unusual data sets (ref.unusual: more items than persons, negative and large codes, rare categories, mostly missing answers, lopsided, doubled items, persons without answers); "
        "one evaluation is one "
        "estimation; distinct by data and options; non-trivial when some discrimination is interior")
ASSUMPTIONS = ["an item counts as optimal when neither steps in a coordinate nor an independent ascent of the item's "
               "likelihood gains 0.03 (per hundred persons) with a shift above 0.1",
               "items still within 0.05 of their symmetric starting location 0 (a saddle) are not judged",
               "mirroring is judged under symmetric distributions"]
M = ref.MISSING
CONFIGS = [(3, 3, 60), (4, [2, 3, 4, 2], 80), (5, 4, 120), (4, [3, 2, 2, 5], 90), (5, 2, 80), (6, 3, 150)]
# many categories, persons or items: items x categories x persons
WIDE = [(4, 7, 150), (3, 11, 200), (5, [2, 11, 3, 7, 5], 180), (3, 3, 1100), (30, 2, 130)]
SYMMETRIC = ("default", "wide", "few", "t5", "uniform")


def cases(tier):
    out = []
    for c in range(len(CONFIGS)):
        for q in menus.PROPER:
            out.append((f"menu-{c}-{q[0]}", ["menu", c, q[0]]))
        out.append((f"iter-{c}", ["iter", c]))
        for s in range(1, 2 if tier == "quick" else 60):
            out.append((f"seeds-{c}-{s}", ["seeds", c, s]))
        for i in range(len(CONFIGS[c][1]) if isinstance(CONFIGS[c][1], list) else CONFIGS[c][0]):
            out.append((f"sign-{c}-{i}", ["sign", c, i]))
    for c in (0, 1):
        for n in (5, 8):
            out.append((f"latent-{c}-{n}", ["latent", c, n]))
    for name in ref.UNUSUAL:
        out.append((f"unusual-{name}", ["unusual", name]))
    for k in range(9 + len(WIDE)):
        out.append((f"shape-{k}", ["shape", k]))
    return out


def judge(rec, data, got, opts, converged, tag, sign=(0, 1)):
    info = dict(data=data if data.size < 200 else data.shape, sign=sign,
                options={k: v for k, v in opts.items() if k != "distribution"})
    weight = None
    if opts.get("estimate_distribution"):
        th, w = ref.legendre(opts.get("quadrature_n", 41), *opts.get("quadrature_bounds", (-4.5, 4.5)))
        weight = got["LatentPDF"].cubic_splines[-1](th) * w
    pb = mml.Problem(data, opts, weight)
    a, d, t = (np.asarray(got[k]) for k in ("Discrimination", "Delta", "Tau"))
    most = pb.sizes.max() - 1
    if not rec.check(a.shape == (pb.n_items,) == d.shape and t.shape == (pb.n_items, most), "shapes of the estimates",
                     shapes=[a.shape, d.shape, t.shape], **info):
        return None
    for i in range(pb.n_items):
        k = pb.sizes[i] - 1
        rec.check(np.isfinite(t[i, :k]).all() and np.isnan(t[i, k:]).all(),
                  "unused thresholds are NaN, others numbers", item=i, tau=t[i], **info)
    full = d[:, None] + np.hstack([t, np.zeros((pb.n_items, 1)), -t[:, ::-1]])
    rec.check(ref.close(got["Difficulties"], full, 1e-12), "difficulties are the location plus and minus the thresholds",
              got=got["Difficulties"], want=full, **info)
    e = 1e-6
    if not rec.check((a >= .25 - e).all() and (a <= 4 + e).all() and (np.abs(d) <= 2 + e).all() and
                     not (np.abs(t) > 6 + e).any(), "estimates within their bounds", a=a, delta=d, tau=t, **info):
        return None
    if abs(d[sign[0]]) > 1e-9:
        rec.check(np.sign(d[sign[0]]) == np.sign(sign[1]), "the designated item has the requested sign", delta=d, **info)
    tables = mml.gum_tables(pb, a, d, t)
    tol = 0.03 * max(1.0, pb.n_persons / 100)
    # it watches the discriminations: nothing to watch when all are at a bound
    converged = converged and ((a > .26) & (a < 3.99)).any()
    for i in range(pb.n_items):
        if not converged and i < pb.n_items - 1:
            continue
        if abs(d[i]) < 0.05:    # still at the symmetric start, a saddle
            continue
        k = pb.sizes[i] - 1
        rest = pb.rest(tables, i)

        def f(x):
            return pb.item_ll(rest, ref.gum(x[0], x[1], x[2:], pb.th), i)
        x = np.concatenate(([a[i], d[i]], t[i, :k]))
        bad = local.better_point(f, x, [.25, -2] + [-6] * k, [4, 2] + [6] * k, tol)
        rec.check(bad is None, "an item's parameters can be improved", item=i, parameters=x, better=bad, **info)
    if ((a > 0.3) & (a < 3.9)).any():
        rec.key(tag, data if data.size < 400 else data.sum(axis=0), np.round(a, 2))
    return pb.ll(tables)


def estimate(rec, data, opts, sign=None):
    rec.count("evaluations")
    return girth.gum_mml(data, options=opts) if sign is None else girth.gum_mml(data, sign, opts)


def same(x, y, tol=1e-12):
    return all(ref.close(x[k], y[k], tol) for k in ("Discrimination", "Delta", "Tau"))


def settled(rec, data, opts, tag, sign=None, most=100):
    o = {"max_iteration": most, **opts}
    got = estimate(rec, data, o, sign)
    again = estimate(rec, data, {**o, "max_iteration": most + 1}, sign)
    converged = same(got, again)
    rec.count("converged", converged)
    judge(rec, data, got, o, converged, tag, sign or (0, 1))
    return got


def run(payload, rec):
    kind = payload[0]
    n, cats, persons = CONFIGS[payload[1]] if kind not in ("shape", "unusual") else (0, 0, 0)
    if kind == "menu":
        _, c, q = payload
        for miss in (0.0, 0.2):
            data = ref.make_data(n, cats, persons, seed=c, missing=miss, model="gum")
            # under a distribution that is not symmetric the sign must be the one found
            o = menus.proper(q)
            got = estimate(rec, data, {"max_iteration": 60, **o})
            if q in SYMMETRIC:
                settled(rec, data, o, (c, q, miss), most=60)
            else:
                two = [estimate(rec, data, {"max_iteration": 60, **o}, (0, s)) for s in (1, -1)]
                rec.check(ref.close(two[0]["Delta"], -two[1]["Delta"], 0), "the other sign mirrors the locations")
    elif kind == "seeds":
        _, c, s = payload
        for miss in (0.0, 0.3):
            data = ref.make_data(n, cats, persons, seed=100 * c + s, missing=miss, model="gum")
            settled(rec, data, {}, (c, s, miss))
    elif kind == "latent":
        _, c, samples = payload
        data = ref.make_data(n, cats, persons, seed=c + 20, model="gum")
        o = {"estimate_distribution": True, "number_of_samples": samples, "max_iteration": 15}
        both = []
        for s in (1, -1):
            both.append(estimate(rec, data, o, (0, s)))
            judge(rec, data, both[-1], o, False, (c, samples, s), (0, s))
        rec.check(ref.close(both[0]["Ability"], -both[1]["Ability"], 1e-9), "the other sign mirrors the abilities")
    elif kind == "sign":
        _, c, i = payload
        data = ref.make_data(n, cats, persons, seed=c + 3, model="gum")
        base = estimate(rec, data, {"max_iteration": 4})
        for s in (1, -1, 3, -0.5):
            got = estimate(rec, data, {"max_iteration": 4}, (i, s))
            judge(rec, data, got, {}, False, (c, i, s), (i, s))
            flip = np.sign(got["Delta"][i]) * np.sign(base["Delta"][i])
            rec.check(ref.close(got["Delta"], flip * base["Delta"], 0) and
                      ref.close(got["Tau"], base["Tau"], 0) and
                      ref.close(got["Discrimination"], base["Discrimination"], 0) and
                      ref.close(got["Ability"], flip * base["Ability"], 1e-9),
                      "asking for a sign mirrors the solution and nothing else", item=i, sign=s)
    elif kind == "iter":
        iterations(rec, payload[1])
    elif kind == "unusual":
        for two in (False, True):
            data = ref.unusual(payload[1], "gum", two)
            if data is not None:
                settled(rec, data, {}, payload, most=60)
    elif kind == "shape":
        shapes(rec, payload[1])


def iterations(rec, c):
    n, cats, persons = CONFIGS[c]
    data = ref.make_data(n, cats, persons, seed=c + 5, missing=0.1, model="gum")
    results, lls = [], []
    ks = [1, 2, 3, 4, 5, 6, 24, 25, 26]
    for k in ks:
        o = {"max_iteration": k}
        got = estimate(rec, data, o)
        lls.append(judge(rec, data, got, o, bool(results) and same(got, results[-1]), (c, k)))
        results.append(got)
        if len(lls) > 1 and None not in lls[-2:]:
            rec.check(lls[-1] >= lls[-2] - 0.03, "an iteration lowers the marginal likelihood", k=k, ll=lls[-2:])
    rec.check(same(estimate(rec, data, {}), results[ks.index(25)]), "25 iterations by default")
    for k in range(1, 5):
        moved = np.abs(results[k]["Discrimination"] - results[k - 1]["Discrimination"]).max()
        rec.check(moved < 0.02 or not same(results[k], results[k + 1]), "it stops while still moving", k=k + 1, moved=moved)
    rec.sample(config=CONFIGS[c], marginal_likelihoods=lls)


def shapes(rec, k):
    if k == 0:
        data = ref.make_data(5, 3, 120, seed=3, a=2.5, model="gum")
    elif k == 1:    # data of a cumulative model
        data = ref.make_data(5, 3, 100, seed=3)
    elif k == 2:    # identical items
        data = ref.make_data(4, 3, 80, seed=5, model="gum")
        data[3] = data[0]
    elif k == 3:
        data = ref.make_data(6, 3, 200, seed=6, missing=0.5, model="gum")
    elif k > 8:
        n, cats, persons = WIDE[k - 9]
        data = ref.make_data(n, cats, persons, seed=k, missing=0.1, model="gum")
    elif k > 4:     # items with categories hardly used: thresholds go to their bounds
        data = ref.make_data(4, 3, 150, seed=k - 5, model="gum")
        hi, lo = data.max(), data.min()
        data[1], data[2] = hi, lo
        data[1, [3, 77]], data[1, 9] = lo, lo + 1
        data[2, [5, 60]], data[2, 11] = hi, lo + 1
    else:           # gaps between the codes, different first codes
        data = ref.make_data(4, 4, 90, seed=8, model="gum")
        data[1] = np.array([0, 2, 3, 7, 11])[data[1]]
        data[2] += 5
    settled(rec, data, {}, ("shape", k))
