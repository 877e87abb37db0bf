"""2PL / graded marginal estimation: proportions, optimality, iterations."""
import itertools

import numpy as np

import girth
from mc import menus, mml, ref

LEVEL = "exploration"
RULE = ("every count vector of a bound over the response patterns of 3 two-valued items and 2 three-valued "
        "items, every single added pattern with missing answers, and a menu of items x categories (up to 11) x missing "
        "x quadrature x table use x distribution estimation; every iteration bound up to 10 on some; one "
        "evaluation is one estimation; distinct by data and options; non-trivial when an interior "
        "discrimination results; unusual data (ref.unusual: few persons, rare or odd codes, mostly missing, lopsided, doubled items) too")
ASSUMPTIONS = ["optimality is tested by steps of 0.01 and 0.1 in one discrimination along the proportion curve",
               "thresholds may differ from the exact ones by the interpolation error of a 500 x 500 table",
               "items whose proportions fall outside the tabulated range are left to the findings of P04"]
M = ref.MISSING
CONFIGS = [(3, 3, 60), (4, [2, 3, 4, 2], 80), (5, 4, 120), (4, [3, 2, 2, 5], 90), (6, 2, 50), (8, 2, 150)]
# many categories, persons or items: items x categories x persons
WIDE = [(4, 7, 150), (3, 11, 200), (5, [2, 11, 3, 7, 5], 180), (3, 3, 1100), (30, 2, 130)]


def cases(tier):
    out = []
    for lead in itertools.product((1, 3), repeat=4):
        out.append((f"counts-{''.join(map(str, lead))}", ["counts", list(lead)]))
    for k in range(9):
        out.append((f"poly2-{k}", ["poly2", k, tier]))
    for p in range(9):
        out.append((f"missing-{p}", ["missing", p]))
    for c in range(len(CONFIGS)):
        for q in menus.PROPER:
            out.append((f"menu-{c}-{q[0]}", ["menu", c, q[0], tier]))
    for c in range(len(CONFIGS)):
        for lut in (True, False):
            out.append((f"iter-{c}-{lut}", ["iter", c, lut]))
    for c in (0, 1, 5):
        for n in (5, 9, 12):
            for lut in (True, False):
                out.append((f"latent-{c}-{n}-{lut}", ["latent", c, n, lut]))
    for name in ref.UNUSUAL:
        out.append((f"unusual-{name}", ["unusual", name]))
    for k in range(8 + len(WIDE)):
        out.append((f"shape-{k}", ["shape", k]))
    if tier == "thorough":
        for lead in itertools.product((0, 1, 2), repeat=5):
            out.append((f"zcounts-{''.join(map(str, lead))}", ["zcounts", list(lead)]))
        for c in range(len(CONFIGS)):
            for s in range(1, 13):
                out.append((f"seeds-{c}-{s}", ["seeds", c, s]))
    return out


def judge(rec, data, got, opts, converged, tag, two=False):
    """All that must hold of one result."""
    info = dict(data=data if data.size < 200 else data.shape, options={k: v for k, v in opts.items() if k != "distribution"})
    weight = None
    if opts.get("estimate_distribution"):
        th, w = ref.legendre(opts.get("quadrature_n", 41), *opts.get("quadrature_bounds", (-4.5, 4.5)))
        weight = got["LatentPDF"].cubic_splines[-1](th) * w
    pb = mml.Problem(data, opts, weight)
    a, b = np.asarray(got["Discrimination"]), np.asarray(got["Difficulty"])
    if two:
        if not rec.check(b.ndim == 1 and b.size == pb.n_items, "one difficulty per item", shape=b.shape, **info):
            return None
        b = b[:, None]
    want = (pb.n_items, pb.sizes.max() - 1)
    if not rec.check(a.shape == (pb.n_items,) and b.shape == want, "shapes of the estimates", shapes=[a.shape, b.shape], **info):
        return None
    for i in range(pb.n_items):
        k = pb.sizes[i] - 1
        rec.check(np.isfinite(b[i, :k]).all() and np.isnan(b[i, k:]).all(), "unused thresholds are NaN, others numbers",
                  item=i, difficulty=b[i], **info)
        rec.check((np.diff(b[i, :k]) > 0).all(), "thresholds ascend", item=i, difficulty=b[i], **info)
    if not rec.check((a >= 0.2 - 1e-9).all() and (a <= 5 + 1e-9).all(), "discrimination within bounds", a=a, **info):
        return None
    inside = []
    for i in range(pb.n_items):
        exact, ok = pb.thresholds(a[i], i)
        lut = opts.get("use_LUT", True)
        if lut and ok:      # both neighbouring rows of the table hold it
            ok = pb.thresholds(max(a[i] - 0.01, 0.15), i)[1]
        inside.append(ok)
        if not ok and lut:
            continue
        slack = 3e-4 + (1.5 * pb.lut_slack(a[i], i, exact) if lut else 0)
        rec.check((np.abs(exact - b[i, :pb.sizes[i] - 1]) <= slack).all(), "thresholds reproduce the observed proportions",
                  item=i, discrimination=a[i], got=b[i], want=exact, **info)
    tables = mml.grm_tables(pb, a, b)
    for i in range(pb.n_items):
        if not converged and i < pb.n_items - 1:
            continue
        rest = pb.rest(tables, i)

        def f(x):
            bx, ok = pb.thresholds(x, i)
            if not ok and opts.get("use_LUT", True):
                return -np.inf
            return pb.item_ll(rest, ref.grm(x, bx, pb.th), i)
        if not inside[i]:
            continue
        tol = 2e-6 * max(1.0, pb.n_persons / 20)
        better = mml.improvable(f, a[i], (0.01, 0.1), 0.2, 5.0, tol)
        rec.check(better is None, "a discrimination can be improved along the proportion curve", item=i,
                  discrimination=a, gain_step=better, **info)
    if ((a > 0.25) & (a < 4.9)).any():
        rec.key(tag, data if data.size < 400 else data.sum(axis=0), np.round(a, 3))
    return mml.Problem.ll(pb, tables)


def estimate(rec, data, opts, two=False):
    rec.count("evaluations")
    return (girth.twopl_mml if two else girth.grm_mml)(data, opts)


def same(x, y, tol):
    return (ref.close(x["Discrimination"], y["Discrimination"], tol) and
            ref.close(x["Difficulty"], y["Difficulty"], tol))


def settled(rec, data, opts, two=False, most=300, tag=None):
    """Estimates with room to converge and judges the result."""
    o = {"max_iteration": most, **opts}
    got = estimate(rec, data, o, two)
    again = estimate(rec, data, {**o, "max_iteration": most + 1}, two)
    converged = same(got, again, 1e-12)
    rec.count("converged", converged)
    judge(rec, data, got, o, converged, tag, two)
    return got


def run(payload, rec):
    kind = payload[0]
    if kind == "counts":
        pats = ref.all_patterns(3, (0, 1))
        for tail in itertools.product((1, 3), repeat=4):
            counts = payload[1] + list(tail)
            data = ref.expand(pats, counts)
            settled(rec, data, {"use_LUT": bool(sum(counts) % 4)}, two=True, tag="counts")
    elif kind == "zcounts":
        pats = ref.all_patterns(3, (0, 1))
        for tail in itertools.product((0, 1, 2), repeat=3):
            counts = payload[1] + list(tail)
            if not sum(counts):
                continue
            data = ref.expand(pats, counts)
            if any(np.unique(r).size < 2 for r in data):
                continue
            settled(rec, data, {"use_LUT": bool(sum(counts) % 2)}, two=True, tag="zcounts", most=100)
    elif kind == "poly2":
        pats = ref.all_patterns(2, (1, 2, 3))
        k = payload[1]
        menu = [(k, j) for j in range(k, 9)] + ([(k, j, m) for j in range(9) for m in range(9)] if payload[2] == "thorough" else [])
        for ups in menu:
            counts = np.array([5, 1, 1, 1, 4, 2, 1, 1, 6])
            for u in ups:
                counts[u] += 2
            settled(rec, ref.expand(pats, counts), {"use_LUT": len(set(ups)) > 1}, tag="poly2", most=100)
    elif kind == "missing":
        pats = ref.all_patterns(3, (0, 1))
        base = ref.expand(pats, [2, 1, 1, 1, 1, 2, 1, 3])
        for extra in ref.all_patterns(3, (0, 1, M))[payload[1]::9]:
            data = ref.expand([tuple(c) for c in base.T] + [extra], [1] * base.shape[1] + [3])
            settled(rec, data, {"use_LUT": extra[0] != 0}, two=True, tag="missing")
    elif kind == "menu":
        _, c, q, tier = payload
        n, cats, persons = CONFIGS[c]
        for miss in (0.0, 0.2):
            data = ref.make_data(n, cats, persons, seed=c, missing=miss)
            results = []
            for lut in (True, False):
                results.append(settled(rec, data, {**menus.proper(q), "use_LUT": lut}, tag=(c, q)))
            low = (results[1]["Discrimination"] < 0.4).any()
            rec.check(low or ref.close(results[0]["Discrimination"], results[1]["Discrimination"], 0.02, 0.02),
                      "the table changes the discrimination", got=[r["Discrimination"] for r in results])
    elif kind == "seeds":
        _, c, s = payload
        n, cats, persons = CONFIGS[c]
        for miss in (0.0, 0.1, 0.3):
            data = ref.make_data(n, cats, persons, seed=100 * c + s, missing=miss)
            settled(rec, data, {"use_LUT": bool(s % 2)}, tag=(c, s))
    elif kind == "iter":
        iterations(rec, payload[1], payload[2])
    elif kind == "latent":
        _, c, samples, lut = payload
        n, cats, persons = CONFIGS[c]
        data = ref.make_data(n, cats, persons, seed=c + 20)
        settled(rec, data, {"estimate_distribution": True, "number_of_samples": samples, "use_LUT": lut},
                most=40, tag=(c, samples))
    elif kind == "unusual":
        for two in (False, True):
            data = ref.unusual(payload[1], two=two)
            if data is not None:
                settled(rec, data, {}, two=two, tag=payload)
                settled(rec, data, {"use_LUT": False}, two=two, tag=payload, most=60)
    elif kind == "shape":
        shapes(rec, payload[1])


def iterations(rec, c, lut):
    n, cats, persons = CONFIGS[c]
    data = ref.make_data(n, cats, persons, seed=c + 5, missing=0.1)
    last, lls, results = None, [], []
    for k in list(range(1, 11)) + [24, 25, 26, 60, 61]:
        o = {"max_iteration": k, "use_LUT": lut}
        got = estimate(rec, data, o)
        final = last is not None and same(got, last, 1e-12)
        lls.append(judge(rec, data, got, o, final, (c, k)))
        results.append(got)
        if last is not None and lls[-1] is not None and lls[-2] is not None:
            rec.check(lls[-1] >= lls[-2] - 1e-4, "an iteration lowers the marginal likelihood", k=k, ll=lls[-2:])
        last = got
    default = estimate(rec, data, {"use_LUT": lut})
    rec.check(same(default, results[11], 1e-12), "25 iterations by default")
    if not same(results[0], results[1], 1e-3):
        rec.count("iterations_seen")
    # a further iteration happens while some discrimination still moves by 1e-3
    for k in range(1, 10):
        moved = np.abs(results[k]["Discrimination"] - results[k - 1]["Discrimination"]).max()
        rec.check(moved < 0.02 or k == 9 or not same(results[k], results[k + 1], 1e-12), "it stops while still moving", k=k + 1, moved=moved)
        if 0 < moved < 1e-3:
            rec.check(same(results[k], results[k + 1] if k < 9 else results[-1], 1e-12), "it stops once settled", k=k + 1)
    rec.sample(config=CONFIGS[c], use_LUT=lut, marginal_likelihoods=lls[:6])


def shapes(rec, k):
    """Special patterns: strong, inverted, unrelated and repeated items, few
    answers per item, many items, gaps in the codes."""
    rng = np.random.default_rng(k)
    if k == 0:      # nearly a scale: large discriminations
        th = ref.quantiles(60)
        data = (th[None, :] > np.array([-1, -0.4, 0, 0.3, 0.9])[:, None]).astype(int)
        data[1, 4] ^= 1
        data[3, 9] ^= 1
    elif k == 1:    # inverted item: smallest discrimination
        data = ref.make_data(5, 2, 80, seed=3)
        data[2] = 1 - data[2]
    elif k == 2:    # unrelated item
        data = ref.make_data(5, 2, 100, seed=4)
        data[0] = np.arange(100) % 2
    elif k == 3:    # identical items
        data = ref.make_data(4, 3, 60, seed=5)
        data[3] = data[0]
    elif k == 4:    # each item answered by a third of the persons
        data = ref.make_data(6, 2, 150, seed=6)
        data[rng.random(data.shape) < 0.6] = M
    elif k == 5:    # many items
        data = ref.make_data(25, 3, 100, seed=7)
    elif k == 6:    # gaps between the codes, different first codes
        data = ref.make_data(4, 4, 90, seed=8)
        data[1] = np.array([0, 2, 3, 7, 11])[data[1]]
        data[2] += 5
    elif k > 7:
        n, cats, persons = WIDE[k - 8]
        data = ref.make_data(n, cats, persons, seed=k, missing=0.1)
    else:           # extreme proportions
        data = ref.make_data(5, 2, 200, seed=9, a=1.5)
        data[0] = 0
        data[0, np.argsort(data.sum(axis=0))[-3:]] = 1
        data[4] = 1
        data[4, np.argsort(data.sum(axis=0))[:2]] = 0
    for lut in (True, False):
        settled(rec, data, {"use_LUT": lut}, two=data.max() == 1, tag=("shape", k), most=100)
