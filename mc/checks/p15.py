"""Three-parameter marginal estimation."""
import itertools

import numpy as np

import girth
from mc import local, menus, mml, ref

LEVEL = "exploration"
RULE = ("every count vector in {1,4} over the patterns of 3 items (quick: the half with an even number of 4s), every added "
        "pattern with missing answers, a menu of items x seeds x guessing x missing x quadrature and distribution options, and "
        "every iteration bound up to 6; unusual data sets (ref.unusual: more items than persons, negative and large codes, rare categories, mostly missing answers, lopsided, doubled items, persons without answers); "
        "one evaluation is one estimation; distinct by data and options; non-trivial when "
        "some guessing parameter is above 0")
ASSUMPTIONS = ["an item counts as optimal when neither steps of 0.1/0.25 (discrimination) or 0.05/0.1 (guessing) nor an "
               "independent ascent along the proportion curve gains 0.02 per hundred persons with a shift above 0.05 (0.2 with guessing at "
               "a bound, where the optimiser has no usable slope)"]
M = ref.MISSING
CONFIGS = [(3, 60), (4, 120), (5, 100), (6, 150), (8, 200), (5, 400), (3, 1100), (30, 120)]


def cases(tier):
    out = []
    for lead in itertools.product((1, 4), repeat=4):
        out.append((f"counts-{''.join(map(str, lead))}", ["counts", list(lead), tier]))
    for p in range(9):
        out.append((f"missing-{p}", ["missing", p]))
    for c in range(len(CONFIGS)):
        for q in menus.PROPER:
            if c > 5 and tier == "quick" and q[0] not in ("default", "odd"):
                continue
            out.append((f"menu-{c}-{q[0]}", ["menu", c, q[0]]))
        for s in range(1, 3 if tier == "quick" else 40):
            if c < 6 or tier == "thorough":
                out.append((f"seeds-{c}-{s}", ["seeds", c, s]))
        if c < 6:
            out.append((f"iter-{c}", ["iter", c]))
    for name in ref.UNUSUAL:
        if ref.unusual(name, two=True) is not None:
            out.append((f"unusual-{name}", ["unusual", name]))
    for k in range(5):
        out.append((f"shape-{k}", ["shape", k]))
    return out


def make(n, persons, seed, missing=0.0, guess=0.2, a=1.8):
    data = ref.make_data(n, 2, persons, seed=seed, missing=missing, a=a)
    rng = np.random.default_rng(seed)
    rate = np.where(np.arange(n) % 3 == 2, 0, guess)
    data[(rng.random(data.shape) < rate[:, None]) & (data == 0)] = 1
    for i in range(n):
        if not (data[i] == 0).any():
            data[i, :2] = 0
    return data


def judge(rec, data, got, opts, converged, tag):
    info = dict(data=data if data.size < 200 else data.shape,
                options={k: v for k, v in opts.items() if k != "distribution"})
    pb = mml.Problem(data, opts)
    n = pb.n_items
    a, b, c = (np.asarray(got[k]) for k in ("Discrimination", "Difficulty", "Guessing"))
    if not rec.check(a.shape == b.shape == c.shape == (n,), "one of each per item", **info):
        return None
    e = 1e-6
    if not rec.check((a >= .25 - e).all() and (a <= 4 + e).all() and (c >= -e).all() and (c <= .33 + e).all(),
                     "estimates within their bounds", a=a, c=c, **info):
        return None
    p = np.array([(pb.props[i][0] - c[i]) / (1 - c[i]) for i in range(n)])
    for i in range(n):
        want, ok = ref.threshold(a[i], p[i], pb.th, pb.weight)
        rec.check(abs(b[i] - want) < (2e-3 if abs(want) < 5.9 else 0.02), "the difficulty reproduces the proportion right",
                  item=i, got=b[i], want=want, discrimination=a[i], guessing=c[i], **info)
    tables = [ref.p2(a[i], b[i], pb.th, c[i]) for i in range(n)]
    tol = 0.02 * max(1.0, pb.n_persons / 100)
    converged = converged and ((a > .26) & (a < 3.99)).any()
    for i in range(n):
        if not converged and i < n - 1:
            continue
        rest = pb.rest(tables, i)

        def f(x):
            bb, _ = ref.threshold(x[0], (pb.props[i][0] - x[1]) / (1 - x[1]), pb.th, pb.weight)
            return pb.item_ll(rest, ref.p2(x[0], bb, pb.th, x[1]), i)
        bad = local.better_point(lambda y: f([y[0], y[1] / 2]), [a[i], 2 * c[i]], [.25, 0], [4, .66], tol)
        if bad is not None and not 1e-4 < c[i] < .3299 and not .2501 < a[i] < 3.999:
            bad = None          # stuck in a corner
        elif bad is not None and not 1e-4 < c[i] < .3299:
            # the optimiser sticks to a guessing bound: coarser there, and
            # exact for the discrimination alone
            bad = (local.better_point(lambda y: f([y[0], y[1] / 2]), [a[i], 2 * c[i]], [.25, 0], [4, .66], 10 * tol) or
                   local.better_point(lambda y: f([y[0], c[i]]), [a[i]], [.25], [4], tol))
        rec.check(bad is None, "an item's parameters can be improved", item=i, parameters=[a[i], b[i], c[i]], better=bad, **info)
    if (c > 0.01).any():
        rec.key(tag, data if data.size < 400 else data.sum(axis=0), np.round(a, 2))
    return pb.ll(tables)


def estimate(rec, data, opts):
    rec.count("evaluations")
    return girth.threepl_mml(data, opts)


def same(x, y, tol=1e-12):
    return all(ref.close(x[k], y[k], tol) for k in ("Discrimination", "Difficulty", "Guessing"))


def settled(rec, data, opts, tag, most=100):
    o = {"max_iteration": most, **opts}
    got = estimate(rec, data, o)
    converged = same(got, estimate(rec, data, {**o, "max_iteration": most + 1}))
    rec.count("converged", converged)
    judge(rec, data, got, o, converged, tag)


def run(payload, rec):
    kind = payload[0]
    if kind == "counts":
        pats = ref.all_patterns(3, (0, 1))
        for tail in itertools.product((1, 4), repeat=4):
            counts = payload[1] + list(tail)
            if payload[2] == "quick" and counts.count(4) % 2:
                continue
            settled(rec, ref.expand(pats, counts), {}, "counts", most=40)
    elif kind == "missing":
        pats = ref.all_patterns(3, (0, 1))
        base = ref.expand(pats, [4, 1, 1, 2, 1, 2, 2, 5])
        for extra in ref.all_patterns(3, (0, 1, M))[payload[1]::9]:
            data = ref.expand([tuple(x) for x in base.T] + [extra], [1] * base.shape[1] + [3])
            settled(rec, data, {}, "missing", most=60)
    elif kind == "menu":
        _, c, q = payload
        n, persons = CONFIGS[c]
        for miss in (0.0, 0.2):
            settled(rec, make(n, persons, c, miss), menus.proper(q), (c, q))
    elif kind == "seeds":
        _, c, s = payload
        n, persons = CONFIGS[c]
        for miss in (0.0, 0.3):
            settled(rec, make(n, persons, 100 * c + s, miss, guess=0.1 + 0.1 * (s % 3)), {}, (c, s, miss))
    elif kind == "iter":
        iterations(rec, payload[1])
    elif kind == "unusual":
        settled(rec, ref.unusual(payload[1], two=True), {}, payload)
    elif kind == "shape":
        shapes(rec, payload[1])


def iterations(rec, c):
    n, persons = CONFIGS[c]
    data = make(n, persons, c + 5, 0.1)
    pb = mml.Problem(data)
    results, lls = [], []
    ks = [1, 2, 3, 4, 5, 6, 24, 25, 26]
    for k in ks:
        o = {"max_iteration": k}
        got = estimate(rec, data, o)
        lls.append(judge(rec, data, got, o, bool(results) and same(got, results[-1]), (c, k)))
        results.append(got)
        if len(lls) > 1 and None not in lls[-2:]:
            rec.check(lls[-1] >= lls[-2] - 0.01, "an iteration lowers the marginal likelihood", k=k, ll=lls[-2:])
    rec.check(same(estimate(rec, data, {}), results[ks.index(25)]), "25 iterations by default")
    for k in range(1, 5):
        moved = np.abs(results[k]["Discrimination"] - results[k - 1]["Discrimination"]).max()
        rec.check(moved < 0.02 or not same(results[k], results[k + 1]), "it stops while still moving", k=k + 1, moved=moved)
    start = pb.ll([ref.p2(1.0, ref.threshold(1.0, pb.props[i][0], pb.th, pb.weight)[0], pb.th) for i in range(n)])
    rec.check(None in lls or lls[-1] >= start - 0.02, "worse than unit discriminations without guessing", ll=[start, lls[-1]])
    rec.sample(config=CONFIGS[c], marginal_likelihoods=lls)


def shapes(rec, k):
    if k == 0:      # steep and much guessing: upper bounds
        data = make(5, 300, 3, guess=0.5, a=5.0)
    elif k == 1:    # an inverted item: smallest discrimination
        data = make(5, 120, 4)
        data[1] = 1 - data[1]
    elif k == 2:    # few right answers on one item
        data = make(5, 200, 5)
        data[3] = 0
        data[3, np.argsort(data.sum(axis=0))[-8:]] = 1
    elif k == 3:    # little overlap
        data = make(6, 250, 6, missing=0.55)
    else:           # identical items
        data = make(4, 100, 7)
        data[3] = data[0]
    settled(rec, data, {}, ("shape", k))
