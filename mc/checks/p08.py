"""How the answers are listed does not matter: relations between two runs."""
import itertools

import numpy as np

import girth
from mc import local, mml, ref

LEVEL = "exploration"
RULE = ("every estimator x data sets (complete, with missing answers) x every transformation of the menu: all arrangements of four "
        "blocks of persons, a person without answers at every tenth position, every person twice and three times, codes "
        "shifted, items rearranged, an item listed twice; long tests whose persons differ on one item, rearranged; one evaluation is one estimation related to that of the data as given; "
        "distinct by estimator, data and transformation")
ASSUMPTIONS = ["tolerances are several times the largest effect rounding and stopping had on the unmodified algorithms",
               "graded unfolding may reach another local maximum of the likelihood, as it starts at a saddle: a fit that "
               "differs is accepted when no item of it can be improved on the original data, or all discriminations are at their bound",
               "three parameter likelihoods have flat ridges: a fit that differs is accepted when its likelihood is the same within 0.005",
               "rearranging items is not judged for three parameter, unfolding and multidimensional models, whose items are "
               "not treated alike"]
CASE_SECONDS = 800
M = ref.MISSING
SMALL = {"quadrature_n": 11}
CONFIGS = [(5, 60), (4, 90), (7, 120)]


class Fit:
    """f(data); kinds: codes, missing answers; tolerances: order, twice, items (None: not judged), twins."""

    def __init__(self, f, model="grm", missing=True, order=1e-3, twice=5e-3, items=0.01, twins=0.01, slow=False):
        self.f, self.model, self.missing, self.slow = f, model, missing, slow
        self.tol = dict(order=order, twice=twice, items=items, twins=twins)


def loose(**k):
    return dict(order=0.01, slow=True, **k)


FITS = {
    "rasch_mml": Fit(girth.rasch_mml, "2"),
    "onepl_mml": Fit(girth.onepl_mml, "2"),
    "twopl_mml": Fit(girth.twopl_mml, "2"),
    "threepl_mml": Fit(girth.threepl_mml, "2", **loose(twice=0.02, items=None, twins=None)),
    "twopl_mml_eap": Fit(girth.twopl_mml_eap, "2", twice=None, items=0.01, twins=0.01, slow=True),
    "rasch_jml": Fit(girth.rasch_jml, "2"),
    "onepl_jml": Fit(girth.onepl_jml, "2"),
    "twopl_jml": Fit(girth.twopl_jml, "2", order=5e-3, twice=0.02, items=0.02, twins=0.02),
    "rasch_conditional": Fit(girth.rasch_conditional, "2", missing=False),
    "grm_mml": Fit(girth.grm_mml),
    "grm_mml_eap": Fit(girth.grm_mml_eap, twice=None, items=0.01, twins=0.01, slow=True),
    "pcm_mml": Fit(girth.pcm_mml, twice=0.02, items=0.04, twins=0.02, order=0.01),
    "gum_mml": Fit(girth.gum_mml, "gum", **loose(twice=0.02, items=None, twins=None)),
    "grm_jml": Fit(girth.grm_jml, order=5e-3, twice=0.06, items=0.02, twins=0.02, slow=True),
    "pcm_jml": Fit(girth.pcm_jml, order=5e-3, twice=0.06, items=0.02, twins=0.02, slow=True),
    "md_twopl": Fit(lambda d: girth.multidimensional_twopl_mml(d, 2, options=SMALL), "2", **loose(twice=0.03, items=None, twins=None)),
    "md_grm": Fit(lambda d: girth.multidimensional_grm_mml(d, 2, options=SMALL), **loose(twice=0.03, items=None, twins=None)),
    "twopl_latent": Fit(lambda d: girth.twopl_mml(d, options=dict(estimate_distribution=True, number_of_samples=5, max_iteration=8)), "2",
                        **loose(twice=0.05, items=0.25, twins=0.05)),
    "rasch_latent": Fit(lambda d: girth.rasch_mml(d, options=dict(estimate_distribution=True, number_of_samples=7)), "2",
                        **loose(twice=0.05, items=0.05, twins=0.05)),
    "grm_latent": Fit(lambda d: girth.grm_mml(d, options=dict(estimate_distribution=True, number_of_samples=7, max_iteration=10)),
                      **loose(twice=0.05, items=0.25, twins=0.05)),
}
BRIEF = {"max_iteration": 2}
LONG = {      # brief fits of long tests
    "rasch_mml": girth.rasch_mml, "onepl_mml": girth.onepl_mml,
    "twopl_mml": lambda d: girth.twopl_mml(d, options=BRIEF),
    "threepl_mml": lambda d: girth.threepl_mml(d, options=dict(max_iteration=1)),
    "twopl_mml_eap": lambda d: girth.twopl_mml_eap(d, options=BRIEF),
    "rasch_jml": girth.rasch_jml, "onepl_jml": lambda d: girth.onepl_jml(d, options=BRIEF),
    "twopl_jml": lambda d: girth.twopl_jml(d, options=BRIEF),
    "rasch_conditional": girth.rasch_conditional,
    "twopl_latent": lambda d: girth.twopl_mml(d, options=dict(estimate_distribution=True, number_of_samples=5, max_iteration=2)),
    "rasch_latent": lambda d: girth.rasch_mml(d, options=dict(estimate_distribution=True, number_of_samples=5, max_iteration=2)),
    "grm_mml": lambda d: girth.grm_mml(d, options=BRIEF), "grm_mml_eap": lambda d: girth.grm_mml_eap(d, options=BRIEF),
    "pcm_mml": lambda d: girth.pcm_mml(d, options=BRIEF), "grm_jml": lambda d: girth.grm_jml(d, options=BRIEF),
    "pcm_jml": lambda d: girth.pcm_jml(d, options=BRIEF),
}
ITEM_KEYS = ("Difficulty", "Discrimination", "Delta", "Tau", "Guessing", "Rasch", "Difficulties")


def cases(tier):
    out = []
    for n, fit in FITS.items():
        for c in range(len(CONFIGS) if tier == "thorough" else 1 if fit.slow else 2):
            for miss in (0, 1) if fit.missing else (0,):
                for s in range(1 if tier == "quick" or fit.slow else 3):
                    for part in ("order", "copies", "items"):
                        out.append((f"{n}-{c}-{miss}-{s}-{part}", [n, c, miss, s, part, tier]))
    for n in LONG:
        for size in (20, 38, 70) if tier == "quick" else (20, 38, 55, 70, 130):
            if n == "pcm_mml" and size > 20 or n in ("threepl_mml", "grm_jml", "pcm_jml", "grm_mml_eap", "twopl_mml_eap") and size > 38:
                continue
            out.append((f"{n}-long-{size}", [n, "long", size]))
    return out


def families(n, cats):
    """Persons in groups that differ on one item only: the first, one inside, the last."""
    base = ref.make_data(n, cats, 14, seed=n, missing=0.0)
    low, high = base.min(), base.max()
    cols = []
    for k, p in enumerate(base.T):
        cols += [p, p]
        for i in (0, n - 1, (5 * k + 1) % n, n // 2):
            q = p.copy()
            q[i] = high if p[i] == low else low
            cols.append(q)
    return np.array(cols).T


def long(rec, name, size):
    dichotomous = FITS[name].model == "2"
    data = families(size, 2 if dichotomous else 3)
    f = LONG[name]
    whole = f(data)
    want = estimates(whole)
    persons = data.shape[1]
    rec.count("evaluations")
    tol = FITS[name].tol["order"]
    twos = [data]
    if FITS[name].missing:          # a family with missing answers is one of its own
        gaps = data.copy()
        gaps[0, ::5], gaps[size - 1, 1::7], gaps[size // 2, ::4] = M, M, M
        twos.append(gaps)
    for j, x in enumerate(twos):
        if j:
            whole = f(x)
            want = estimates(whole)
        for tag, who in (("backwards", np.arange(persons)[::-1]),
                         ("interleaved", np.concatenate([np.arange(k, persons, 3) for k in (1, 0, 2)]))):
            got = f(x[:, who])
            rec.count("evaluations")
            rec.key(name, "long", size, j, tag)
            far = gap(want, estimates(got))
            info = dict(estimator=name, items=size, missing=bool(j), change=tag)
            rec.check(far <= tol, "persons rearranged: other item estimates", gap=far, **info)
            if "Ability" in whole:
                a, b = np.atleast_2d(whole["Ability"])[..., who], np.atleast_2d(got["Ability"])
                rec.check(a.shape == b.shape and np.abs(a - b).max() <= 10 * tol, "persons rearranged: abilities follow their persons", **info)


def data_for(fit, c, miss, seed):
    n, persons = CONFIGS[c]
    cats = 2 if fit.model == "2" else (3, [3, 2, 4, 3], 3)[c]
    return ref.make_data(n, cats, persons, seed=10 * c + seed, missing=0.15 * miss, model="gum" if fit.model == "gum" else "grm")


def estimates(got):
    return {k: np.asarray(got[k], dtype=float) for k in ITEM_KEYS if k in got}


def gap(a, b):
    out = 0.0
    for k in a:
        x, y = a[k], b.get(k)
        if y is None or x.shape != y.shape or (np.isnan(x) != np.isnan(y)).any():
            return np.inf
        good = ~np.isnan(x)
        out = max(out, float((np.abs(x - y)[good] / np.maximum(1, np.abs(x[good]))).max(initial=0)))
    return out


def optimum(data, got):
    """No item of an unfolding fit can be improved on data."""
    pb = mml.Problem(data, {})
    a, d, t = (np.asarray(got[k]) for k in ("Discrimination", "Delta", "Tau"))
    if (a < 0.26).all():        # nothing left to watch for it: it stops after two iterations
        return True
    if a.shape != (pb.n_items,) or t.shape != (pb.n_items, pb.sizes.max() - 1):
        return False
    tables = mml.gum_tables(pb, a, d, t)
    for i in range(pb.n_items):
        k = pb.sizes[i] - 1
        rest = pb.rest(tables, i)
        x = np.concatenate(([a[i], d[i]], t[i, :k]))
        if local.better_point(lambda x: pb.item_ll(rest, ref.gum(x[0], x[1], x[2:], pb.th), i), x,
                              [.25, -2] + [-6] * k, [4, 2] + [6] * k, 0.05) is not None:
            return False
    return True


def as_likely(data, base, got):
    """Two three parameter fits have the same likelihood on data (leaving out
    one person of 60 moves it by 0.025 or more, rounding by 0.001)."""
    pb = mml.Problem(data, {})

    def ll(e):
        tables = [ref.p2(a, b, pb.th, c) for a, b, c in zip(e["Discrimination"], e["Difficulty"], e["Guessing"])]
        return pb.item_ll(pb.rest(tables, 0), tables[0], 0)
    return abs(ll(base) - ll(got)) < 0.005


def run(payload, rec):
    if payload[1] == "long":
        return long(rec, payload[0], payload[2])
    name, c, miss, seed, part, tier = payload
    fit = FITS[name]
    data = data_for(fit, c, miss, seed)
    n, persons = data.shape

    def estimate(x):
        rec.count("evaluations")
        return fit.f(x)
    base = estimate(data)
    want = estimates(base)

    def relate(x, what, tol, tag, items=None, who=None):
        """The estimates of x are those of the data; items / who: where the items / persons of x come from."""
        if tol is None:
            return
        got = estimate(x)
        rec.key(name, c, miss, seed, tag)
        have = estimates(got)
        goal = want if items is None else {k: v[items] if v.ndim else v for k, v in want.items()}
        far = gap(goal, have)
        info = dict(estimator=name, config=CONFIGS[c], missing=bool(miss), seed=seed, change=tag)
        if far > tol:
            if name == "gum_mml" and optimum(data, got) or name == "threepl_mml" and as_likely(data, base, got):
                rec.count("other optimum")
                return
            return rec.fail(f"{what}: other item estimates", gap=far, want=goal, got=have, **info)
        if who is not None and "Ability" in base:
            a, b = np.atleast_2d(base["Ability"]), np.atleast_2d(got["Ability"])
            if not rec.check(b.shape == a.shape[:-1] + (len(who),), f"{what}: one ability per person", shape=b.shape, **info):
                return
            far = np.nan_to_num(np.abs(a[..., who] - b)).max()
            rec.check((np.isnan(a[..., who]) == np.isnan(b)).all() and far <= 10 * tol, f"{what}: abilities follow their persons",
                      gap=far, **info)

    if part == "order":
        blocks = np.array_split(np.arange(persons), 4)
        orders = list(itertools.permutations(range(4)))[1:]
        if fit.slow and tier == "quick":
            orders = [(1, 0, 2, 3), (1, 2, 3, 0), (3, 2, 1, 0)]
        for o in orders:
            who = np.concatenate([blocks[k] for k in o])
            relate(data[:, who], "persons rearranged", fit.tol["order"], o, who=who)
        who = np.concatenate([np.arange(k, persons, 3) for k in range(3)])
        relate(data[:, who], "persons rearranged", fit.tol["order"], "interleaved", who=who)
        relate(data[:, ::-1], "persons rearranged", fit.tol["order"], "backwards", who=np.arange(persons)[::-1])
        who = np.lexsort(data)      # all alike together, as a sort of the patterns lists them
        relate(data[:, who], "persons rearranged", fit.tol["order"], "sorted", who=who)
        if fit.model != "2":
            for k in (1, 7, -1, -3, 300):
                relate(np.where(data == M, M, data + k), "codes shifted", 1e-9, ("shift", k), who=np.arange(persons))
    elif part == "copies":
        for k in (2, 3):
            relate(np.tile(data, k), "every person several times", fit.tol["twice"], ("tile", k))
            relate(np.repeat(data, k, axis=1), "every person several times", fit.tol["twice"], ("repeat", k))
        if fit.missing:
            step = 30 if fit.slow and tier == "quick" else 10
            for pos in [*range(0, persons, step), persons]:
                relate(np.insert(data, pos, M, axis=1), "a person without answers", fit.tol["order"], ("empty", pos))
            relate(np.insert(data, [0, 3, 3, persons // 2, persons, persons], M, axis=1), "persons without answers", fit.tol["order"], "empty several")
    else:
        if fit.tol["items"]:
            orders = [np.roll(np.arange(n), k) for k in range(1, n)] + [np.arange(n)[::-1]]
            for o in orders:
                relate(data[o], "items rearranged", fit.tol["items"], ("items", o), items=o, who=np.arange(persons))
        if fit.tol["twins"]:
            for i, j in [(0, n - 1), (1, 2), (n - 1, 1)] if not fit.slow or tier == "thorough" else [(0, n - 1)]:
                x = data.copy()
                x[j] = x[i]
                got = estimates(estimate(x))
                rec.key(name, c, miss, seed, "twins", i, j)
                far = gap({k: v[i] for k, v in got.items() if v.ndim}, {k: v[j] for k, v in got.items() if v.ndim})
                rec.check(far <= fit.tol["twins"], "items answered alike get one estimate", gap=far, items=(i, j), got=got,
                          estimator=name, config=CONFIGS[c], missing=bool(miss), seed=seed)
