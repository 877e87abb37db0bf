"""Mixed Bayesian / marginal estimation: posterior means of the discriminations."""
import itertools

import numpy as np
from scipy import stats

import girth
from mc import menus, mml, ref

LEVEL = "exploration"
RULE = ("every count vector in {1,3} over the patterns of 3 two-valued items (one option set each), every single added "
        "pattern with missing answers, and a menu of items x categories (up to 11) x missing x quadrature x hyper quadrature x "
        "distribution estimation; iteration bounds 2..6 on some; unusual data sets (ref.unusual: more items than persons, negative and large codes, rare categories, mostly missing answers, lopsided, doubled items, persons without answers); "
        "distinct by data and options; every case is non-trivial")
ASSUMPTIONS = ["thresholds at candidate discriminations are computed exactly; where a proportion falls outside the table "
               "either saturation end is accepted (findings of P04)",
               "the prior scale counts an item once per category, which the existing tests pin (listed finding)"]
M = ref.MISSING
CONFIGS = [(3, 2, 40), (5, 2, 120), (4, 3, 80), (4, [2, 3, 4, 2], 90), (8, 2, 60), (3, 5, 150)]
# many categories, persons or items: items x categories x persons
WIDE = [(4, 7, 150), (3, 11, 200), (5, [2, 11, 3, 7, 5], 180), (3, 3, 1100), (30, 2, 130)]


def cases(tier):
    out = []
    for lead in itertools.product((1, 3), repeat=4):
        out.append((f"counts-{''.join(map(str, lead))}", ["counts", list(lead), tier]))
    for p in range(9):
        out.append((f"missing-{p}", ["missing", p]))
    for c in range(len(CONFIGS)):
        for k, q in enumerate(menus.PROPER):
            out.append((f"menu-{c}-{q[0]}", ["menu", c, q[0], k]))
    for c in range(len(CONFIGS)):
        for h in (8, 13, 21, 60):
            out.append((f"hyper-{c}-{h}", ["hyper", c, h]))
        out.append((f"iter-{c}", ["iter", c]))
    for c in (1, 2):
        for n in (5, 9):
            out.append((f"latent-{c}-{n}", ["latent", c, n]))
    out.append(("scale-once", ["once"]))
    for name in ref.UNUSUAL:
        out.append((f"unusual-{name}", ["unusual", name]))
    for k in range(len(WIDE)):
        out.append((f"wide-{k}", ["wide", k]))
    return out


class Reference:
    def __init__(self, data, opts, weight=None):
        self.pb = mml.Problem(data, opts, weight)
        n = (opts or {}).get("hyper_quadrature_n", 41)
        self.nodes, self.w = ref.legendre(n, 0.25, 5)
        self.snodes, sw = ref.legendre(n, 0.1, 5)
        self.sw = sw * stats.lognorm(s=0.25).pdf(self.snodes)
        self.th_nodes, self.outside = {}, {}

    def node_thresholds(self, i):
        """Two versions: right and wrong end outside the table."""
        if i not in self.th_nodes:
            right, wrong, outside = [], [], []
            for a in self.nodes:
                r, w, ok_all = [], [], True
                for p in self.pb.props[i]:
                    b, ok = ref.threshold(a, p, self.pb.th, self.pb.weight)
                    ok_all &= ok
                    r.append(b)
                    w.append(b if ok else -b)
                right.append(r)
                wrong.append(w)
                outside.append(not ok_all)
            self.th_nodes[i] = (np.array(right), np.array(wrong))
            self.outside[i] = np.array(outside)
        return self.th_nodes[i]

    def table(self, a, b):
        """Wrong-end thresholds are out of order: differences as they are."""
        top = [np.ones_like(self.pb.th)] + [ref.expit(a * (self.pb.th - x)) for x in b] + [np.zeros_like(self.pb.th)]
        return np.array([top[k] - top[k + 1] for k in range(len(b) + 1)])

    def posterior_means(self, tables, i, scale):
        """Mean discrimination of item i under both versions, and the largest
        posterior weight of candidates outside the table."""
        rest = self.pb.rest(tables, i)
        out, lost = [], 0.0
        for version in self.node_thresholds(i):
            ll = []
            for a, b in zip(self.nodes, version):
                like = (rest * ref.factor(self.table(a, b), self.pb.codes[i])).sum(axis=1)
                ll.append(np.log(np.maximum(like, 1e-313)) @ self.pb.counts)
            ll = np.array(ll)
            post = np.exp(ll - ll.max()) * stats.rayleigh(loc=0.25, scale=scale).pdf(self.nodes) * self.w
            out.append((post @ self.nodes) / post.sum())
            lost = max(lost, post[self.outside[i]].sum() / post.sum())
        return out, lost

    def scale(self, a, times):
        lp = np.array([(times * np.log(stats.rayleigh(loc=0.25, scale=s).pdf(a) + 1e-313)).sum() for s in self.snodes])
        post = np.exp(lp - lp.max()) * self.sw
        return (post @ self.snodes) / post.sum()


def judge(rec, data, got, opts, previous_scale, converged, tag, two=False):
    weight = None
    info = dict(data=data if data.size < 200 else data.shape, options={k: v for k, v in opts.items() if k != "distribution"})
    if opts.get("estimate_distribution"):
        th, w = ref.legendre(opts.get("quadrature_n", 41), *opts.get("quadrature_bounds", (-4.5, 4.5)))
        weight = got["LatentPDF"].cubic_splines[-1](th) * w
    rf = Reference(data, opts, weight)
    pb = rf.pb
    a, b = np.asarray(got["Discrimination"]), np.asarray(got["Difficulty"])
    if two:
        if not rec.check(b.shape == (pb.n_items,), "one difficulty per item", shape=b.shape, **info):
            return
        b = b[:, None]
    if not rec.check(a.shape == (pb.n_items,) and b.shape == (pb.n_items, pb.sizes.max() - 1), "shapes of the estimates",
                     shapes=[a.shape, b.shape], **info):
        return
    if not rec.check((a > 0.25).all() and (a < 5).all(), "discrimination within the support of its prior", a=a, **info):
        return
    for i in range(pb.n_items):
        k = pb.sizes[i] - 1
        rec.check(np.isfinite(b[i, :k]).all() and np.isnan(b[i, k:]).all(), "unused thresholds are NaN", item=i, b=b[i], **info)
        exact, ok = pb.thresholds(a[i], i)
        if ok and pb.thresholds(max(a[i] - 0.01, 0.15), i)[1]:
            slack = 3e-4 + 1.5 * pb.lut_slack(a[i], i, exact)
            rec.check((np.abs(exact - b[i, :k]) <= slack).all(), "thresholds reproduce the observed proportions", item=i,
                      discrimination=a[i], got=b[i], want=exact, **info)
    tables = [rf.table(a[i], b[i, :pb.sizes[i] - 1]) for i in range(pb.n_items)]
    scale = got["Rayleigh_Scale"]
    want = rf.scale(a, pb.sizes)
    rec.check(np.ndim(scale) == 0 and abs(scale - want) < 1e-6, "the prior scale is its posterior mean", got=scale, want=want,
              discrimination=a, **info)
    for i in range(pb.n_items):
        last = i == pb.n_items - 1
        if not converged and not last:
            continue
        means, lost = rf.posterior_means(tables, i, previous_scale if previous_scale is not None else scale)
        tol = 1.5e-3 if last else 4e-3
        if lost > 1e-3:
            rec.count("left_to_findings")
            continue
        rec.check(min(abs(a[i] - m) for m in means) < tol, "a discrimination is the mean of its posterior", item=i, got=a[i],
                  want=means, converged=bool(converged), **info)
        rec.count("posterior_means")
    rec.key(tag, np.round(a, 3), data.shape)


def estimate(rec, data, opts, two):
    rec.count("evaluations")
    return (girth.twopl_mml_eap if two else girth.grm_mml_eap)(data, opts)


def settled(rec, data, opts, two, tag, most=60):
    o = {"max_iteration": most, **opts}
    got = estimate(rec, data, o, two)
    again = estimate(rec, data, {**o, "max_iteration": most + 1}, two)
    converged = ref.close(got["Discrimination"], again["Discrimination"], 1e-12)
    rec.count("converged", converged)
    judge(rec, data, got, o, None, converged, tag, two) if converged else rec.count("not_converged")
    return got


def run(payload, rec):
    kind = payload[0]
    if kind == "counts":
        pats = ref.all_patterns(3, (0, 1))
        menu = list(itertools.product((1, 3), repeat=4))
        for k, tail in enumerate(menu):
            counts = payload[1] + list(tail)
            if payload[2] == "quick" and sum(counts) % 8:
                continue
            settled(rec, ref.expand(pats, counts), {}, True, "counts")
    elif kind == "missing":
        base = ref.expand(ref.all_patterns(3, (0, 1)), [2, 1, 1, 1, 1, 2, 1, 3])
        for extra in ref.all_patterns(3, (0, 1, M))[payload[1]::9]:
            data = ref.expand([tuple(c) for c in base.T] + [extra], [1] * base.shape[1] + [3])
            settled(rec, data, {"hyper_quadrature_n": 21}, True, "missing")
    elif kind == "menu":
        _, c, q, k = payload
        n, cats, persons = CONFIGS[c]
        for miss in (0.0, 0.2):
            data = ref.make_data(n, cats, persons, seed=c, missing=miss)
            got = settled(rec, data, {**menus.proper(q), "hyper_quadrature_n": 31}, cats == 2 and k % 2 == 0, (c, q))
            rec.sample(config=CONFIGS[c], options=q, scale=got["Rayleigh_Scale"], discrimination=got["Discrimination"])
    elif kind == "hyper":
        _, c, h = payload
        n, cats, persons = CONFIGS[c]
        data = ref.make_data(n, cats, persons, seed=c + 30)
        settled(rec, data, {"hyper_quadrature_n": h}, False, (c, h))
    elif kind == "iter":
        n, cats, persons = CONFIGS[payload[1]]
        data = ref.make_data(n, cats, persons, seed=payload[1] + 40, missing=0.1)
        scale, last, results = None, None, []
        for k in range(1, 8):
            o = {"max_iteration": k}
            got = estimate(rec, data, o, False)
            if last is not None:
                final = ref.close(last["Discrimination"], got["Discrimination"], 1e-12)
                judge(rec, data, got, o, scale if not final else None, final, ("iter", k))
            scale, last = got["Rayleigh_Scale"], got
            results.append(got["Discrimination"])
        for k in range(1, 6):
            moved = np.abs(results[k] - results[k - 1]).max()
            if 0 < moved < 1e-3:
                rec.check(ref.close(results[k], results[k + 1], 1e-12), "it stops once settled", k=k + 1)
            if moved > 1.1e-3:
                rec.check(not ref.close(results[k], results[k + 1], 1e-12), "it goes on until settled", k=k + 1)
        deflt = estimate(rec, data, None, False)["Discrimination"]
        rec.check(ref.close(deflt, estimate(rec, data, {"max_iteration": 25}, False)["Discrimination"], 1e-12),
                  "25 iterations by default")
    elif kind == "latent":
        _, c, samples = payload
        n, cats, persons = CONFIGS[c]
        data = ref.make_data(n, cats, persons, seed=c + 20)
        settled(rec, data, {"estimate_distribution": True, "number_of_samples": samples, "hyper_quadrature_n": 21}, False,
                (c, samples), most=30)
    elif kind == "wide":
        n, cats, persons = WIDE[payload[1]]
        settled(rec, ref.make_data(n, cats, persons, seed=payload[1], missing=0.1), {"hyper_quadrature_n": 21}, False, ("wide", payload[1]))
    elif kind == "unusual":
        for two in (False, True):
            data = ref.unusual(payload[1], two=two)
            if data is not None:
                settled(rec, data, {"hyper_quadrature_n": 21}, two, payload)
    elif kind == "once":
        data = ref.make_data(5, 2, 120, seed=3)
        got = estimate(rec, data, {}, True)
        rf = Reference(data, {})
        once = rf.scale(got["Discrimination"], 1)
        if abs(once - got["Rayleigh_Scale"]) > 1e-3:
            rec.fail("the prior scale counts each item once", sig="once-per-category", got=got["Rayleigh_Scale"], want=once)
