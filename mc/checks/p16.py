"""Abilities and information criteria belong to the reported parameters."""
import itertools

import numpy as np

import girth
from mc import menus, mml, ref

LEVEL = "exploration"
RULE = ("every marginal method that reports abilities or criteria x data sets x missing answers x quadrature and "
        "distribution options x distribution estimation x iteration bounds; one evaluation is one estimation; "
        "distinct by method, data and options; non-trivial when two persons differ in ability")
ASSUMPTIONS = ["with distribution estimation at least two iterations are made (after one, the given distribution is in use)"]
M = ref.MISSING
METHODS = ["twopl_mml", "grm_mml", "pcm_mml", "gum_mml", "twopl_mml_eap", "grm_mml_eap",
           "multidimensional_twopl_mml", "multidimensional_grm_mml"]
CONFIGS = [(3, 3, 40), (4, [2, 3, 4, 2], 60), (5, 2, 50), (4, [3, 2, 2, 5], 80), (30, 2, 70), (3, 3, 1100), (3, 9, 120)]


def cases(tier):
    out = []
    for m in METHODS:
        md = m.startswith("multi")
        for c in range(len(CONFIGS)):
            if "twopl" in m and c not in (2, 4):
                continue
            for q in menus.PROPER:
                if c > 3 and tier == "quick" and q[0] not in ("default", "odd"):
                    continue
                if md and q[0] not in ("default", "few", "skew", "narrow"):
                    continue
                if "eap" in m and tier == "quick" and q[0] not in ("default", "few", "skew", "odd"):
                    continue
                out.append((f"{m}-{c}-{q[0]}", ["fit", m, c, q[0], tier]))
            if not md:
                for n in (5, 7, 9) if tier == "quick" else (5, 6, 7, 8, 9, 11, 13):
                    if c > 3 and (n != 7 or "eap" in m) and tier == "quick":
                        continue
                    if n == 9 and "eap" in m and tier == "quick":
                        continue
                    out.append((f"{m}-{c}-latent-{n}", ["latent", m, c, n]))
    return out


def reorder(data, tier):
    """Variants whose order of persons matters for the abilities."""
    yield "sorted", data[:, np.lexsort(data)]
    yield "mixed", data[:, ::-1]
    # someone who answered nothing
    none = np.full((data.shape[0], 1), M)
    yield "empty", np.concatenate([data[:, :3], none, data[:, 3:]], axis=1)


def judge(rec, method, data, opts, got, factors=None):
    info = dict(method=method, data=data.shape, options={k: v for k, v in opts.items() if k != "distribution"})
    codes, sizes = ref.coded(data)
    n, persons = codes.shape
    th, weight = ref.latent(opts)
    null = weight
    free = 0
    if opts.get("estimate_distribution"):
        lo_hi = opts.get("quadrature_bounds", (-4.5, 4.5))
        w = ref.legendre(opts.get("quadrature_n", 41), *lo_hi)[1]
        weight = got["LatentPDF"].cubic_splines[-1](th) * w
        free = opts.get("number_of_samples", 9) - 3
    a = np.asarray(got["Discrimination"])
    if method != "gum_mml":
        b = np.asarray(got["Difficulty"])
        b = b[:, None] if b.ndim == 1 else b
    if factors:
        pts = np.array(list(itertools.product(th, repeat=factors))).T
        weight = np.array([np.prod(x) for x in itertools.product(weight, repeat=factors)])
        tables = [ref.grm_md(a[i], b[i][:sizes[i] - 1], pts) for i in range(n)]
        th = pts
    else:
        if method == "gum_mml":
            d, t = got["Delta"], got["Tau"]
            tables = [ref.gum(a[i], d[i], t[i][:sizes[i] - 1], th) for i in range(n)]
        else:
            make = ref.pcm if method == "pcm_mml" else ref.grm
            tables = [make(a[i], b[i][:sizes[i] - 1], th) for i in range(n)]
    lik = ref.likelihood(tables, codes)
    post = lik * weight
    want = (np.atleast_2d(th) @ post.T) / post.sum(axis=1)
    want = want if factors else want[0]
    rec.check(ref.close(got["Ability"], want, 1e-7, 1e-7), "abilities are not the posterior means under the reported parameters",
              got=np.asarray(got["Ability"]).ravel()[:6], want=want.ravel()[:6], **info)
    ll = np.log(post.sum(axis=1)).sum()
    aic, bic = 2 * (free - ll), free * np.log(persons) - 2 * ll
    if factors:
        rec.check(abs(got["LL"] - ll) < 1e-6 and abs(got["AIC"] - aic) < 1e-6 and abs(got["BIC"] - bic) < 1e-6,
                  "log likelihood, AIC or BIC is not that of the reported parameters",
                  got=[got["LL"], got["AIC"], got["BIC"]], want=[ll, aic, bic], **info)
    else:
        ll0 = np.log((lik * null).sum(axis=1)).sum()
        for name, final in (("AIC", aic), ("BIC", bic)):
            g = got[name]
            rec.check(set(g) == {"final", "null", "delta"}, "a criterion lacks an entry", got=g, **info)
            rec.check(abs(g["final"] - final) < 1e-6 and abs(g["null"] + 2 * ll0) < 1e-6 and
                      abs(g["delta"] - (g["null"] - g["final"])) < 1e-9,
                      f"{name} is not that of the reported parameters", got=g, want=[final, -2 * ll0], **info)
    if np.ptp(want) > 0.1:
        rec.key(method, data.sum(axis=0), sorted(map(str, info["options"].items())), round(float(ll), 3))


def run(payload, rec):
    kind, method, c = payload[:3]
    n, cats, persons = CONFIGS[c]
    call = getattr(girth, method, None) or getattr(girth.multidimensional, method)
    md = method.startswith("multi")
    for miss in (0.0, 0.2):
        base = ref.make_data(n, cats, persons, seed=c + 31, missing=miss, model="gum" if method == "gum_mml" else "grm")
        if kind == "latent":
            for k in (2, 5):
                o = {"estimate_distribution": True, "number_of_samples": payload[3], "max_iteration": k}
                rec.count("evaluations")
                judge(rec, method, base, o, call(base, options=o))
            continue
        opts = menus.proper(payload[3])
        for name, data in reorder(base, payload[4]):
            if md:
                o = {**opts, "max_iteration": 2, "initial_guess": False}
                o.setdefault("quadrature_n", 9)
                o["quadrature_n"] = min(o["quadrature_n"], 11)
                rec.count("evaluations")
                judge(rec, method, data, o, call(data, 2, options=o), 2)
            else:
                for k in ((1, 3) if "eap" not in method else (2,)):
                    o = {**opts, "max_iteration": k}
                    rec.count("evaluations")
                    judge(rec, method, data, o, call(data, options=o))
    if kind == "fit" and payload[3] == "default":
        rec.sample(method=method, config=CONFIGS[c])
