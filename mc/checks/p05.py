"""EAP scoring of dichotomous items (2PL, 3PL) is the posterior mean."""
import itertools

import numpy as np

import girth
from mc import menus, ref

LEVEL = "exploration"
RULE = ("every response pattern over {0,1,missing} for 1-4 items (one batch per parameter set "
        "and quadrature option), a grid of item parameters for 2 items, long tests (up to 5000 items) and large batches (up to 70001 persons), extreme"
        " parameters, and call histories whose parameters, answers or options change by very little; each "
        "returned ability is one evaluation, distinct by pattern, parameters and options; "
        "non-trivial when at least one answer is present")
ASSUMPTIONS = ["reference posterior mean evaluated on the same Gauss-Legendre rule, in log space"]


M = ref.MISSING


def cases(tier):
    out = []
    quads = [q[0] for q in menus.QUAD]
    for n in (1, 2, 3, 4) + ((5, 6) if tier == "thorough" else ()):
        for p in range(5):
            for q in quads:
                out.append((f"all-{n}-{p}-{q}", ["all", n, p, q]))
    for q in ("default", "odd"):
        for chunk in range(9):
            out.append((f"grid-{chunk}-{q}", ["grid", chunk, q]))
    for n in (12, 33, 64, 150, 400, 1500, 5000):
        for q in ("default", "shift"):
            out.append((f"long-{n}-{q}", ["long", n, q]))
    for persons in (255, 257, 1000, 1025, 4099, 70001):
        out.append((f"many-{persons}", ["many", persons]))
    for n in (2, 3):
        out.append((f"scalar-{n}", ["scalar", n]))
    for n in (1, 2, 3):
        out.append((f"batch-{n}", ["batch", n]))
        out.append((f"extreme-{n}", ["extreme", n]))
        out.append((f"near-{n}", ["near", n]))
    return out


def reference(data, b, a, c, opt):
    th, w = ref.latent(opt)
    logw = np.log(w)
    out = np.zeros(data.shape[1])
    for p in range(data.shape[1]):
        ll = logw.copy()
        for i in range(data.shape[0]):
            if data[i, p] != ref.MISSING:
                ll += np.log(ref.p2_stable(a[i], b[i], th, c[i])[data[i, p]])
        post = np.exp(ll - ll.max())
        out[p] = (post @ th) / post.sum()
    return out


def compare(rec, data, b, a, c, opt, tag, scalar=None):
    n = len(b)
    zero = np.zeros(n)
    disc = a if scalar is None else scalar
    got2 = girth.ability_eap(data, b, disc, options=opt)
    want2 = reference(data, b, a, zero, opt)
    pairs = [("2pl", got2, want2)]
    if scalar is None:
        got3 = girth.ability_3pl_eap(data, b, a, c, options=opt)
        pairs.append(("3pl", got3, reference(data, b, a, c, opt)))
        got30 = girth.ability_3pl_eap(data, b, a, zero, options=opt)
        pairs.append(("3pl without guessing", got30, want2))
    else:
        for g in (None, 0.0, 0.25, np.array([0.25])):
            got3 = girth.ability_3pl_eap(data, b, disc, **({} if g is None else {"guessing": g}), options=opt)
            pairs.append((f"3pl with guessing {g}", got3, reference(data, b, a, np.full(n, 0.0 if g is None else np.ravel(g)[0]), opt)))
    for name, got, want in pairs:
        rec.count("evaluations", want.size)
        if not rec.check(got.shape == want.shape, f"{name}: one ability per person", got=got.shape,
                         want=want.shape):
            continue
        bad = ~(np.abs(got - want) <= 1e-7)
        if bad.any():
            k = int(np.argmax(bad))
            rec.fail(f"{name}: not the posterior mean", pattern=data[:, k], got=got[k], want=want[k],
                     difficulty=b, discrimination=a, guessing=c)
        for k in range(want.size):
            if (data[:, k] != ref.MISSING).any():
                rec.key(tag, name, data[:8, k], round(float(want[k]), 6))
    rec.sample(pattern=data[:, -1][:10], difficulty=b[:10], ability=got2[-1])


def run(payload, rec):
    kind = payload[0]
    if kind == "all":
        _, n, p, q = payload
        _, b, a = menus.dich_params(n)[p]
        data = np.array(ref.all_patterns(n, (0, 1, M))).T
        c = np.full(n, 0.15) + 0.1 * np.sin(np.arange(n))
        compare(rec, data, b, a, c, menus.quad(q), (n, p, q))
    elif kind == "grid":
        _, chunk, q = payload
        values = list(itertools.product((-2.0, -0.3, 1.1), (0.4, 1.0, 2.5)))
        data = np.array(ref.all_patterns(2, (0, 1, M))).T
        b0, a0 = values[chunk]
        for b1, a1 in values:
            compare(rec, data, np.array([b0, b1]), np.array([a0, a1]), np.array([0.05, 0.3]),
                    menus.quad(q), (chunk, b1, a1, q))
    elif kind == "long":
        _, n, q = payload
        k = np.arange(n)
        b, a = 2 * np.sin(1.3 * k), 0.8 + 0.4 * np.cos(2.2 * k)
        base = ref.make_data(n, 2, 24, seed=3, missing=0.1)
        extra = np.array([np.zeros(n), np.ones(n), k % 2, (k % 3 == 0)]).T.astype(int)
        data = np.concatenate([base, extra], axis=1)
        compare(rec, data, b, a, np.full(n, 0.1), menus.quad(q), (n, q))
    elif kind == "scalar":
        n = payload[1]
        b = np.linspace(-1, 1.4, n)
        data = np.array(ref.all_patterns(n, (0, 1, M))).T
        for s in (0.7, 2.0, 1, np.array([1.3])):
            compare(rec, data, b, np.full(n, float(np.ravel(s)[0])), None, {}, (n, repr(s)), scalar=s)
            whole = np.arange(n) - n // 2                   # whole numbers, and stored so
            compare(rec, data, whole, np.full(n, float(np.ravel(s)[0])), None, {}, (n, repr(s), "whole"), scalar=s)
    elif kind == "many":
        few, data, index = crowd(payload[1])
        k = np.arange(len(few))
        b, a, c = 1.5 * np.sin(1.3 * k), 0.8 + 0.4 * np.cos(2.2 * k), np.full(len(few), 0.1)
        for name, got, want in (("2pl", girth.ability_eap(data, b, a), reference(few, b, a, 0 * c, {})),
                                ("3pl", girth.ability_3pl_eap(data, b, a, c), reference(few, b, a, c, {}))):
            rec.count("evaluations", data.shape[1])
            rec.check(got.shape == index.shape and np.abs(got - want[index]).max() < 1e-7, f"{name}: not the posterior mean "
                      "in a large batch", persons=payload[1])
            rec.key(payload, name)
    elif kind == "extreme":
        data = np.array(ref.all_patterns(payload[1], (0, 1, M))).T
        for k, (b, a, c) in enumerate(menus.extremes(payload[1])):
            compare(rec, data, b, a, c, menus.quad("default"), (tuple(payload), k))
            compare(rec, data, b, a, c, menus.quad("wide"), (tuple(payload), k, "wide"))
    elif kind == "near":
        near(rec, payload[1])
    elif kind == "batch":
        batch_independence(rec, payload[1])


def near(rec, n):
    """One after the other: parameters, data and options that differ by very little."""
    _, b, a = menus.dich_params(n)[1]
    data = np.array(ref.all_patterns(n, (0, 1, M))).T
    for k, (x, y, z) in enumerate(menus.nearby(b, a, np.full(n, 0.2))):
        compare(rec, data, x, y, z, {}, ("near", n, k))
    pdf = menus.DISTS["std"]
    for k, opt in enumerate(({}, {"quadrature_n": 42}, {"quadrature_bounds": (-4.5, 4.6)}, {"quadrature_bounds": (-4.6, 4.5)},
                             {"distribution": lambda x: pdf(x - 0.01)}, {"distribution": lambda x: pdf(x - 0.02)}, {})):
        compare(rec, data, b, a, np.full(n, 0.2), opt, ("near", n, "options", k))
    for j in range(n):
        for p in range(0, data.shape[1], 3):
            other = data.copy()
            other[j, p] = 1 - other[j, p] if other[j, p] != M else 1
            compare(rec, other, b, a, np.full(n, 0.2), {}, ("near", n, "data", j, p))


def crowd(persons):
    """A few distinct persons, many listed: the few, all, and who is who."""
    few = ref.make_data(5, 2, 37, seed=8, missing=0.15)
    index = (np.arange(persons) * 5) % 37
    return few, few[:, index], index


def batch_independence(rec, n):
    """Every person alone, every pair, and permutations of the batch."""
    M = ref.MISSING
    _, b, a = menus.dich_params(n)[1]
    c = np.full(n, 0.2)
    data = np.array(ref.all_patterns(n, (0, 1, M))).T
    for name, f in (("2pl", lambda d: girth.ability_eap(d, b, a)),
                    ("3pl", lambda d: girth.ability_3pl_eap(d, b, a, c))):
        whole = f(data)
        subsets = [[k] for k in range(data.shape[1])]
        subsets += [list(x) for x in itertools.product(range(data.shape[1]), repeat=2)]
        subsets += [list(range(data.shape[1]))[::-1], sorted(range(data.shape[1]), key=lambda x: (7 * x) % 11)]
        for s in subsets:
            got = f(data[:, s])
            rec.count("evaluations", len(s))
            rec.check(got.shape == (len(s),) and np.abs(got - whole[s]).max() < 1e-9,
                      f"{name}: an ability depends on who else is scored", persons=s, got=got,
                      whole=whole[s])
            rec.key(name, s)
