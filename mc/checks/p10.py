"""Rasch and one-parameter marginal estimation."""
import itertools

import numpy as np

import girth
from mc import menus, mml, ref

LEVEL = "exploration"
RULE = ("every count vector with counts 0..2 over the patterns of 2 items (with missing: 0..1), every count vector in "
        "{1,3} (thorough: 0..2) over the patterns of 3 items, base data plus every pattern with missing answers, and a menu of "
        "longer data sets x discriminations x quadrature and distribution; distinct by data and options; "
        "non-trivial when some difficulty lies inside the search interval")
ASSUMPTIONS = ["the common discrimination is tested by steps of 1 and 10 percent along the proportion curve"]
M = ref.MISSING
SIZES = [(3, 40), (5, 60), (8, 150), (12, 200), (30, 80), (4, 1100), (70, 60)]
ALPHAS = [1, 0.5, 1.7, 3.0, 0.25, 6.5]


def cases(tier):
    out = []
    for lead in itertools.product(range(3), repeat=2):
        out.append((f"two-{lead[0]}{lead[1]}", ["two", list(lead)]))
    for lead in itertools.product(range(2), repeat=4):
        out.append((f"two-missing-{''.join(map(str, lead))}", ["twom", list(lead)]))
    for lead in itertools.product((1, 3), repeat=4):
        out.append((f"three-{''.join(map(str, lead))}", ["three", list(lead), (1, 3)]))
    if tier == "thorough":
        for lead in itertools.product((0, 1, 2), repeat=4):
            out.append((f"threez-{''.join(map(str, lead))}", ["three", list(lead), (0, 1, 2)]))
    for p in range(9):
        out.append((f"missing-{p}", ["missing", p]))
    for c in range(len(SIZES)):
        for q in menus.PROPER:
            out.append((f"menu-{c}-{q[0]}", ["menu", c, q[0]]))
    out.append(("ends", ["ends"]))
    for k in range(4):
        out.append((f"shape-{k}", ["shape", k]))
    return out


def rasch(rec, data, alpha, opts, tag, how="rasch"):
    rec.count("evaluations")
    if how == "rasch":
        got = girth.rasch_mml(data, alpha, opts)
    elif how == "default":
        got = girth.rasch_mml(data)
    else:
        got = girth.onepl_mml(data, alpha=alpha, options=opts)
    pb = mml.Problem(data, opts)
    rec.check(np.ndim(got["Discrimination"]) == 0 and got["Discrimination"] == alpha, "the given discrimination is reported",
              got=got["Discrimination"], want=alpha)
    difficulties(rec, data, got["Difficulty"], alpha, pb, tag, how)
    return got


def difficulties(rec, data, b, alpha, pb, tag, how):
    if not rec.check(np.shape(b) == (data.shape[0],), "one difficulty per item", shape=np.shape(b)):
        return
    for i, row in enumerate(data):
        ok = row[(row == 0) | (row == 1)]
        p = ok.mean()
        want, inside = ref.threshold(alpha, p, pb.th, pb.weight)
        rec.check(abs(b[i] - want) < 1e-3 if inside else abs(b[i] - want) < 5e-3,
                  f"{how}: the marginal proportion of an item", item=i, proportion=p, got=b[i], want=want, discrimination=alpha,
                  data=data if data.size < 100 else data.shape)
        if inside:
            rec.key(tag, how, round(float(want), 5), round(float(alpha), 4), data.shape)


def onepl(rec, data, opts, tag):
    rec.count("evaluations")
    got = girth.onepl_mml(data, options=opts) if opts else girth.onepl_mml(data)
    alpha, b = got["Discrimination"], got["Difficulty"]
    info = dict(data=data if data.size < 100 else data.shape, alpha=alpha)
    if not rec.check(np.ndim(alpha) == 0 and 0.25 - 1e-9 <= alpha <= 10 + 1e-9, "the discrimination is within bounds", **info):
        return got
    pb = mml.Problem(data, opts)
    difficulties(rec, data, b, alpha, pb, tag, "onepl")
    codes = np.where(np.isin(data, (0, 1)), data, M)
    pb.codes, pb.counts = np.unique(codes, axis=1, return_counts=True)
    props = [row[row != M].mean() for row in codes]

    def f(x):
        return pb.ll([ref.p2(x, ref.threshold(x, p, pb.th, pb.weight)[0], pb.th) for p in props])
    if all(0 < p < 1 for p in props) and all(ref.threshold(alpha, p, pb.th, pb.weight)[1] for p in props):
        better = mml.improvable(f, alpha, (0.01 * alpha, 0.1 * alpha), 0.25, 10, 5e-5 * max(1, pb.n_persons / 20))
        rec.check(better is None, "the common discrimination can be improved", gain_step=better, **info)
    return got


def usable(data):
    return all(np.isin(r, (0, 1)).any() for r in data)


def run(payload, rec):
    kind = payload[0]
    if kind in ("two", "twom"):
        pats = ref.all_patterns(2, (0, 1) if kind == "two" else (0, 1, M))
        menu = itertools.product(range(3), repeat=2) if kind == "two" else itertools.product(range(2), repeat=5)
        for k, tail in enumerate(menu):
            counts = payload[1] + list(tail)
            if sum(counts) < 1:
                continue
            data = ref.expand(pats, counts)
            if not usable(data):
                continue
            for al in (1, 2.2) if kind == "two" else (1.4,):
                rasch(rec, data, al, None, kind)
            if all(np.unique(r[r != M]).size == 2 for r in data):
                onepl(rec, data, None, kind)
    elif kind == "three":
        pats = ref.all_patterns(3, (0, 1))
        for k, tail in enumerate(itertools.product(payload[2], repeat=4)):
            counts = payload[1] + list(tail)
            if not sum(counts):
                continue
            data = ref.expand(pats, counts)
            rasch(rec, data, ALPHAS[k % 6], None, kind)
            onepl(rec, data, None, kind)
    elif kind == "missing":
        base = ref.expand(ref.all_patterns(3, (0, 1)), [2, 1, 1, 1, 1, 2, 1, 3])
        for extra in ref.all_patterns(3, (0, 1, M))[payload[1]::9]:
            data = ref.expand([tuple(c) for c in base.T] + [extra], [1] * base.shape[1] + [3])
            rasch(rec, data, 1.3, None, kind)
            onepl(rec, data, None, kind)
    elif kind == "menu":
        _, c, q = payload
        n, persons = SIZES[c]
        for miss in (0.0, 0.25):
            for a in (0.8, 1.6):
                data = ref.make_data(n, 2, persons, seed=c, missing=miss, a=a)
                opts = menus.proper(q)
                for al in ALPHAS:
                    rasch(rec, data, al, opts, (c, q))
                rasch(rec, data, 1.1, opts, (c, q), "onepl-fixed")
                if q == "default":
                    rasch(rec, data, 1, None, (c, q), "default")
                onepl(rec, data, opts, (c, q))
                rec.sample(items=n, persons=persons, missing=miss, options=q)
    elif kind == "ends":
        for bits in itertools.product((0, 1, 2, 3), repeat=3):
            # items: all wrong, all right, mixed, mixed with missing
            cols = {0: [0, 0, 0, 0], 1: [1, 1, 1, 1], 2: [0, 1, 1, 0], 3: [M, 1, 0, M]}
            data = np.array([cols[x] for x in bits])
            for al in (0.4, 1, 2.5):
                rasch(rec, data, al, None, bits)
                rasch(rec, data, al, {"quadrature_n": 21}, bits, "onepl-fixed")
    elif kind == "shape":
        k = payload[1]
        if k == 0:      # nearly a scale: large common discrimination
            th = ref.quantiles(80)
            data = (th[None, :] > np.array([-1, -0.5, 0, 0.4, 0.8])[:, None]).astype(int)
            for i, p in ((0, 3), (1, 40), (2, 17), (3, 61), (4, 33)):
                data[i, p] ^= 1
        elif k == 1:    # unrelated items: smallest discrimination
            data = ref.expand(ref.all_patterns(4, (0, 1)), [1] * 16)
            data[0] = 1 - data[1]
        elif k == 2:
            th = ref.quantiles(60)
            data = (th[None, :] > np.array([-1, -0.3, 0.5])[:, None]).astype(int)
        else:
            data = ref.make_data(40, 2, 300, seed=11, missing=0.5)
        for q in ("default", "wide", "skew"):
            onepl(rec, data, menus.proper(q), (k, q))
            rasch(rec, data, 2.0, menus.proper(q), (k, q))
