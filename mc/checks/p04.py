"""The difficulty look up table inverts the marginal proportion."""
import itertools

import numpy as np
from scipy import stats

import girth
from mc import menus, ref

LEVEL = "exploration"
RULE = ("every table shape of the menu under every quadrature option; every tabulated discrimination and "
        "points between, with every tabulated proportion and points between; distinct by table and "
        "discrimination; non-trivial inside the tabulated range. The two saturated ends are listed findings")
ASSUMPTIONS = ["the table interpolates linearly between its nodes, as documented"]
SHAPES = [((.15, 5.05, 50), (-6, 6, 60)), ((.15, 5.05, 500), (-6, 6, 500)), ((.15, 6, 100), (-6, 6, 81)),
          ((1, 2, 2), (-1, 1, 3)), ((.5, 3, 11), (-3, 4, 30)), ([.25, 4, 16], [-5, 5, 101]),
          ((.15, 6, 1000), (-6, 6, 500))]


def cases(tier):
    out = []
    for s in range(len(SHAPES)):
        for q in menus.QUAD:
            if s in (1, 6) and q[0] not in ("default", "skew", "odd") and tier == "quick":
                continue
            out.append((f"table-{s}-{q[0]}", ["table", s, q[0]]))
    for s in (0, 3, 5) if tier == "quick" else range(len(SHAPES)):
        out.append((f"history-{s}", ["history", s]))
    for name in ("low", "high"):
        out.append((f"saturation-{name}", ["saturation", name]))
    return out


def run(payload, rec):
    if payload[0] == "saturation":
        return saturation(rec, payload[1])
    if payload[0] == "history":
        return history(rec, payload[1])
    _, s, q = payload
    (a0, a1, an), (b0, b1, bn) = SHAPES[s]
    opt = menus.quad(q)
    lut = girth.create_beta_LUT(SHAPES[s][0], SHAPES[s][1], opt)
    th, w = ref.latent(opt)
    alphas, betas = np.linspace(a0, a1, an), np.linspace(b0, b1, bn)
    step = max(1, (an - 1) // 9)
    nodes = sorted(set(range(0, an, step)) | {an - 1, an - 2})
    probes = []
    for k in nodes:
        probes.append((k, 0.0))
        if k + 1 < an:
            probes += [(k, 0.25), (k, 0.5), (k, 0.9)]
    table = {}

    def row(k):
        if k not in table:
            table[k] = np.array([ref.cumulative(alphas[k], b, th, w) for b in betas])
        return table[k]

    for k, frac in probes:
        lo = row(k)
        hi = row(min(k + 1, an - 1))
        alpha = alphas[k] + frac * (alphas[1] - alphas[0])
        if frac == 0:
            alpha = alphas[k]
        top, bottom = min(lo[0], hi[0]), max(lo[-1], hi[-1])
        if frac == 0:
            top, bottom = lo[0], lo[-1]
        p = np.concatenate([lo[1:-1], (lo[1:] + lo[:-1]) / 2, np.linspace(bottom, top, 41)[1:-1]])
        # away from the ends, and where the curve is not numerically flat
        p = np.unique(p[(p < top - 1e-9) & (p > bottom + 1e-9)])
        if p.size == 0:
            continue
        interp = lambda r: np.interp(p, r[::-1], betas[::-1])
        want = (1 - frac) * interp(lo) + frac * interp(hi)
        slope = np.minimum(np.abs(np.gradient(lo, betas)).min(), np.abs(np.gradient(hi, betas)).min())
        got = np.asarray(lut(alpha, p))
        one = np.array([float(lut(alpha, x)) for x in p[:: max(1, p.size // 7)]])
        rec.count("evaluations", p.size)
        if not rec.check(got.shape == p.shape, "one difficulty per proportion", shape=got.shape):
            continue
        tol = 1e-7 + 1e-12 / max(slope, 1e-12)
        bad = ~(np.abs(got - want) <= tol)
        if bad.any():
            j = int(np.argmax(bad))
            rec.fail("difficulty of a proportion", table=SHAPES[s], quad=q, alpha=alpha, p=p[j],
                     got=got[j], want=want[j])
        rec.check(np.abs(one - got[:: max(1, p.size // 7)]).max() <= tol, "one by one and together differ")
        # the table is close to the true inverse: proportion reproduced
        cell = (b1 - b0) / (bn - 1)
        back = np.array([ref.cumulative(alpha, b, th, w) for b in got[::5]])
        bound = 0.1 * max(alphas[min(k + 1, an - 1)], 0.2) ** 2 * cell ** 2 + 1e-6
        if frac:
            bound += 0.5 * (alphas[1] - alphas[0]) ** 2 / alphas[k] ** 1.0 + 1e-6
        rec.check((np.abs(back - p[::5]) < bound).all(), "the proportion is not reproduced", alpha=alpha,
                  worst=np.abs(back - p[::5]).max(), bound=bound, table=SHAPES[s], quad=q)
        rec.check((np.diff(got) < tol).all(), "a higher proportion needs a lower difficulty", alpha=alpha)
        rec.key(s, q, k, frac)
    # outside the tabulated discriminations there is no value
    for alpha in (a0 - 0.1, a1 + 0.1):
        try:
            lut(alpha, 0.5)
            rec.fail("a discrimination outside the table has a value", alpha=alpha)
        except ValueError:
            rec.key(s, q, "outside", alpha)
    rec.sample(table=SHAPES[s], alpha=alphas[0], p=float(row(0)[1]), beta=betas[1])


class Changing:
    """A distribution that is changed between two tables, as an estimated one is."""

    def __init__(self, pdf):
        self.pdf = pdf

    def __call__(self, x):
        return self.pdf(x)


def history(rec, s):
    """Every ordered pair and some triples of tables of one shape: each answers for its own options, before and after
    the others are built and used."""
    (a0, a1, an), (b0, b1, bn) = SHAPES[s]
    alphas, betas = np.linspace(a0, a1, an), np.linspace(b0, b1, bn)
    pdfs = dict(menus.DISTS, near=stats.norm(0.05, 1.0).pdf)
    changing = Changing(None)
    opts = [("dist", name, {"distribution": pdf}) for name, pdf in pdfs.items()]
    opts += [("bounds", b, {"quadrature_bounds": b}) for b in ((-3, 3), (-4.5, 5), [-4.5, 4.5])]
    opts += [("points", n, {"quadrature_n": n}) for n in (8, 40, 42)]
    opts += [("changing", name, {"distribution": changing}) for name in ("shift", "narrow")]
    k = an // 2

    def build(o):
        if o[0] == "changing":
            changing.pdf = pdfs[o[1]]
        return girth.create_beta_LUT(SHAPES[s][0], SHAPES[s][1], o[2])

    def expect(o):
        th, w = ref.latent(dict(o[2], distribution=pdfs[o[1]]) if o[0] == "changing" else o[2])
        row = np.array([ref.cumulative(alphas[k], b, th, w) for b in betas])
        p = np.linspace(row[-1], row[0], 9)[1:-1]
        return p, np.interp(p, row[::-1], betas[::-1])

    want = [expect(o) for o in opts]

    def judge(lut, i, others):
        p, b = want[i]
        rec.count("evaluations", p.size)
        got = np.asarray(lut(alphas[k], p))
        rec.check(got.shape == b.shape and np.abs(got - b).max() < 1e-7, "a table answers for other options", table=SHAPES[s],
                  options=opts[i][:2], others=others, got=got, want=b)

    for i, j in itertools.product(range(len(opts)), repeat=2):
        one = build(opts[i])
        judge(one, i, "none")
        two = build(opts[j])
        judge(two, j, opts[i][:2])
        judge(one, i, opts[j][:2])
        again = build(opts[i])
        judge(again, i, opts[j][:2])
        rec.key(s, "history", i, j)


def saturation(rec, name):
    """Proportions beyond the table: the nearest tabulated difficulty."""
    for (a, b) in SHAPES[:2]:
        lut = girth.create_beta_LUT(a, b)
        for alpha in (0.2, 1.0, 3.3):
            th, w = ref.latent()
            edge = ref.cumulative(alpha, 6.0 if name == "low" else -6.0, th, w)
            for p in ((0.0, edge / 2) if name == "low" else (1.0, (1 + edge) / 2)):
                got = float(lut(alpha, p))
                want = 6.0 if name == "low" else -6.0
                rec.count("evaluations")
                rec.key(name, alpha, p)
                if abs(got - want) > 1e-6:
                    sig = "wrong-end" if abs(got + want) < 1e-6 else "other"
                    rec.fail("a proportion beyond the table", sig=sig, alpha=alpha, p=p, got=got, want=want)
