"""Estimated latent distributions and their spline."""
import itertools

import numpy as np
from scipy.interpolate import BSpline

import girth
from girth.utilities.latent_ability_distribution import CubicSplinePDF, LatentPDF, resample
from mc import menus, ref

LEVEL = "exploration"
RULE = ("every spline size 3-15 x quadrature bound x basis coefficient x evaluation form; every resampling between sizes "
        "5-15; every estimation on a menu of answers x quadrature x sizes; the marginal methods with estimation on; one "
        "evaluation is one comparison of a whole curve, resampling or estimation; distinct by setting; non-trivial when "
        "the estimated coefficients differ from the start")
ASSUMPTIONS = ["quadrature bounds are symmetric when the distribution is estimated",
               "settings for which no spline has mean 0 and variance 1 are not judged",
               "optimality of an estimate or resampling is certified by the duality gap over all vertices of the feasible "
               "set, judged to 0.05 per hundred persons (1e-4 squared error for resampling)"]
SIZES = range(3, 16)
STOPS = (3.5, 4.5, 6.0)
"""
The feasible coefficients form a polytope: nonnegative, three linear equations.
The problem is convex, so for every feasible c and any point x
    f(c) - f(x) <= max over vertices v of grad f(x).(v - x)        (maximising)
and the vertices are all enumerated.
"""


def cases(tier):
    out = [(f"spline-{n}-{s}", ["spline", n, s]) for n in SIZES for s in STOPS]
    for n in range(5, 16):
        for s in STOPS:
            out.append((f"resample-{n}-{s}", ["resample", n, s]))
    for n in range(5, 16) if tier == "thorough" else (5, 6, 7, 9, 11, 14):
        for k in range(4 if tier == "quick" else 48):
            for quad in ("default", "wide", "few", "skew", "uniform"):
                out.append((f"estimate-{n}-{k}-{quad}", ["estimate", n, k, quad]))
    for name in ESTIMATORS:
        for n in (5, 8, 9, 12):
            out.append((f"fit-{name}-{n}", ["fit", name, n]))
    return out


ESTIMATORS = ["twopl_mml", "grm_mml", "pcm_mml", "gum_mml", "twopl_mml_eap", "grm_mml_eap"]


def knots(n, stop):
    """Centres of the kernels, by definition, and their distance."""
    edge = stop * (n - 1) / (n + 3)
    return np.linspace(-edge, edge, n), 2 * edge / (n - 1)


def kernel(x):
    """The cubic B-spline with knots -2..2."""
    out = BSpline.basis_element([-2, -1, 0, 1, 2], extrapolate=False)(x)
    return np.where(np.isnan(out), 0.0, out)


def curve(coeffs, stop, x):
    c, d = knots(len(coeffs), stop)
    x = np.atleast_1d(np.asarray(x, dtype=float))
    return kernel((x[:, None] - c[None]) / d) @ np.asarray(coeffs, dtype=float) / d


def vertices(n, stop):
    """All vertices of the set of proper coefficients."""
    c, d = knots(n, stop)
    A = np.vstack([np.ones(n), c, c ** 2])
    b = np.array([1, 0, 1 - d * d / 3])
    out = []
    for take in itertools.combinations(range(n), 3):
        sub = A[:, take]
        x = np.linalg.solve(sub, b)
        if (x >= -1e-12).all():
            v = np.zeros(n)
            v[list(take)] = x
            out.append(v)
    return np.array(out)


def exact(F, goal, verts, n, stop):
    """Least squares over the feasible set: descent over its vertices, with away steps, until the duality gap is 1e-7."""
    w = np.full(len(verts), 1 / len(verts))
    for _ in range(20000):
        x = w @ verts
        grad = 2 * F.T @ (F @ x - goal)
        s = verts @ grad
        to, away = int(s.argmin()), int(np.where(w > 1e-15, s, -np.inf).argmax())
        if x @ grad - s[to] < 1e-7:
            break
        move = verts[to] - verts[away]              # pairwise step
        step = min((s[away] - s[to]) / max(2 * float(((F @ move) ** 2).sum()), 1e-300), w[away])
        w[to] += step
        w[away] -= step
    return w @ verts


def proper(rec, coeffs, bound, tol=2e-5, **info):
    stop = bound
    """Nonnegative, integral one, mean zero, variance one: on the curve."""
    coeffs = np.asarray(coeffs, dtype=float)
    # exact integration of piecewise cubics times x^2
    c, d = knots(len(coeffs), stop)
    g, w = np.polynomial.legendre.leggauss(4)
    left = c[0] - 2 * d + d * np.arange(len(c) + 3)
    x = (left[:, None] + d * (g[None] + 1) / 2).ravel()
    wt = np.tile(w * d / 2, len(left))
    y = curve(coeffs, stop, x)
    ok = rec.check((coeffs >= -1e-9).all() and (y >= -1e-9).all(), "a density is negative", weights=coeffs, **info)
    m = [float((y * wt * x ** k).sum()) for k in (0, 1, 2)]
    ok &= rec.check(abs(m[0] - 1) < tol and abs(m[1]) < tol and abs(m[2] - 1) < tol,
                    "integral, mean and variance are not 1, 0, 1", moments=m, weights=coeffs, **info)
    return ok


def spline_of(obj):
    return np.asarray(obj.coefficients)[2:-2]


def run(payload, rec):
    kind = payload[0]
    if kind == "spline":
        _, n, stop = payload
        grid = np.linspace(-stop - 1, stop + 1, 57)
        rng = np.random.default_rng([21, n])
        menu = [np.eye(n)[j] for j in range(n)] + [rng.random(n) for _ in range(3)]
        for coeffs in menu:
            sp = CubicSplinePDF({"number_of_samples": n, "quadrature_bounds": (-stop, stop)})
            rec.check(np.abs(sp(grid)).max() == 0, "a spline without coefficients is not zero", size=n, stop=stop)
            sp.update_coefficients(coeffs)
            want = curve(coeffs, stop, grid)
            info = dict(size=n, stop=stop, coefficients=coeffs)
            forms = {"array": grid, "list": grid.tolist(), "tuple": tuple(grid), "reversed": grid[::-1], "integers":
                     np.arange(-4, 5), "integer list": list(range(-4, 5)), "narrow": np.arange(-4, 5, dtype="int8"),
                     "float32": np.linspace(-3, 3, 13).astype("float32"), "strided": np.repeat(grid, 2)[::2]}
            for name, x in forms.items():
                rec.count("evaluations")
                rec.check(ref.close(sp(x), curve(coeffs, stop, x), 1e-6 if name == "float32" else 1e-9),
                          "the spline differs from its B-spline", form=name, **info)
            for x in (grid[5], 0.0, 0, 1, np.float64(1.3), -2):
                rec.check(ref.close(sp(x), curve(coeffs, stop, x), 1e-9), "the spline differs at a single point", x=x, **info)
            rec.count("evaluations")
            F = sp.filter_matrix(grid)
            c, d = knots(n, stop)
            full = np.concatenate(([c[0] - 2 * d, c[0] - d], c, [c[-1] + d, c[-1] + 2 * d]))
            rec.check(ref.close(F, kernel((grid[:, None] - full) / d), 1e-9), "filter matrix", **info)
            for bounds, pts in (((-5, 5), 2001), ((-stop, stop), 101), ((0, 3), 7)):
                rec.count("evaluations")
                x, y = sp.continuous_pdf(bounds, pts) if pts != 2001 else sp.continuous_pdf()
                rec.check(ref.close(x, np.linspace(*bounds, pts), 1e-12) and ref.close(y, curve(coeffs, stop, x), 1e-9),
                          "the sampled curve differs", bounds=bounds, **info)
            rec.check(ref.close(spline_of(sp), coeffs, 0), "evaluation changed the coefficients", **info)
            for form in (list(coeffs), tuple(coeffs), coeffs[::-1], (coeffs * 5).astype(int)):
                sp.update_coefficients(form)
                rec.check(ref.close(sp(grid), curve(np.asarray(form), stop, grid), 1e-9), "updating coefficients",
                          form=repr(form)[:80], **info)
            kept = spline_of(sp).copy()
            for size in range(0, n + 5):
                if size == n:
                    continue
                rec.count("evaluations")
                try:
                    sp.update_coefficients(np.ones(size))
                    rec.fail("a wrong number of coefficients is accepted", given=size, **info)
                except AssertionError:
                    rec.check(ref.close(spline_of(sp), kept, 0), "a rejected update changed the spline", given=size, **info)
            rec.key(n, stop, coeffs)
        for x in (np.linspace(-3, 3, 25), np.arange(-3, 4), list(range(-3, 4)), [0.5], np.array([[0, 1], [-1.5, 2]]), 0, 1,
                  0.25, np.int8(1)):
            rec.count("evaluations")
            rec.check(ref.close(CubicSplinePDF.cubic_spline(x), kernel(np.asarray(x, dtype=float)), 1e-12),
                      "the kernel differs from the cubic B-spline", x=x)
    elif kind == "resample":
        _, n, stop = payload
        verts = vertices(n, stop)
        if not len(verts):
            return
        rng = np.random.default_rng([22, n, int(10 * stop)])
        mixes = [verts.mean(axis=0)] + [rng.dirichlet(np.full(len(verts), 0.3)) @ verts for _ in range(3)]
        for coeffs in mixes:
            sp = CubicSplinePDF({"number_of_samples": n, "quadrature_bounds": (-stop, stop)})
            sp.update_coefficients(coeffs)
            proper(rec, coeffs, stop, size=n)
            for m in range(5, 16):
                info = dict(size=n, to=m, stop=stop, coefficients=coeffs)
                rec.count("evaluations")
                if m == n:
                    try:
                        resample(sp, m)
                        rec.fail("resampling to the same size is accepted", **info)
                    except AssertionError:
                        pass
                    continue
                target = vertices(m, stop)
                if not len(target):
                    continue
                new = resample(sp, m)
                rec.check(ref.close(spline_of(sp), coeffs, 0), "resampling changed the original", **info)
                if not rec.check(new.number_of_samples == m and spline_of(new).shape == (m,), "size after resampling", **info):
                    continue
                x = spline_of(new)
                if not proper(rec, x, stop, 1e-4, **info):
                    continue
                c, d = knots(m, stop)
                full = np.concatenate(([c[0] - 2 * d, c[0] - d], c, [c[-1] + d, c[-1] + 2 * d]))
                F = kernel((full[:, None] - c) / d)
                diff = curve(coeffs, stop, full) * d - F @ x
                grad = 2 * F.T @ diff
                gap = float((target @ grad).max() - x @ grad)
                if gap > 1e-5:      # then the exact optimum, itself certified
                    goal = curve(coeffs, stop, full) * d
                    best = exact(F, goal, target, m, stop)
                    worse = float(((goal - F @ x) ** 2).sum() - ((goal - F @ best) ** 2).sum())
                    rec.count("solved", 1)
                    rec.check(worse < 2e-5, "not the closest density", worse=worse, got=x, **info)
                rec.key(n, m, stop, coeffs)
    elif kind == "estimate":
        _, n, k, quad = payload
        o = {**menus.proper(quad), "estimate_distribution": True, "number_of_samples": n}
        lo, hi = o.get("quadrature_bounds", (-4.5, 4.5))
        stop = float(hi)
        if lo != -hi:
            return
        verts = vertices(n, stop)
        if not len(verts):
            return
        rng = np.random.default_rng([23, n, k])
        persons = (60, 150, 25, 300)[k % 4]
        theta = [rng.standard_normal(persons), rng.choice([-1.2, 0.9], persons) + 0.3 * rng.standard_normal(persons),
                 rng.uniform(-1.7, 1.7, persons)][k % 3]
        a, b = 0.7 + rng.random(8), np.linspace(-2, 2, 8)
        data = (rng.random((8, persons)) < 1 / (1 + np.exp(-a[:, None] * (theta - b[:, None])))).astype(int)
        pdf = LatentPDF(o)
        th, w0 = ref.latent({k2: v for k2, v in o.items() if k2 not in ("estimate_distribution", "number_of_samples")})
        p = 1 / (1 + np.exp(-a[:, None] * (th - b[:, None])))
        lik = np.ones((persons, th.size))
        for i in range(8):
            lik *= np.where(data[i][:, None] == 1, p[i], 1 - p[i])
        kept = lik.copy()
        info = dict(samples=n, seed=k, quad=quad)
        rec.count("evaluations")
        rec.check(ref.close(pdf(lik, 0), w0, 1e-10), "the first weights are not those of the given distribution", **info)
        weights = pdf.weights
        c, d = knots(n, stop)
        K = kernel((th[:, None] - c) / d)            # values / delta = density
        tol = 0.05 * max(1, persons / 100)
        last = None
        for step in (1, 2, 3):
            rec.count("evaluations")
            got = pdf(lik, step)
            x = spline_of(pdf.cubic_splines[-1])
            proper(rec, x, stop, 1e-4, step=step, **info)
            rec.check(ref.close(got, K @ x / d * weights, 1e-9), "the weights are not those of the spline", step=step, **info)
            rec.check(ref.close(lik, kept, 0), "the integrand is modified", **info)
            ll = lambda z: float(np.log((lik * (K @ z / d * weights)).sum(axis=1)).sum())
            per = lik @ (K * weights[:, None] / d)    # persons x coefficients
            grad = (per / (per @ x)[:, None]).sum(axis=0)
            gap = float((verts @ grad).max() - x @ grad)
            rec.check(gap < tol * 2, "a better distribution exists", gap=gap, coefficients=x, step=step, **info)
            if last is not None:
                rec.check(ll(x) >= last - tol / 10, "the likelihood is below its start", step=step, ll=[last, ll(x)], **info)
            last = ll(x)
        rec.key(n, k, quad, np.round(x, 3))
        rec.sample(**info, coefficients=np.round(x, 4), log_likelihood=last, duality_gap=gap)
    elif kind == "fit":
        _, name, n = payload
        for bound in (4.0, 4.5, 5.0):
            for its in (1, 2, 4):
                data = ref.make_data(6, 2 if "twopl" in name else 3, 120, seed=int(10 * bound), missing=0.05 * its)
                o = {"estimate_distribution": True, "number_of_samples": n, "max_iteration": its, "quadrature_n": 31,
                     "quadrature_bounds": (-bound, bound)}
                rec.count("evaluations")
                got = getattr(girth, name)(data, options=o)
                pdf = got["LatentPDF"]
                x = spline_of(pdf.cubic_splines[-1])
                if its == 1:
                    continue
                proper(rec, x, bound, 1e-4, method=name, iterations=its, samples=n)
                rec.key(name, n, bound, its)
