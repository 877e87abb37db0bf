"""One or more calls of every public function, each with two variants of the same shape."""
import functools

import numpy as np
from scipy import stats

import girth
from girth import common, factoranalysis, multidimensional, synthetic, utilities
from girth.utilities import latent_ability_distribution as latent
from mc import pools, ref

SMALL = dict(quadrature_n=15, hyper_quadrature_n=9, max_iteration=3)
PLAIN = stats.norm(0.1, 1.1).pdf


def binary(v, n=4, p=30, missing=0.0):
    return ref.make_data(n, 2, p, seed=v, missing=missing)


def graded(v, n=4, p=40, k=3, missing=0.0):
    return ref.make_data(n, k, p, seed=v, missing=missing)


def opts(v, **extra):
    return {**SMALL, "quadrature_bounds": ((-4.5, 4.5), (-4, 4.25))[v], **extra}


def params(v, n=4):
    return 0.8 * np.sin(np.arange(n) + v), 1.1 + 0.4 * np.cos(np.arange(n) * (v + 1))


def corr(v, p=5):
    rng = np.random.default_rng([30, v])
    load = rng.uniform(0.4, 0.8, (p, 1))
    s = load @ load.T + 0.05 * np.cos(np.add.outer(np.arange(p), np.arange(p)) * (v + 1))
    np.fill_diagonal(s, 1)
    return s


def latent_steps(data, options):
    """A latent distribution object used over several iterations."""
    lat = latent.LatentPDF(options)
    table = ref.p2(1.2, 0.1, lat.quadrature_locations)[1]
    integral = np.where(np.asarray(data)[:, :, None] == 1, table, 1 - table).prod(axis=0)
    out = [lat(integral, i) for i in range(3)]
    return out, lat.compute_metrics(integral, out[-1], 3), lat.cubic_splines[-1].coefficients


def spline(coefficients, samples, where):
    s = latent.CubicSplinePDF({"number_of_samples": samples, "quadrature_bounds": (-4, 4)})
    s.update_coefficients(coefficients)
    x, y = s.continuous_pdf((-3, 3), 31)
    other = latent.resample(s, samples + 2)
    return s(where), x, y, s.filter_matrix(where), latent.CubicSplinePDF.cubic_spline(where), other.coefficients


def table(alpha, beta, options, where):
    return girth.utilities.look_up_table.create_beta_LUT(alpha, beta, options)(*where)


def bootstrap(data, model, **kw):
    with pools.controlled() if kw.get("n_processors", 2) > 1 else pools.contextlib.nullcontext():
        return pools.run(pools.Schedule(), lambda: girth.standard_errors_bootstrap(data, model, **kw))


def parallel(data, lo, hi, n):
    with pools.controlled():
        return pools.run(pools.Schedule(), lambda: common.polychoric_correlation(data, lo, hi, n))


def guess(data, n, options):
    return multidimensional.initial_guess_md(data, n, options)


def _menu():
    out = {}

    def add(name, fn, build):
        out[name] = (fn, build)

    md = lambda v, **e: opts(v, quadrature_n=9, max_iteration=2, **e)          # noqa: E731
    b, d = params, params
    # dichotomous estimation
    for lut in (True, False):
        for est in (False, True):
            o = dict(use_LUT=lut, estimate_distribution=est)
            tag = ("" if lut else "-plain") + ("-latent" if est else "")
            add("rasch_mml" + tag, girth.rasch_mml, lambda v, o=o: ([binary(v, missing=0.1)], dict(options=opts(v, **o))))
            add("onepl_mml" + tag, girth.onepl_mml, lambda v, o=o: ([binary(v)], dict(options=opts(v, **o))))
            add("twopl_mml" + tag, girth.twopl_mml, lambda v, o=o: ([binary(v, missing=0.1)], dict(options=opts(v, **o))))
    add("rasch_mml-defaults", girth.rasch_mml, lambda v: ([binary(v)], dict(discrimination=1.2)))
    add("twopl_mml-defaults", girth.twopl_mml, lambda v: ([binary(v, 3, 20)], {}))
    add("onepl_mml-alpha", girth.onepl_mml, lambda v: ([binary(v), 1.3], dict(options=opts(v))))
    add("onepl_jml", girth.onepl_jml, lambda v: ([binary(v)], dict(options=opts(v))))
    add("rasch_jml", girth.rasch_jml, lambda v: ([binary(v, missing=0.1)], dict(discrimination=0.9, options=opts(v))))
    add("twopl_jml", girth.twopl_jml, lambda v: ([binary(v)], dict(options=opts(v))))
    add("rasch_conditional", girth.rasch_conditional, lambda v: ([binary(v)], dict(options=opts(v))))
    add("threepl_mml", girth.threepl_mml, lambda v: ([binary(v, 3, 24)], dict(options=opts(v, max_iteration=1))))
    add("twopl_mml_eap", girth.twopl_mml_eap, lambda v: ([binary(v)], dict(options=opts(v))))
    # abilities
    add("ability_mle", girth.ability_mle, lambda v: ([binary(v, missing=0.1), *params(v)], dict(no_estimate=5.0)))
    add("ability_map", girth.ability_map, lambda v: ([binary(v), *params(v)], dict(options=opts(v))))
    add("ability_eap", girth.ability_eap, lambda v: ([binary(v), *params(v)], dict(options=opts(v))))
    add("ability_eap-defaults", girth.ability_eap, lambda v: ([binary(v), *params(v)], {}))
    add("ability_3pl_eap", girth.ability_3pl_eap, lambda v: ([binary(v), *params(v), np.full(4, 0.1 + 0.1 * v)], dict(options=opts(v))))
    add("ability_3pl_map", girth.ability_3pl_map, lambda v: ([binary(v), *params(v), np.full(4, 0.1 + 0.1 * v)], dict(options=opts(v))))
    add("ability_3pl_mle", girth.ability_3pl_mle, lambda v: ([binary(v), *params(v), np.full(4, 0.1 + 0.1 * v)], {}))
    for f in (girth.ability_mle, girth.ability_map, girth.ability_eap):
        add(f.__name__ + "-scalar", f, lambda v: ([binary(v, missing=0.1), params(v)[0], (1.3, 1)[v]], {}))
    for f in (girth.ability_3pl_mle, girth.ability_3pl_map, girth.ability_3pl_eap):
        add(f.__name__ + "-scalar", f, lambda v: ([binary(v), params(v)[0], (1.3, 1)[v], (0.15, 0)[v]], {}))
    # polytomous estimation
    add("grm_mml", girth.grm_mml, lambda v: ([graded(v, missing=0.05)], dict(options=opts(v))))
    add("grm_mml-latent", girth.grm_mml, lambda v: ([graded(v)], dict(options=opts(v, estimate_distribution=True, use_LUT=False))))
    add("grm_mml_eap", girth.grm_mml_eap, lambda v: ([graded(v)], dict(options=opts(v, max_iteration=2))))
    add("pcm_mml", girth.pcm_mml, lambda v: ([graded(v, missing=0.05)], dict(options=opts(v, max_iteration=2))))
    add("pcm_mml-latent", girth.pcm_mml, lambda v: ([graded(v)], dict(options=opts(v, max_iteration=2, estimate_distribution=True))))
    add("gum_mml", girth.gum_mml, lambda v: ([ref.make_data(3, 3, 40, seed=v, model="gum")], dict(delta_sign=(v, -1), options=opts(v, max_iteration=1))))
    add("grm_jml", girth.grm_jml, lambda v: ([graded(v)], dict(options=opts(v, max_iteration=2))))
    add("pcm_jml", girth.pcm_jml, lambda v: ([graded(v)], dict(options=opts(v, max_iteration=1))))
    # multidimensional
    add("md_twopl", girth.multidimensional_twopl_mml, lambda v: ([binary(v, 4, 40), 2], dict(options=md(v))))
    add("md_grm", girth.multidimensional_grm_mml, lambda v: ([graded(v), 2], dict(options=md(v))))
    add("md_grm-noguess", girth.multidimensional_grm_mml, lambda v: ([graded(v), 2], dict(options=md(v, initial_guess=False))))
    add("md_eap", girth.multidimensional_ability_eap, lambda v: ([binary(v), params(v)[0], np.stack([params(v)[1], params(1 - v)[0]], 1)], dict(options=md(v))))
    add("md_map", girth.multidimensional_ability_map, lambda v: ([binary(v, 4, 12), params(v)[0], np.stack([params(v)[1], params(1 - v)[0]], 1)], dict(options=md(v))))
    add("md_guess", guess, lambda v: ([graded(v, p=60), 2, opts(v)], {}))
    # utilities
    add("default_options", girth.default_options, lambda v: ([], {}))
    add("validate_options", girth.validate_estimation_options, lambda v: ([opts(v, distribution=PLAIN)], {}))
    add("validate_options-empty", girth.validate_estimation_options, lambda v: ([], {}))
    add("tag_missing", girth.tag_missing_data, lambda v: ([graded(v).astype((np.int64, np.int64)[v]), [1, 2]], {}))
    add("condition", girth.condition_polytomous_response, lambda v: ([graded(v, missing=0.1)], {}))
    add("condition-whole", girth.condition_polytomous_response, lambda v: ([graded(v)], dict(trim_ends=False, _reference=0.0)))
    add("counts", girth.get_true_false_counts, lambda v: ([binary(v)], {}))
    add("approx", girth.mml_approx, lambda v: ([binary(v)], dict(discrimination=1.1)))
    add("kernel_sign", girth.convert_responses_to_kernel_sign, lambda v: ([binary(v, missing=0.1)], {}))
    add("trim", girth.trim_response_set_and_counts, lambda v: ([binary(v), np.arange(30) + v], {}))
    add("beta_LUT", table, lambda v: ([(0.15, 5, 40), (-5, 5, 40), opts(v), (1.1 + v, 0.4)], {}))
    add("ctt", girth.classical_test_statistics, lambda v: ([graded(v, missing=0.05)], dict(start_value=1, stop_value=3)))
    add("latent", latent_steps, lambda v: ([binary(v), opts(v, estimate_distribution=True)], {}))
    add("latent-null", latent_steps, lambda v: ([binary(v), opts(v)], {}))
    add("spline", spline, lambda v: ([np.abs(params(v, 7)[0]), 7, np.linspace(-3, 3, 12) + 0.1 * v], {}))
    add("bootstrap", bootstrap, lambda v: ([binary(v), girth.rasch_mml], dict(bootstrap_iterations=3, n_processors=1, options=opts(v), seed=v)))
    add("bootstrap-pool", bootstrap, lambda v: ([binary(v), functools.partial(girth.rasch_mml, discrimination=1.1)],
                                                dict(bootstrap_iterations=4, n_processors=2, options=opts(v), seed=v)))
    # correlation and statistics
    add("polychoric", common.polychoric_correlation_serial, lambda v: ([graded(v, 3), 1, 3], {}))
    add("polychoric-parallel", parallel, lambda v: ([graded(v, 3), 1, 3, 2], {}))
    add("table", common.contingency_table, lambda v: ([graded(v)[0], graded(v)[1], 1, 3], {}))
    add("validate_table", common.validate_contingency_table, lambda v: ([np.array([[4., 0, 3], [1 + v, 0, 5], [0, 0, 2]])], {}))
    add("polyserial", common.polyserial_correlation, lambda v: ([ref.quantiles(40) + 0.1 * v * graded(0)[0], graded(v)[0]], {}))
    add("alpha", common.cronbach_alpha, lambda v: ([graded(v, missing=0.1)], {}))
    add("reverse", common.reverse_score, lambda v: ([graded(v), np.array([True, False, v == 1, True])], dict(max_val=3)))
    add("entropy", common.entropy, lambda v: ([corr(v)], dict(axis=v)))
    add("sphere_vector", common.hyperspherical_vector, lambda v: ([params(v)[0]], {}))
    add("sphere_angles", common.hyperspherical_angles, lambda v: ([params(v)[0]], {}))
    add("procrustes", common.procrustes_rotation, lambda v: ([corr(v), corr(1 - v)], {}))
    # factor analysis
    add("pca", factoranalysis.principal_components_analysis, lambda v: ([corr(v), 2], {}))
    add("paf", factoranalysis.principal_axis_factor, lambda v: ([corr(v), 1], {}))
    add("paf-guess", factoranalysis.principal_axis_factor, lambda v: ([corr(v), 1], dict(initial_guess=np.full(5, 0.5 + 0.1 * v))))
    add("mlfa", factoranalysis.maximum_likelihood_factor_analysis, lambda v: ([corr(v), 1], {}))
    add("mlfa-guess", factoranalysis.maximum_likelihood_factor_analysis, lambda v: ([corr(v), 1], dict(initial_guess=np.full(5, 0.5 + 0.1 * v))))
    add("mrfa", factoranalysis.minimum_rank_factor_analysis, lambda v: ([corr(v), 1], {}))
    add("mrfa-guess", factoranalysis.minimum_rank_factor_analysis, lambda v: ([corr(v), 1], dict(initial_guess=np.full(5, 0.5 + 0.1 * v))))
    add("sparsify", factoranalysis.sparsify_loadings, lambda v: ([corr(v)[:, :2]], dict(seed=v)))
    add("sparsify-guess", factoranalysis.sparsify_loadings, lambda v: ([corr(v)[:, :2]], dict(initial_guess=np.array([0.3, 1.9 + v]), seed=3, orthogonal=True)))
    # synthetic data
    add("synthetic", synthetic.create_synthetic_irt_dichotomous, lambda v: ([params(v)[0], params(v)[1], ref.quantiles(20)], dict(guessing=0.1, seed=v)))
    add("synthetic-scalar", synthetic.create_synthetic_irt_dichotomous, lambda v: ([params(v)[0], (1.3, 1)[v], ref.quantiles(20)], dict(guessing=(0.1, 0)[v], seed=v)))
    for m in ("grm", "pcm", "gum"):
        tau = np.array([[-1.0, -0.4, 0.0, 0.4, 1.0]] * 4) if m == "gum" else np.array([[-1.0, 0.3]] * 4)
        add("synthetic-" + m, synthetic.create_synthetic_irt_polytomous,
            lambda v, m=m, tau=tau: ([tau * (1 + 0.1 * v), params(v)[1], ref.quantiles(20)], dict(model=m, seed=v)))
        add("synthetic-" + m + "-scalar", synthetic.create_synthetic_irt_polytomous,
            lambda v, m=m, tau=tau: ([tau * (1 + 0.1 * v), (1.3, 1)[v], ref.quantiles(20)], dict(model=m, seed=v)))
    return out


MENU = _menu()


def near(x):
    """Values that are easily taken for x: (what differs, value)."""
    if isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.size:
        square = x.ndim == 2 and x.shape[0] == x.shape[1] and np.array_equal(x, x.T)
        y = x + 1e-4 * (1 - np.eye(len(x))) if square else x.copy()
        if not square:
            y.flat[-1] += 1e-4
        yield "a little", y
        if not square:
            yield "all a little", x + 2e-6
            yield "order", x[::-1].copy()
    elif isinstance(x, np.ndarray) and x.dtype.kind in "iu" and x.ndim == 2:
        other = [j for j in range(1, x.shape[1]) if not np.array_equal(x[:, j], x[:, 0])]
        if other:
            y = x.copy()
            y[:, [0, other[0]]] = y[:, [other[0], 0]]
            yield "two persons exchanged", y
            y = x.copy()
            y[:, -1] = y[:, other[0]]
            yield "another last person", y
        y = x.copy()
        y[[0, 1]] = y[[1, 0]]
        yield "two items exchanged", y
        yield "reversed", x[:, ::-1].copy()
        yield "one person less", x[:, :-1].copy()
        yield "one item less", x[:-1].copy()
        yield "in the same memory order", np.asfortranarray(x)
        if x.size % 2 == 0:
            yield "another shape", x.reshape(2 * x.shape[0], -1) if x.shape[1] % 2 == 0 else x.reshape(x.shape[0] // 2, -1)
    elif isinstance(x, (bool, np.bool_)):
        yield "opposite", not x
    elif isinstance(x, int):
        yield "one more", x + 1
        yield "the same as a float", float(x)
    elif isinstance(x, float):
        yield "a little", x + 1e-4
        yield "doubled", 2 * x
    elif isinstance(x, tuple) and x and all(isinstance(v, (int, float)) for v in x):
        yield "a little", x[:-1] + (x[-1] + 1e-4,) if isinstance(x[-1], float) else x[:-1] + (x[-1] + 1,)
    elif callable(x) and getattr(x, "__name__", "") == "pdf":
        yield "another distribution", stats.norm(0.3, 1.1).pdf
        yield "a close distribution", stats.norm(0, 1.0001).pdf


def neighbours(name):
    """Argument lists that differ from variant 0 of a call in one argument."""
    fn, build = MENU[name]
    a, k = build(0)
    for i, x in enumerate(a):
        if isinstance(x, dict):
            for key, value in x.items():
                for what, y in near(value):
                    yield (i, key, what), [*a[:i], {**x, key: y}, *a[i + 1:]], k
            continue
        for what, y in near(x):
            yield (i, what), [*a[:i], y, *a[i + 1:]], k
    for name, x in k.items():
        if isinstance(x, dict):
            for key, value in x.items():
                for what, y in near(value):
                    yield (name, key, what), a, {**k, name: {**x, key: y}}
            continue
        for what, y in near(x):
            yield (name, what), a, {**k, name: y}


def bits(x):
    """Everything there is to see of a value."""
    if isinstance(x, np.ma.MaskedArray):
        return ("masked", bits(np.ma.getdata(x)), bits(np.ma.getmaskarray(x)))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objects", x.shape, tuple(bits(y) for y in x.ravel()))
        return ("array", str(x.dtype), x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, dict):
        return ("dict", tuple(sorted((str(k), bits(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(bits(y) for y in x))
    if isinstance(x, np.generic):
        return ("scalar", str(x.dtype), x.tobytes())
    if isinstance(x, float):
        return ("float", x.hex())
    if callable(x):
        return ("callable", getattr(x, "__qualname__", type(x).__name__))
    return (type(x).__name__, repr(x))


def spoil(x):
    """Overwrites everything a caller was given."""
    if isinstance(x, np.ma.MaskedArray):
        x = np.ma.getdata(x)
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object:
            x[...] = np.nan if x.dtype.kind == "f" else -7 if x.dtype.kind == "i" else 1
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v)
        for k in list(x):
            x[k] = "spoiled"
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v)
        if isinstance(x, list):
            x.append("spoiled")
    elif type(x).__module__.startswith("girth") and hasattr(x, "__dict__"):
        for v in list(vars(x).values()):            # a distribution object handed out
            if not callable(v):
                spoil(v)


def pour(src, dst):
    """Writes the arrays of one argument list into those of another; False if they do not fit."""
    if isinstance(dst, np.ndarray):
        if not isinstance(src, np.ndarray) or src.shape != dst.shape or src.dtype != dst.dtype:
            return False
        dst[...] = src
        return True
    if isinstance(dst, list):
        for i, (s, t) in enumerate(zip(src, dst)):
            if isinstance(t, (np.ndarray, dict)):
                if not pour(s, t):
                    return False
            else:
                dst[i] = s
        return True
    if isinstance(dst, dict):
        for k in dst:
            if isinstance(dst[k], (np.ndarray, dict)):
                if not pour(src[k], dst[k]):
                    return False
            else:
                dst[k] = src[k]
        return True
    return False
