"""Options: documented defaults, validation, and no leakage between calls."""
import itertools

import numpy as np
from scipy import stats

import girth
from mc import ref

LEVEL = "model_checking"
RULE = ("states are histories of at most 3 (thorough: 4) operations on options (reading defaults, validating, "
        "mutating what was returned, failed validations, estimation calls); after each the defaults, the "
        "argument and a probe validation are compared with the reference; plus every option value menu "
        "alone and in pairs and every public entry point with every bad value; non-trivial when an "
        "operation changes or rejects something")

DEFAULTS = {"max_iteration": 25, "quadrature_bounds": (-4.5, 4.5), "quadrature_n": 41,
            "hyper_quadrature_n": 41, "use_LUT": True, "estimate_distribution": False,
            "number_of_samples": 9, "initial_guess": True, "num_processors": 1}
PDF = stats.norm(1, 2).pdf
GOOD = {"max_iteration": [1, 2, 25, 1000], "distribution": [PDF, np.cos, lambda x: x],
        "quadrature_bounds": [(-1, 1), [-6, 6.5], (0, 0.5), (-3, -1)],
        "quadrature_n": [8, 9, 41, 200], "hyper_quadrature_n": [8, 21, 99],
        "use_LUT": [True, False], "estimate_distribution": [True, False],
        "number_of_samples": [5, 6, 31], "initial_guess": [True, False], "num_processors": [1, 2, 7]}
BAD = {"max_iteration": [0, -1, 2.0, "3", None, 1.5], "distribution": [1, None, "norm", np.zeros(3)],
       "quadrature_bounds": [(1, 1), (2, -2), [0, -1], 4.5, "ab"[:0] or None, {1: 2}],
       "quadrature_n": [7, 0, -9, 41.0, "41", None], "hyper_quadrature_n": [7, 0, 12.5, None],
       "use_LUT": [0, 1, "yes", None], "estimate_distribution": [0, 1, None, "True"],
       "number_of_samples": [4, 0, -5, 9.0, None], "initial_guess": [0, 1, None],
       "num_processors": [1.0, "2", None]}


def cases(tier):
    out = [("defaults", ["defaults"]), ("notdict", ["notdict"])]
    for k in GOOD:
        out.append((f"single-{k}", ["single", k]))
    for a, b in itertools.combinations(GOOD, 2):
        out.append((f"pair-{a}-{b}", ["pair", a, b]))
    for k in range(len(OPS)):
        out.append((f"history-{k}", ["history", k, 4 if tier == "thorough" else 3]))
    for name in ENTRY:
        out.append((f"entry-{name}", ["entry", name]))
    return out


def same(got, want):
    if set(got) != set(want) | ({"distribution"}):
        return False
    for k, v in want.items():
        if not (got[k] is v or got[k] == v) or type(got[k]) is not type(v):
            return False
    return callable(got["distribution"])


def pristine():
    d = girth.default_options()
    th = np.linspace(-4, 4, 9)
    return same(d, DEFAULTS) and np.allclose(d["distribution"](th), stats.norm.pdf(th), atol=1e-14)


def rejected(opts, kinds):
    try:
        girth.validate_estimation_options(opts)
    except kinds:
        return True
    return False


# operations on options: each returns whether the step itself behaved
def op_mutate_defaults():
    d = girth.default_options()
    for k in d:
        d[k] = "spoiled"
    d["extra"] = 1
    return True


def op_clear_defaults():
    girth.default_options().clear()
    return True


def op_validate_none():
    d = girth.validate_estimation_options()
    ok = same(d, DEFAULTS)
    d.update({k: -1 for k in DEFAULTS})
    return ok


def op_validate_empty():
    arg = {}
    d = girth.validate_estimation_options(arg)
    ok = same(d, DEFAULTS) and arg == {}
    d["quadrature_n"] = 3
    return ok and arg == {}


def op_validate_some():
    arg = {"max_iteration": 3, "quadrature_n": 15}
    d = girth.validate_estimation_options(arg)
    ok = same(d, {**DEFAULTS, **arg}) and arg == {"max_iteration": 3, "quadrature_n": 15}
    d["max_iteration"] = 99
    d["use_LUT"] = None
    return ok and arg == {"max_iteration": 3, "quadrature_n": 15}


def op_validate_full():
    arg = {k: v[-1] for k, v in GOOD.items()}
    copy = dict(arg)
    d = girth.validate_estimation_options(arg)
    ok = same(d, copy) and arg == copy
    d.clear()
    return ok and arg == copy


def op_idempotent():
    d = girth.validate_estimation_options({"quadrature_bounds": [-2, 3], "number_of_samples": 7})
    e = girth.validate_estimation_options(d)
    return same(e, {**DEFAULTS, "quadrature_bounds": [-2, 3], "number_of_samples": 7})


def op_reject_value():
    arg = {"max_iteration": 5, "quadrature_n": 2}
    return rejected(arg, AssertionError) and arg == {"max_iteration": 5, "quadrature_n": 2}


def op_reject_key():
    return rejected({"max_iterations": 5}, (AssertionError, KeyError))


def op_estimate():
    arg = {"quadrature_n": 11, "max_iteration": 2}
    data = ref.make_data(3, 2, 20)
    girth.twopl_mml(data, arg)
    girth.rasch_mml(data, options=arg)
    return arg == {"quadrature_n": 11, "max_iteration": 2}


def op_score():
    arg = {"quadrature_bounds": (-2, 2), "distribution": PDF}
    girth.ability_eap(np.array([[0, 1]]), np.zeros(1), np.ones(1), arg)
    girth.LatentPDF(arg)
    girth.create_beta_LUT((.5, 2, 3), (-2, 2, 5), arg)
    return arg == {"quadrature_bounds": (-2, 2), "distribution": PDF}


OPS = [op_mutate_defaults, op_clear_defaults, op_validate_none, op_validate_empty, op_validate_some,
       op_validate_full, op_idempotent, op_reject_value, op_reject_key, op_estimate, op_score]

_d = None


def _data():
    return ref.make_data(4, 2, 24)


ENTRY = {
    "rasch_mml": lambda o: girth.rasch_mml(_data(), 1, o),
    "onepl_mml": lambda o: girth.onepl_mml(_data(), options=o),
    "twopl_mml": lambda o: girth.twopl_mml(_data(), o),
    "twopl_mml_eap": lambda o: girth.twopl_mml_eap(_data(), o),
    "threepl_mml": None,
    "grm_mml": lambda o: girth.grm_mml(_data(), o),
    "grm_mml_eap": lambda o: girth.grm_mml_eap(_data(), o),
    "pcm_mml": lambda o: girth.pcm_mml(_data(), o),
    "gum_mml": lambda o: girth.gum_mml(_data(), options=o),
    "rasch_jml": lambda o: girth.rasch_jml(_data(), 1, o),
    "onepl_jml": lambda o: girth.onepl_jml(_data(), o),
    "twopl_jml": lambda o: girth.twopl_jml(_data(), o),
    "grm_jml": lambda o: girth.grm_jml(_data(), o),
    "pcm_jml": lambda o: girth.pcm_jml(_data(), o),
    "rasch_conditional": lambda o: girth.rasch_conditional(_data(), 1, o),
    "ability_map": lambda o: girth.ability_map(_data(), np.zeros(4), 1, o),
    "ability_eap": lambda o: girth.ability_eap(_data(), np.zeros(4), 1, o),
    "ability_3pl_map": lambda o: girth.ability_3pl_map(_data(), np.zeros(4), np.ones(4), np.zeros(4), o),
    "ability_3pl_eap": lambda o: girth.ability_3pl_eap(_data(), np.zeros(4), np.ones(4), np.zeros(4), o),
    "multidimensional_twopl_mml": lambda o: girth.multidimensional_twopl_mml(_data(), 2, o),
    "multidimensional_grm_mml": lambda o: girth.multidimensional_grm_mml(_data(), 2, o),
    "multidimensional_ability_map": lambda o: girth.multidimensional_ability_map(
        _data(), np.zeros(4), np.ones((4, 2)), o),
    "multidimensional_ability_eap": lambda o: girth.multidimensional_ability_eap(
        _data(), np.zeros(4), np.ones((4, 2)), o),
    "initial_guess_md": lambda o: girth.initial_guess_md(_data(), 2, o),
    "create_beta_LUT": lambda o: girth.create_beta_LUT((.5, 2, 3), (-2, 2, 5), o),
    "LatentPDF": lambda o: girth.LatentPDF(o),
    "bootstrap": lambda o: girth.standard_errors_bootstrap(_data(), girth.rasch_mml, 1, 1, options=o),
}


def run(payload, rec):
    kind = payload[0]
    if kind == "defaults":
        rec.check(pristine(), "documented defaults", got=girth.default_options())
        rec.check(girth.default_options() is not girth.default_options(), "the defaults are shared")
        rec.key("defaults")
    elif kind == "notdict":
        for bad in ([1], (1, 2), "abc", 3, {1, 2}, [("max_iteration", 3)], 2.5, np.float64(1)):
            rec.count("evaluations")
            rec.check(rejected(bad, AssertionError), "options that are not a dictionary", value=repr(bad))
            rec.key(repr(bad))
        for empty in (None, {}):
            rec.check(same(girth.validate_estimation_options(empty), DEFAULTS), "no options: defaults")
        for name in ("max_iter", "Distribution", "", 3, None, "quadrature"):
            rec.check(rejected({name: 1}, (AssertionError, KeyError)), "unknown option", name=repr(name))
            rec.check(rejected({"max_iteration": 3, name: 1}, (AssertionError, KeyError)), "unknown option")
            rec.key(repr(name))
    elif kind == "single":
        k = payload[1]
        for v in GOOD[k]:
            arg = {k: v}
            got = girth.validate_estimation_options(arg)
            rec.count("evaluations")
            want = {**DEFAULTS, **arg}
            rec.check(same(got, want) and list(arg) == [k] and arg[k] is v, "accepted value", key=k, value=repr(v))
            rec.check(got is not arg, "the argument is returned")
            rec.key(k, repr(v))
        for v in BAD[k]:
            rec.count("evaluations")
            rec.check(rejected({k: v}, (AssertionError, TypeError, KeyError)), "bad value accepted", key=k,
                      value=repr(v))
            rec.key(k, "bad", repr(v))
        rec.check(pristine(), "the defaults changed")
    elif kind == "pair":
        _, a, b = payload
        for va, vb in itertools.product(GOOD[a], GOOD[b]):
            for arg in ({a: va, b: vb}, {b: vb, a: va}):
                got = girth.validate_estimation_options(arg)
                rec.count("evaluations")
                rec.check(same(got, {**DEFAULTS, **arg}), "accepted pair", pair=repr(arg))
                rec.key(a, b, repr(va), repr(vb))
        kinds = (AssertionError, TypeError, KeyError)
        for va, vb in itertools.product(GOOD[a], BAD[b]):
            rec.count("evaluations")
            rec.check(rejected({a: va, b: vb}, kinds) and rejected({b: vb, a: va}, kinds),
                      "a bad value beside a good one is accepted", pair=repr((a, va, b, vb)))
        for va, vb in itertools.product(BAD[a], GOOD[b]):
            rec.count("evaluations")
            rec.check(rejected({a: va, b: vb}, kinds) and rejected({b: vb, a: va}, kinds),
                      "a bad value beside a good one is accepted", pair=repr((a, va, b, vb)))
    elif kind == "history":
        _, first, depth = payload
        for tail in itertools.product(range(len(OPS)), repeat=depth - 1):
            hist = (first,) + tail
            if sum(OPS[k] is op_estimate for k in hist) > 1:
                continue
            rec.count("states")
            for step, k in enumerate(hist):
                rec.count("transitions")
                ok = OPS[k]()
                if not (ok and pristine()):
                    rec.fail("options misbehave after a history", history=[OPS[j].__name__ for j in hist[:step + 1]])
                    return
            rec.count("traces_validated_against_impl")
            rec.key(hist)
        rec.sample(history=[OPS[k].__name__ for k in hist])
    elif kind == "entry":
        f = ENTRY[payload[1]]
        if f is None:
            from girth.unidimensional.dichotomous.threepl_mml import threepl_mml
            f = lambda o: threepl_mml(_data(), o)
        for k, values in BAD.items():
            for v in values:
                rec.count("evaluations")
                try:
                    f({k: v})
                    rec.fail("an entry point accepts a bad option", entry=payload[1], option=k, value=repr(v))
                except (AssertionError, TypeError, KeyError):
                    rec.key(payload[1], k, repr(v))
        for bad in ([3], "abc", {"nothing": 1}):
            try:
                f(bad)
                rec.fail("an entry point accepts bad options", entry=payload[1], value=repr(bad))
            except (AssertionError, KeyError):
                rec.key(payload[1], repr(bad))
