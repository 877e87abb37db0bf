"""Storage type and memory layout of answers and parameters."""
import numpy as np

from mc import calls, ref

LEVEL = "exploration"
RULE = ("every call of the menu that takes answers or numeric parameters x two data sets x every storage type that holds the "
        "values x every layout (C, Fortran, strided, reversed, transposed, read-only, big endian); one evaluation is one call "
        "compared with the same call on a C-ordered 64 bit array; distinct by call, storage and layout")
ASSUMPTIONS = ["results of one pass must agree to rounding; results of iterations to 1e-5 of their size, as the order of "
               "summation may follow the memory layout; answers stored in single precision: to 1e-4",
               "numeric parameters are stored in integers of 32 bits and more, as numpy computes in half precision for less"]
CASE_SECONDS = 300
M = ref.MISSING

# call -> positions of the arguments that hold answers / numbers
ANSWERS = {n: (0,) for n in calls.MENU if n.startswith((
    "rasch", "onepl", "twopl", "threepl", "ability", "grm", "pcm", "gum", "md_", "tag", "condition", "counts", "approx", "kernel",
    "trim", "ctt", "latent", "polychoric", "alpha", "reverse"))}
ANSWERS.update({"table": (0, 1), "polyserial": (1,), "bootstrap": (0,)})
NUMBERS = {"ability_mle": (1, 2), "ability_map": (1, 2), "ability_eap": (1, 2), "ability_3pl_eap": (1, 2, 3), "ability_3pl_map": (1, 2, 3),
           "ability_3pl_mle": (1, 2, 3), "md_eap": (1, 2), "md_map": (1, 2), "polyserial": (0,), "entropy": (0,), "sphere_vector": (0,),
           "sphere_angles": (0,), "procrustes": (0, 1), "pca": (0,), "paf": (0,), "mlfa": (0,), "mrfa": (0,), "sparsify": (0,),
           "synthetic": (0, 1, 2), "synthetic-grm": (0, 1, 2), "synthetic-pcm": (0, 1, 2), "synthetic-gum": (0, 1, 2), "trim": (1,),
           "validate_table": (0,), "spline": (0, 2), "mlfa-guess": ("initial_guess",), "paf-guess": ("initial_guess",),
           "mrfa-guess": ("initial_guess",), "sparsify-guess": ("initial_guess",)}
NUMBERS.update({n: (1,) for n in calls.MENU if n.startswith("ability") and n.endswith("-scalar")})
NUMBERS.update({n: (0, 2) for n in calls.MENU if n.startswith("synthetic") and n.endswith("-scalar")})
ONE_PASS = ("ability_eap", "ability_eap-defaults", "ability_3pl_eap", "md_eap", "tag_missing", "condition", "condition-whole", "counts", "approx",
            "kernel_sign", "trim", "table", "validate_table", "alpha", "reverse", "entropy", "sphere_vector", "sphere_angles", "procrustes",
            "pca", "synthetic", "synthetic-grm", "synthetic-pcm", "synthetic-gum", "latent-null", "spline",
            "ability_eap-scalar", "ability_3pl_eap-scalar") + tuple(n for n in calls.MENU if n.startswith("synthetic") and n.endswith("-scalar"))


def cases(tier):
    names = sorted((set(ANSWERS) | set(NUMBERS)) - {"twopl_mml-defaults", "ability_eap-defaults"})
    seeds = (0, 1) if tier == "quick" else (0, 1, 2, 3, 4)
    return [(f"{n}-{v}", [n, v]) for n in names for v in seeds]


def layouts(x):
    x = np.ascontiguousarray(x)
    yield "C", x.copy()
    yield "read-only", _locked(x.copy())
    if x.ndim > 1:
        yield "F", np.asfortranarray(x)
        yield "F read-only", _locked(np.asfortranarray(x))
        yield "transposed", np.ascontiguousarray(x.T).T
    wide = np.zeros(tuple(2 * s for s in x.shape), dtype=x.dtype)
    view = wide[tuple(slice(None, None, 2) for _ in x.shape)]
    view[...] = x
    yield "strided", view
    back = tuple(slice(None, None, -1) for _ in x.shape)
    yield "reversed", x[back].copy()[back]


def _locked(x):
    x.flags.writeable = False
    return x


def storages(x, answers):
    """Every type that holds the values of an array of whole numbers."""
    lo, hi = x.min(), x.max()
    types = [np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64]
    types = types if answers else [np.int32, np.int64, np.uint32]
    for t in types:
        if np.iinfo(t).min <= lo and hi <= np.iinfo(t).max:
            yield np.dtype(t).name, x.astype(t)
    yield "big endian", x.astype(">i8")
    if answers and set(np.unique(x)) <= {0, 1}:
        yield "bool", x.astype(bool)
    for t in (np.float32, np.float64) if answers else (np.float64,):
        yield np.dtype(t).name, x.astype(t)
    yield "big endian float", x.astype(">f8")


def gap(a, b):
    """Largest difference of two results, relative to their size; structure must agree, types of numbers need not."""
    if isinstance(a, dict):
        return max([gap(a[k], b[k]) for k in a], default=0) if isinstance(b, dict) and a.keys() == b.keys() else np.inf
    if isinstance(a, (list, tuple)):
        return max([gap(x, y) for x, y in zip(a, b)], default=0) if isinstance(b, (list, tuple)) and len(a) == len(b) else np.inf
    if a is None or isinstance(a, str) or callable(a):
        return 0 if callable(a) or a == b else np.inf
    a, b = np.ma.filled(np.ma.asarray(a), M), np.ma.filled(np.ma.asarray(b), M)
    if a.dtype == object:
        return gap(list(a.ravel()), list(b.ravel()))
    if a.shape != b.shape:
        return np.inf
    a, b = a.astype(float), b.astype(float)
    if not (np.isnan(a) == np.isnan(b)).all() or not (np.isinf(a) == np.isinf(b)).all():
        return np.inf
    good = np.isfinite(a)
    return float((np.abs(a - b)[good] / np.maximum(1, np.abs(a[good]))).max(initial=0))


def run(payload, rec):
    name, v = payload
    fn, build = calls.MENU[name]

    def fresh():
        a, k = build(v)
        a = list(a)
        for pos in NUMBERS.get(name, ()):            # whole numbers, so that every type holds them
            x = get(a, k, pos)
            if name in ("pca", "paf", "mlfa", "mrfa"):
                continue
            if name.startswith("ability_3pl") and pos == 3:
                x = np.zeros_like(x)
            elif name == "polyserial":
                x = np.round(x * 3)
            elif "initial_guess" == pos or name in ("spline", "sphere_vector"):
                x = np.ceil(np.abs(x))
            elif pos == 2 and name.startswith(("ability", "md", "synthetic")) and x.ndim and name[:9] != "synthetic" or \
                    (pos == 1 and name.startswith("synthetic")):
                x = np.maximum(1, np.round(np.abs(x)))
            else:
                x = np.round(x * 1.5)
            put(a, k, pos, x)
        return a, k

    def get(a, k, pos):
        return k[pos] if isinstance(pos, str) else a[pos]

    def put(a, k, pos, x):
        if isinstance(pos, str):
            k[pos] = x
        else:
            a[pos] = x

    a, k = fresh()
    want = fn(*a, **k)
    tol = 1e-11 if name in ONE_PASS else 1e-5
    for group, table in (("answers", ANSWERS), ("numbers", NUMBERS)):
        positions = table.get(name, ())
        for pos in positions:
            a, k = fresh()
            base = np.asarray(get(a, k, pos))
            whole = group == "answers" or bool((base == np.round(base)).all())
            for storage, x in storages(base.astype(np.int64), group == "answers") if whole else [("float64", base.astype(float))]:
                for layout, y in layouts(x):
                    a, k = fresh()
                    put(a, k, pos, y)
                    for other in positions:          # answers of two variables share their type
                        if other != pos and group == "answers":
                            put(a, k, other, np.asarray(get(a, k, other)).astype(y.dtype))
                    kept = calls.bits([a, k])
                    info = dict(call=name, seed=v, argument=pos, storage=storage, layout=layout)
                    rec.count("evaluations")
                    rec.key(name, pos, storage, layout)
                    try:
                        got = fn(*a, **k)
                    except Exception as exc:
                        rec.fail("fails for this storage", error=f"{type(exc).__name__}: {exc}", **info)
                        continue
                    rec.check(calls.bits([a, k]) == kept, "an argument is modified", **info)
                    miss = gap(want, got)
                    limit = 1e-4 if storage == "float32" else tol
                    if not miss <= limit:
                        rec.fail("the result depends on the storage", missing=miss, **info)
