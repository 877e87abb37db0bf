"""Bootstrap errors under every schedule."""
import functools
import itertools

import numpy as np

import girth
from girth import standard_errors_bootstrap as bootstrap
from mc import pools, ref

LEVEL = "exploration"
RULE = ("every number of resamples 1-9 (and larger ones) x processors 1-5 x form of the estimates x given or computed "
        "solution x seed, with a recording estimator; for up to 4 workers every order in which they run; every single "
        "refit and every worker failing; real estimators and real pools on a menu; one evaluation is one call under one "
        "schedule; distinct by settings and schedule; non-trivial with two processors or a failure")
ASSUMPTIONS = ["a worker's whole chunk is the unit of scheduling",
               "the process pool is replaced by a stand-in that runs the calls in this process on copies of their arguments; "
               "real pools are run for conformance",
               "every resample estimates the same shape (no category vanishes)"]
CASE_SECONDS = 120
LOG = []
FAIL = [None]


def model(dataset, options=None, form="flat", scale=1.0):
    """An estimator whose estimates identify the answers it was given."""
    dataset = np.asarray(dataset)
    if FAIL[0] is not None and len(LOG) == FAIL[0]:
        LOG.append(None)
        raise FloatingPointError("injected")
    LOG.append((pools.CURRENT[-1] if pools.CURRENT else None, dataset.copy(), options))
    w = np.sin(1.7 * np.arange(dataset.shape[1]))
    b = scale * (dataset * (1 + 0.01 * w)).mean(axis=1)
    a = dataset.std(axis=1) + 0.1
    if form == "table":
        b = np.column_stack([b - 1, b, b + a, np.full_like(b, np.nan)])
    if form == "scalar":
        a = float(a.mean())
    if form == "matrix":
        a = np.column_stack([a, b ** 2, a - b])
        b = np.column_stack([b, 2 * b])
    return {"Difficulty": b, "Discrimination": a, "Ability": dataset.mean(axis=0)}


class Unseen(Exception):
    pass


FORMS = ("flat", "table", "scalar", "matrix")


def data(seed=0, items=4, persons=13):
    """Every person's answers are unique."""
    x = np.random.default_rng([25, seed]).integers(0, 3, (items, persons))
    x[0] = np.arange(persons)
    return x


def cases(tier):
    out = [("law", ["law"]), ("seeds", ["seeds"])]
    for p in (1, 2, 3, 4, 5):
        for form in FORMS:
            out.append((f"numbers-{p}-{form}", ["numbers", p, form]))
        out.append((f"fault-{p}", ["fault", p]))
        if 1 < p < (5 if tier == "quick" else 6):
            out.append((f"order-{p}", ["order", p]))
    for p in (1, 2, 3, 6, 8, 13):
        out.append((f"large-{p}", ["large", p]))
    for name in REAL:
        out.append((f"real-{name}", ["real", name]))
    for p in (2, 3):
        out.append((f"spawn-{p}", ["spawn", p]))
    return out


REAL = {"rasch_mml": 2, "onepl_mml": 2, "twopl_mml": 2, "twopl_mml_eap": 2, "rasch_conditional": 2, "rasch_jml": 2,
        "onepl_jml": 2, "twopl_jml": 2, "grm_mml": 3, "pcm_mml": 3, "grm_mml_eap": 3, "grm_jml": 3, "pcm_jml": 3,
        "multidimensional_twopl_mml": 2, "multidimensional_grm_mml": 3}


def summary(results, solution):
    """The documented statistics of a list of estimates."""
    out = {}
    for key in ("Discrimination", "Difficulty"):
        stack = np.array([np.atleast_1d(r[key]) for r in results], dtype=float)
        s = np.atleast_1d(np.asarray(solution[key], dtype=float))
        out[key] = (stack.std(axis=0, ddof=1) if len(stack) > 1 else np.full(s.shape, np.nan),
                    np.percentile(stack, 2.5, axis=0), np.percentile(stack, 97.5, axis=0), stack.mean(axis=0) - s)
    return out


def judge(rec, got, results, solution, **info):
    want = summary(results, solution)
    for key, (se, lo, hi, bias) in want.items():
        for name, x, y in (("standard error", got["Standard Errors"][key], se), ("lower limit", got["95th CI"][key][0], lo),
                           ("upper limit", got["95th CI"][key][1], hi), ("bias", got["Bias"][key], bias)):
            x = np.atleast_1d(x)
            rec.check(x.shape == y.shape and ref.close(x, y, 1e-9), f"{name} is not that of the refits", of=key, got=x,
                      want=y, **info)


def call(rec, schedule, x, fn, **kw):
    """(kind, value) and the refits made, in the order they ran."""
    rec.count("evaluations")
    rec.count("schedules")
    LOG.clear()
    with pools.controlled():
        try:
            out = "value", pools.run(schedule, lambda: bootstrap(x, fn, **kw))
        except Exception as e:
            out = "error", e
    if kw["n_processors"] > 1 and not schedule.executors and len(LOG) < 2 and out[0] == "value":
        raise Unseen                     # refits ran where they cannot be seen
    return out, list(LOG)


def resample_ok(x, sample):
    """Every column of the sample is a person of the data, by the unique mark."""
    return sample.shape == x.shape and np.isin(sample[0], x[0]).all() and np.array_equal(x[:, sample[0]], sample)


def inspect(rec, x, got, log, fn, b, given, schedule, info):
    """All that can be said about one successful call."""
    refits = log if given else log[1:]
    if not given:
        rec.check(log and np.array_equal(log[0][1], x), "the solution is not computed from the data", **info)
    if not rec.check(len(refits) == b, "the number of refits is not the requested one", refits=len(refits), **info):
        return
    rec.check(all(resample_ok(x, r[1]) for r in refits), "a resample is not one of persons of the original size", **info)
    rec.check(all(isinstance(r[2], dict) and r[2]["max_iteration"] == 3 and r[2]["quadrature_n"] == 41 for r in log),
              "the options do not reach the refits", **info)
    LOG.clear()
    results = [fn(r[1]) for r in refits]
    solution = given if given is not None else fn(x)
    rec.check(all(ref.close(got["Solution"][k], solution[k], 0) for k in ("Difficulty", "Discrimination")),
              "the reported solution is another one", **info)
    judge(rec, got, results, solution, **info)


def run(payload, rec):
    try:
        explore(payload, rec)
    except Unseen:
        rec.count("unseen")


def explore(payload, rec):
    kind = payload[0]
    FAIL[0] = None
    if kind == "numbers":
        _, p, form = payload
        fn = functools.partial(model, form=form)
        for b in list(range(1, 10)) + [16, 23, 40]:
            for seed, given in ((b, False), (0, True)):
                x = data(b % 3)
                kept = x.copy()
                sol = fn(x + 1) if given else None
                s = pools.Schedule()
                (how, got), log = call(rec, s, x, fn, bootstrap_iterations=b, n_processors=p, solution=sol, seed=seed,
                                       options={"max_iteration": 3})
                info = dict(resamples=b, processors=p, form=form, seed=seed)
                if rec.check(how == "value", "the call fails", error=repr(got), **info):
                    inspect(rec, x, got, log, fn, b, sol, s, info)
                rec.check(np.array_equal(x, kept), "the data is modified", **info)
                if p > 1:
                    rec.key(p, form, b, seed)
        rec.sample(processors=p, form=form)
    elif kind == "large":
        p, fn = payload[1], functools.partial(model, form="table")
        for b in (99, 100, 128, 255, 257, 1000):
            x = data(b % 3, items=4, persons=(13, 300)[b % 2])
            s = pools.Schedule()
            (how, got), log = call(rec, s, x, fn, bootstrap_iterations=b, n_processors=p, seed=b, options={"max_iteration": 3})
            info = dict(resamples=b, processors=p)
            if rec.check(how == "value", "the call fails", error=repr(got), **info):
                inspect(rec, x, got, log, fn, b, None, s, info)
                samples = [r[1].tobytes() for r in log[1:]]
                rec.check(len(set(samples)) == len(samples), "two refits use the same resample", **info)
            rec.key("large", p, b)
    elif kind == "order":
        p = payload[1]
        x, fn = data(1), functools.partial(model, form="table")
        orders = pools.orders(p)
        for seed in (0, 5):
            first = None
            for b in (p, 2 * p + 1, 11):
                first = None
                for order in orders:
                    for early in (False, True):
                        if early and order != orders[0]:
                            continue
                        s = pools.Schedule(order, early=early)
                        (how, got), log = call(rec, s, x, fn, bootstrap_iterations=b, n_processors=p, seed=seed,
                                               options={"max_iteration": 3})
                        info = dict(resamples=b, processors=p, order=order, seed=seed)
                        if not rec.check(how == "value", "the call fails", error=repr(got), **info):
                            continue
                        if not s.executors:
                            return
                        inspect(rec, x, got, log, fn, b, None, s, info)
                        flat = np.concatenate([np.ravel(v) for k in ("Discrimination", "Difficulty") for v in
                                               (got["Standard Errors"][k], *got["95th CI"][k], got["Bias"][k])])
                        if first is None:
                            first = flat
                        rec.check(ref.close(flat, first, 1e-12), "the result depends on the order of the workers", **info)
                        # different processors draw from different streams, and every refit draws anew
                        samples = [r[1].tobytes() for r in log[1:]]
                        rec.check(len(set(samples)) == len(samples), "two refits use the same resample", **info)
                        rec.key("order", p, b, order, early, seed)
    elif kind == "fault":
        p = payload[1]
        x = data(2)
        for b in (3, 5, 8):
            for k in range(b + 1):
                FAIL[0] = k
                (how, got), log = call(rec, pools.Schedule(), x, model, bootstrap_iterations=b, n_processors=p, seed=1)
                rec.check(how == "error" or len(log) <= k, "a failing refit is swallowed", refit=k, resamples=b, processors=p)
                rec.key("refit", p, b, k)
            FAIL[0] = None
            if p == 1:
                continue
            for t in range(p):
                for early in (False, True):
                    for name, s in (("raise", pools.Schedule(early=early, faults={t: ZeroDivisionError("injected")})),
                                    ("die", pools.Schedule(early=early, dead=t))):
                        (how, got), log = call(rec, s, x, model, bootstrap_iterations=b, n_processors=p, seed=1)
                        if not s.executors or t >= s.tasks:
                            continue
                        rec.check(how == "error", "a failing worker is swallowed", worker=t, fault=name, resamples=b,
                                  processors=p)
                        rec.key("worker", p, b, t, name, early)
    elif kind == "seeds":
        x = data(3)
        flat = lambda r: np.concatenate([np.ravel(r["Standard Errors"][k]) for k in ("Discrimination", "Difficulty")])
        for p in (1, 2, 3):
            seen = []
            for seed in (0, 1, 2, 12345, 2 ** 40):
                got = [call(rec, pools.Schedule(), x, model, bootstrap_iterations=7, n_processors=p, seed=seed)[0][1]
                       for _ in range(2)]
                rec.check(ref.close(flat(got[0]), flat(got[1]), 0), "the same seed gives another result", seed=seed,
                          processors=p)
                rec.check(not any(ref.close(flat(got[0]), v, 1e-12) for v in seen), "two seeds give the same result",
                          seed=seed, processors=p)
                seen.append(flat(got[0]))
                rec.key("seed", p, seed)
            got = [call(rec, pools.Schedule(), x, model, bootstrap_iterations=7, n_processors=p)[0][1] for _ in range(2)]
            rec.check(not ref.close(flat(got[0]), flat(got[1]), 1e-12), "without a seed the result repeats", processors=p)
        (how, got), log = call(rec, pools.Schedule(), x, model, n_processors=1, seed=1)
        rec.check(how == "value" and len(log) == 2001, "2000 resamples by default", refits=len(log) - 1)
    elif kind == "law":
        # how often each person is drawn, and how many different ones a resample holds
        for p in (1, 2, 4):
            for n in (2, 5, 13):
                x = data(4, persons=n)
                b = 3000
                (how, got), log = call(rec, pools.Schedule(), x, model, bootstrap_iterations=b, n_processors=p, seed=3)
                if len(log) < b:
                    continue
                picks = np.array([r[1][0] for r in log[1:]])
                freq = np.array([(picks == v).mean() for v in range(n)])
                slack = 6 * np.sqrt((1 / n) * (1 - 1 / n) / picks.size)
                rec.check((np.abs(freq - 1 / n) < slack).all(), "persons are not drawn equally often", got=freq, persons=n)
                # occurrences of a person, and of two persons, in a resample: binomial moments
                counts = np.array([(picks == v).sum(axis=1) for v in range(n)])
                for v in range(n):
                    var = float(((counts[v] - 1.0) ** 2).mean())
                    rec.check(abs(var - (1 - 1 / n)) < 6 * np.sqrt(3.0 / b), "draws within a resample are not independent",
                              got=var, want=1 - 1 / n, persons=n)
                    cov = float(((counts[v] - 1.0) * (counts[(v + 1) % n] - 1.0)).mean())
                    rec.check(abs(cov + 1 / n) < 6 * np.sqrt(3.0 / b), "draws of two persons are not independent", got=cov,
                              want=-1 / n, persons=n)
                rec.key("law", p, n)
    elif kind == "real":
        name = payload[1]
        fn = getattr(girth, name)
        cats = REAL[name]
        x = ref.make_data(5, cats, 120, seed=3, model="pcm" if "pcm" in name else "grm")
        if name == "rasch_mml":
            fn = functools.partial(fn, discrimination=1.2)
        if name.startswith("multi"):
            fn = functools.partial(fn, n_factors=2)
        o = {"max_iteration": 2, "quadrature_n": 11}
        log = []

        def spy(dataset, options=None):
            out = fn(dataset, options=options)
            log.append(out)
            return out
        rec.count("evaluations")
        got = bootstrap(x, spy, bootstrap_iterations=4, n_processors=1, options=o, seed=2)
        if rec.check(len(log) == 5, "refits of a real estimator", refits=len(log)):
            judge(rec, got, log[1:], log[0], method=name)
        rec.key("real", name)
    else:
        # real processes: the same result as one process fed with the same streams
        p = payload[1]
        x = data(5)
        s = pools.Schedule()
        (how, want), _ = call(rec, s, x, model, bootstrap_iterations=5, n_processors=p, seed=9)
        rec.count("evaluations")
        rec.count("real_pools")
        got = bootstrap(x, model, bootstrap_iterations=5, n_processors=p, seed=9)
        if rec.check(how == "value", "the call fails", error=repr(want)):
            for k in ("Discrimination", "Difficulty"):
                rec.check(ref.close(got["Standard Errors"][k], want["Standard Errors"][k], 1e-12) and
                          ref.close(got["Bias"][k], want["Bias"][k], 1e-12), "real processes give another result", of=k)
        rec.key("spawn", p)
