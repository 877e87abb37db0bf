"""Parallel polychoric correlations under every schedule."""
import itertools

import numpy as np

from girth.common import polychoric_correlation, polychoric_correlation_serial
from mc import pools, ref

LEVEL = "exploration"
RULE = ("every number of items 1-6 x processors 1-8 x storage, up to 17 items, 40 processors and 70001 persons on a menu; for up to 5 tasks every order in which they run, at "
        "submission or as late as the results are needed; every single task failing and the workers dying at every task; "
        "two concurrent calls with every order of all their tasks; real process pools on a menu; one evaluation is one "
        "call under one schedule; distinct by data, processors and schedule; non-trivial with two tasks or a failure")
ASSUMPTIONS = ["a task (one worker's chunk of pairs) is the unit of scheduling; tasks run one at a time",
               "the executor is replaced by a stand-in that runs the submitted calls in this process on the real shared "
               "memory; real executors are run for conformance",
               "the serial correlations are right (P26)"]
M = ref.MISSING


def cases(tier):
    out = []
    for n in range(1, 7):
        for p in range(1, 9):
            out.append((f"order-{n}-{p}", ["order", n, p]))
            if p > 1:
                out.append((f"fault-{n}-{p}", ["fault", n, p]))
    for n in (2, 3, 4):
        for p in (2, 3) if tier == "thorough" else (2,):
            for m in (2, 3, 4):
                out.append((f"pair-{n}-{p}-{m}", ["pair", n, p, m]))
    for k in range(6 if tier == "quick" else 20):
        out.append((f"real-{k}", ["real", k]))
    for n in (9, 12, 17) + ((30,) if tier == "thorough" else ()):
        out.append((f"many-{n}", ["many", n]))
    for persons in (257, 4097, 70001):
        out.append((f"crowd-{persons}", ["crowd", persons]))
    for n in (2, 3, 4):
        out.append((f"bad-{n}", ["bad", n]))
    return out


def make(n, seed=0, persons=24, cats=3, missing=True):
    rng = np.random.default_rng([24, n, seed])
    th = ref.quantiles(persons)
    x = np.array([np.digitize(th * (1 if i % 2 else -0.6) + rng.standard_normal(persons), np.linspace(-.8, .8, cats - 1))
                  for i in range(n)]) + 1
    if missing:
        x[n // 2, 3] = M
        x[0, 5] = M
    return x


def storages(x):
    yield "int64", x
    yield "int32 fortran", np.asfortranarray(x.astype("int32"))
    yield "float", x.astype(float)
    yield "reversed view", np.ascontiguousarray(x[:, ::-1])[:, ::-1]
    yield "transposed", np.ascontiguousarray(x.T).T
    yield "strided", np.repeat(x, 2, axis=1)[:, ::2]
    yield "big endian", x.astype(">i4")
    yield "big endian float", x.astype(">f8")
    yield "single precision", x.astype("float32")
    z = x.copy()
    z.flags.writeable = False
    yield "read-only", z
    bare = np.where(x == M, 2, x)
    for t in ("int8", "uint8", ">i2", "uint64"):
        yield t, bare.astype(t)


def judge(rec, x, want, got, **info):
    got = np.asarray(got)
    if not rec.check(got.shape == want.shape, "shape of the matrix", got=got.shape, **info):
        return
    rec.check(np.array_equal(got, want), "parallel and serial correlations differ", got=got, want=want, **info)
    rec.check(np.array_equal(got, got.T) and (np.diag(got) == 1).all(), "not symmetric with unit diagonal", got=got, **info)


def call(rec, x, p, schedule, lo=1, hi=3):
    """(kind, value), leaked segments."""
    rec.count("evaluations")
    rec.count("schedules")
    with pools.controlled(), pools.segments() as names:
        try:
            out = "value", pools.run(schedule, lambda: polychoric_correlation(x, lo, hi, num_processors=p))
        except Exception as e:
            out = "error", e
    return out, pools.alive(names)


def run(payload, rec):
    kind = payload[0]
    if kind == "order":
        _, n, p = payload
        x = make(n)
        want = polychoric_correlation_serial(x, 1, 3)
        for form, y in storages(x):
            kept = y.copy()
            want = polychoric_correlation_serial(y, 1, 3)
            (how, got), leak = call(rec, y, p, pools.Schedule(early=True))
            info = dict(items=n, processors=p, storage=form)
            if rec.check(how == "value", "the call fails", error=repr(got), **info):
                judge(rec, y, want, got, **info)
            rec.check(not leak, "shared memory is left behind", **info)
            rec.check(np.array_equal(y, kept), "the data is modified", **info)
        want = polychoric_correlation_serial(x, 1, 3)
        probe = pools.Schedule()
        call(rec, x, p, probe)
        if not probe.executors:
            return
        ranks = pools.orders(probe.tasks) if probe.tasks <= 5 else \
            [tuple(range(probe.tasks)), tuple(range(probe.tasks))[::-1]] + \
            [tuple(np.roll(np.arange(probe.tasks), k)) for k in range(1, probe.tasks)]
        if probe.tasks == 5 and n > 4:
            ranks = ranks[::3]
        for order in ranks:
            order = tuple(int(v) for v in order)
            s = pools.Schedule(order)
            (how, got), leak = call(rec, x, p, s)
            info = dict(items=n, processors=p, order=order)
            if rec.check(how == "value", "the call fails", error=repr(got), **info):
                judge(rec, x, want, got, **info)
            rec.check(not leak, "shared memory is left behind", **info)
            if probe.tasks > 1:
                rec.key(n, p, order)
        rec.sample(items=n, processors=p, tasks=probe.tasks, orders=len(ranks))
    elif kind in ("many", "crowd"):
        x = make(payload[1]) if kind == "many" else make(3, persons=payload[1])
        want = polychoric_correlation_serial(x, 1, 3)
        for p in (1, 2, 3, 5, 7, 8, 16, 40) if kind == "many" else (2, 3):
            for s in (pools.Schedule(early=True), pools.Schedule(tuple(range(2 * p))[::-1])):
                (how, got), leak = call(rec, x, p, s)
                info = dict(shape=x.shape, processors=p, early=s.early)
                if rec.check(how == "value", "the call fails", error=repr(got)[:300], **info):
                    judge(rec, x, want, got, **info)
                rec.check(not leak, "shared memory is left behind", **info)
                if p > 1:
                    rec.key(kind, x.shape, p, s.early)
    elif kind == "fault":
        _, n, p = payload
        x = make(n)
        probe = pools.Schedule()
        call(rec, x, p, probe)
        if not probe.executors:
            return
        for t in range(probe.tasks):
            for early in (False, True):
                for name, s in (("raise", pools.Schedule(early=early, faults={t: ZeroDivisionError("injected")})),
                                ("interrupt", pools.Schedule(early=early, faults={t: MemoryError("injected")})),
                                ("die", pools.Schedule(early=early, dead=t)),
                                ("raise last", pools.Schedule(tuple(range(probe.tasks))[::-1], early=early,
                                                              faults={t: ZeroDivisionError("injected")}))):
                    (how, got), leak = call(rec, x, p, s)
                    info = dict(items=n, processors=p, task=t, fault=name, early=early)
                    rec.check(how == "error", "a worker's failure is swallowed", got=repr(got)[:200], **info)
                    rec.check(not leak, "shared memory is left behind", **info)
                    rec.key(n, p, t, name, early)
        (how, got), leak = call(rec, x, p, pools.Schedule())      # and the next call is as good as ever
        if rec.check(how == "value", "a call after a failure fails", error=repr(got)):
            judge(rec, x, polychoric_correlation_serial(x, 1, 3), got, after="failures")
    elif kind == "pair":
        _, n, p, m = payload
        x, y = make(n, 1), make(m, 2)
        want = [polychoric_correlation_serial(v, 1, 3) for v in (x, y)]
        total = 2 * p if p == 2 else 2 * p
        ranks = list(itertools.permutations(range(total)))
        if total > 4:
            ranks = ranks[::7]
        for order in ranks:
            rec.count("evaluations")
            rec.count("schedules")
            with pools.controlled(), pools.segments() as names:
                s = [pools.Schedule(), pools.Schedule()]
                got = pools.together(s, [lambda v=v: polychoric_correlation(v, 1, 3, num_processors=p) for v in (x, y)], order)
            info = dict(items=[n, m], processors=p, order=order)
            for k in (0, 1):
                if rec.check(got[k] is not None and got[k][0] == "value", "a concurrent call fails", error=repr(got[k])[:200],
                             **info):
                    judge(rec, (x, y)[k], want[k], got[k][1], **info)
            rec.check(not pools.alive(names), "shared memory is left behind", **info)
            rec.key(n, m, p, order)
            if not s[0].executors:
                return
    elif kind == "real":
        k = payload[1]
        n, p = (5, 4, 1, 3, 2, 6)[k % 6], (2, 3, 2, 8, 4, 5)[k % 6]
        x = make(n, 30 + k, persons=60)
        want = polychoric_correlation_serial(x, 1, 3)
        for form, y in list(storages(x))[:3]:
            rec.count("evaluations")
            rec.count("real_pools")
            with pools.segments() as names:
                got = polychoric_correlation(y, 1, 3, num_processors=p)
            judge(rec, y, want, got, items=n, processors=p, storage=form, real=True)
            rec.check(not pools.alive(names), "shared memory is left behind", real=True)
            rec.key("real", k, form)
        z = x - 1
        z[x == M] = M
        rec.check(np.array_equal(polychoric_correlation(z, start_val=0, stop_val=2, num_processors=p),
                                 polychoric_correlation_serial(z, 0, 2)), "another range of codes")
        v = make(n, 50 + k, persons=60, cats=5)
        rec.check(np.array_equal(polychoric_correlation(v), polychoric_correlation_serial(v)), "the default range and processors")
    else:
        # a pair without common answers makes a worker itself fail
        n = payload[1]
        for p in (2, 3):
            for i, j in itertools.combinations(range(n), 2):
                x = make(n, missing=False)
                x[i, ::2] = M
                x[j, 1::2] = M
                try:
                    polychoric_correlation_serial(x, 1, 3)
                    continue
                except Exception:
                    pass
                for real in (False, True):
                    if real and (i, j) != (0, 1):
                        continue
                    info = dict(items=n, processors=p, pair=[i, j], real=real)
                    if real:
                        rec.count("evaluations")
                        with pools.segments() as names:
                            try:
                                how = "value", polychoric_correlation(x, 1, 3, num_processors=p)
                            except Exception as e:
                                how = "error", e
                        leak = pools.alive(names)
                    else:
                        how, leak = call(rec, x, p, pools.Schedule())
                    rec.check(how[0] == "error", "a worker's failure is swallowed", got=repr(how[1])[:200], **info)
                    rec.check(not leak, "shared memory is left behind", **info)
                    rec.key("bad", n, p, i, j, real)
