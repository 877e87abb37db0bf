"""Geometry of the rotation tools."""
import itertools
import math

import numpy as np

from girth.common import entropy, hyperspherical_angles, hyperspherical_vector, procrustes_rotation
from girth.factoranalysis import sparsify_loadings

LEVEL = "exploration"
RULE = ("every vector of -2..2 in 2 to 5 dimensions (thorough: 6) x scales and storage; every grid of angles up to 4 "
        "dimensions; every pair of 2x2 matrices over -1..1 plus menus; every 2x2 and 2x3 matrix over -2..2 for entropy; "
        "loadings x alpha x orthogonal x start x seed for the sparse rotation; one evaluation is one call; distinct by input")
ASSUMPTIONS = ["the sparse rotation needs at least two factors", "a row of zeros contributes nothing to the entropy",
               "optimality of the Procrustes rotation: closed form of the least residual, from the singular values of a "
               "separate decomposition"]


def cases(tier):
    out = []
    for d in range(2, 6 if tier == "quick" else 7):
        for head in itertools.product((-2, -1, 0, 1, 2), repeat=1):
            out.append((f"vector-{d}-{head}", ["vector", d, list(head)]))
    for d, steps in ((1, 48), (2, 24), (3, 12)) if tier == "quick" else ((1, 240), (2, 48), (3, 24), (4, 12)):
        for first in range(0, steps, max(1, steps // 6)):
            out.append((f"angles-{d}-{first}", ["angles", d, steps, first, max(1, steps // 6)]))
    for head in itertools.product((-1, 0, 1), repeat=2):
        out.append((f"procrustes-2-{head}", ["procrustes", list(head)]))
    for k in range(12 if tier == "quick" else 60):
        out.append((f"procrustes-menu-{k}", ["procrustes-menu", k]))
    for head in itertools.product((-2, -1, 0, 1, 2), repeat=2):
        out.append((f"entropy-{head}", ["entropy", list(head)]))
    for p, k in ((4, 2), (6, 2), (9, 3), (20, 2)) if tier == "quick" else ((4, 2), (6, 2), (9, 3), (20, 2), (12, 4), (40, 2)):
        for shape in ("simple", "near", "wild", "zero-row", "integer"):
            for orth in (False, True):
                for alpha in (0.25, 0.5, 2.0):
                    if orth and alpha != 0.5 and shape != "near":
                        continue
                    out.append((f"sparse-{p}-{k}-{shape}-{orth}-{alpha}", ["sparse", p, k, shape, orth, alpha, tier]))
    return out


def direction(t):
    """Unit vector from angles, by the defining recursion."""
    out, rest = [], 1.0
    for a in t:
        out.append(rest * math.cos(a))
        rest *= math.sin(a)
    return np.array(out + [rest])


def plain_entropy(m):
    """Sum over the rows of the entropy of their squared shares."""
    total = 0.0
    for row in np.asarray(m, dtype=float):
        size = (row ** 2).sum()
        for v in row:
            share = v * v / size if size else 0
            total -= share * math.log(share) if share else 0
    return total


def basis(t, k):
    return np.array([direction(r) for r in np.reshape(t, (k, k - 1))])


def criterion(load, bases, alpha):
    sv = np.sqrt(np.maximum(np.linalg.eigvalsh(bases @ bases.T), 1e-300))
    return plain_entropy(np.linalg.solve(bases.T, load.T).T) + alpha * sv[-1] / sv[0]


def judge_rotation(rec, target, got_from, **info):
    k0 = target.copy(), got_from.copy()
    r = procrustes_rotation(target, got_from)
    rec.count("evaluations")
    n = got_from.shape[1]
    rec.check(r.shape == (n, n) and np.abs(r @ r.T - np.eye(n)).max() < 1e-9, "rotation not orthogonal", target=target, collected=got_from, got=r, **info)
    loss = ((target - got_from @ r) ** 2).sum()
    cross = got_from.T.astype(float) @ target
    nuclear = np.sqrt(np.maximum(np.linalg.eigvalsh(cross.T @ cross), 0)).sum()
    best = (target ** 2).sum() + (got_from ** 2).sum() - 2 * nuclear
    size = max(1.0, (target ** 2).sum())
    rec.check(loss < best + 1e-6 * size, "an orthogonal matrix fits better", target=target, collected=got_from, loss=loss, best=best, **info)
    rec.check(np.array_equal(k0[0], target) and np.array_equal(k0[1], got_from), "arguments modified", **info)


def run(payload, rec):
    kind = payload[0]
    if kind == "vector":
        _, d, head = payload
        for rest in itertools.product((-2, -1, 0, 1, 2), repeat=d - 1):
            v = np.array(head + list(rest))
            if not v.any():
                continue
            unit = v / np.sqrt((v ** 2).sum())
            for name, y in (("int", v), ("float", v.astype(float)), ("unit", unit), ("small", v * 1e-8), ("large", v * 1e8),
                            ("view", np.repeat(v.astype(float), 2)[::2]), ("int8", v.astype(np.int8))):
                kept = y.copy()
                t = hyperspherical_angles(y)
                rec.count("evaluations")
                back = hyperspherical_vector(t)
                rec.check(np.abs(back - unit).max() < 1e-7, "vector -> angles -> vector", vector=v, storage=name, angles=t, got=back)
                inside = (t >= 0).all() and (t[:-1] <= np.pi + 1e-12).all() and t[-1] <= 2 * np.pi + 1e-12
                rec.check(t.shape == (d - 1,) and inside, "angles out of range", vector=v, storage=name, got=t)
                rec.check(np.array_equal(kept, y), "argument modified", vector=v)
            rec.key(v)
    elif kind == "angles":
        _, d, steps, first, many = payload
        for a0 in range(first, min(first + many, steps)):
            for rest in itertools.product(range(steps), repeat=d - 1):
                ks = [a0, *rest]
                t = np.array([np.pi * k / (steps - 1) for k in ks[:-1]] + [2 * np.pi * ks[-1] / steps])
                for y in (t, list(t), tuple(t), t - 4 * np.pi):
                    got = hyperspherical_vector(y)
                    rec.count("evaluations")
                    rec.check(np.abs(got - direction(t)).max() < 1e-12 and abs((got ** 2).sum() - 1) < 1e-12,
                              "not the unit vector of these angles", angles=t, got=got)
                again = hyperspherical_vector(hyperspherical_angles(got))
                rec.check(np.abs(again - got).max() < 1e-7, "vector -> angles -> vector", angles=t, got=again, want=got)
                rec.key(t)
        t = np.arange(d)
        rec.check(np.abs(hyperspherical_vector(t) - direction(t)).max() < 1e-12, "integer angles", angles=t)
    elif kind == "procrustes":
        for rest in itertools.product((-1, 0, 1), repeat=6):
            x = np.array(payload[1] + list(rest)).reshape(2, 2, 2)
            judge_rotation(rec, x[0], x[1])
            rec.key(x)
    elif kind == "procrustes-menu":
        k = payload[1]
        rng = np.random.default_rng([29, k])
        n, q = ((3, 2), (6, 3), (10, 4), (2, 3))[k % 4]
        a = rng.standard_normal((n, q))
        turn = np.linalg.qr(rng.standard_normal((q, q)))[0]
        flip = np.diag(np.where(np.arange(q) % 2, -1.0, 1.0))
        for b, exact in ((a @ turn, True), (a @ turn @ flip, True), (a[:, ::-1].copy(), True), (-a, True), (rng.standard_normal((n, q)), False),
                         (np.zeros((n, q)), False), (np.asfortranarray(3 * a @ turn), False)):
            judge_rotation(rec, a, b, case=k)
            if exact:
                miss = np.abs(b @ procrustes_rotation(a, b) - a).max()
                rec.check(miss < 1e-8, "a pure rotation is not undone", missing=miss, case=k)
            rec.key(k, b)
    elif kind == "entropy":
        for size in (4, 6):
            for rest in itertools.product((-2, -1, 0, 1, 2), repeat=size - 2):
                if size == 6 and sum(map(abs, rest)) > 5:
                    continue
                m = np.array(payload[1] + list(rest)).reshape(2, -1)
                for y in (m, m.astype(float), np.asfortranarray(m * 0.5), m.T.copy(), np.repeat(m, 2, axis=1)[:, ::2]):
                    kept = y.copy()
                    for axis, want in ((1, plain_entropy(y)), (0, plain_entropy(y.T)), (None, plain_entropy(y))):
                        got = entropy(y) if axis is None else entropy(y, axis)
                        rec.count("evaluations")
                        if not abs(got - want) < 1e-10:
                            rec.fail("entropy differs from its definition", matrix=y, axis=axis, got=got, want=want)
                    rec.check(np.array_equal(kept, y), "argument modified", matrix=m)
                rec.key(m)
    else:
        _, p, k, shape, orth, alpha, tier = payload
        rng = np.random.default_rng([292, p, k])
        load = np.zeros((p, k))
        load[np.arange(p), np.arange(p) % k] = 0.5 + 0.4 * rng.random(p)
        load = load + {"near": 0.05, "wild": 0.4}.get(shape, 0) * rng.uniform(-1, 1, (p, k))
        if shape == "integer":
            load = np.round(load * 4 + rng.uniform(-1, 1, (p, k))).astype(int)
            load[load.any(axis=1) == False, 0] = 1                    # noqa: E712
        else:
            load = load @ np.linalg.qr(rng.standard_normal((k, k)))[0]
        if shape == "zero-row":
            load[1] = 0
        weight = 50.0 if orth else alpha
        starts = [None] + [rng.uniform(0, 2 * np.pi, k * (k - 1)) for _ in range(1 if k > 2 and tier == "quick" else 3)]
        starts.append(np.concatenate([hyperspherical_angles(row) for row in np.eye(k)]) + 0.01)     # almost the axes
        for j, start in enumerate(starts):
            for seed in (0, 7) if start is None else (3,):
                info = dict(items=p, factors=k, shape=shape, orthogonal=orth, alpha=alpha, start=j, seed=seed)
                kept = load.copy(), None if start is None else start.copy()
                rotated, bases = sparsify_loadings(load, initial_guess=start, alpha=alpha, orthogonal=orth, seed=seed)
                rec.count("evaluations")
                rec.key(*info.values())
                rec.check(np.array_equal(load, kept[0]) and (start is None or np.array_equal(start, kept[1])), "arguments modified", **info)
                rec.check(rotated.shape == (p, k) and bases.shape == (k, k), "shapes", **info)
                rec.check(np.abs((bases ** 2).sum(1) - 1).max() < 1e-9, "bases are not unit vectors", got=bases, **info)
                rec.check(np.abs(rotated @ bases - load).max() < 1e-6, "the product is not the original loadings",
                          missing=np.abs(rotated @ bases - load).max(), **info)
                if orth:
                    rec.check(np.abs(bases @ bases.T - np.eye(k)).max() < 1e-3, "not orthogonal", got=bases, **info)
                end = criterion(load, bases, weight)
                first = start
                if start is None:
                    first = np.random.default_rng(seed).uniform(0, 2 * np.pi, k * (k - 1))
                rec.check(end < criterion(load, basis(first, k), weight) + 1e-6, "criterion above the start", end=end, **info)
                t = np.concatenate([hyperspherical_angles(b) for b in bases])
                for i in range(len(t)):
                    for move in (-0.1, 0.1):
                        u = t.copy()
                        u[i] += move
                        better = criterion(load, basis(u, k), weight)
                        rec.check(better > end - 0.02 * max(1, abs(end) - weight), "a small turn is better", turn=[i, move],
                                  criterion=[end, better], **info)
                again = sparsify_loadings(load, initial_guess=start, alpha=alpha, orthogonal=orth, seed=seed)
                rec.check(np.array_equal(again[0], rotated) and np.array_equal(again[1], bases), "same seed, different result", **info)
                if orth and alpha == 0.5 and start is None and k == 2:
                    other = sparsify_loadings(load, alpha=0.1, orthogonal=True, seed=seed)
                    rec.check(np.array_equal(other[1], bases), "alpha matters for an orthogonal rotation", **info)
