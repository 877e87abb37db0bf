"""Recoding ordinal answers: dense ordered codes, category counts, validity."""
import itertools

import numpy as np

import girth
from mc import ref

LEVEL = "exploration"
RULE = ("every 2x3 (thorough: also 3x2 and 2x4) matrix over {missing, 3 codes} with an answer somewhere, "
        "with and without trimming, for several first codes and storage types, plus wide and long matrices "
        "(up to 300 categories, 400 items, 65537 persons); distinct by matrix and options; non-trivial when two codes are present")
M = ref.MISSING


def cases(tier):
    out = []
    shapes = [(2, 3), (3, 2), (1, 4)] + ([(2, 4)] if tier == "thorough" else [])
    for n, w in shapes:
        for first in (0, 1):
            for lead in range(4):
                out.append((f"all-{n}x{w}-{first}-{lead}", ["all", n, w, first, lead]))
    for first in (-2, 5):
        for lead in range(4):
            out.append((f"all-2x2-{first}-{lead}", ["all", 2, 2, first, lead]))
    for dt in ("int8", "int16", "int32", "uint8", "float32", "float64", "bool", "uint16"):
        out.append((f"dtype-{dt}", ["dtype", dt]))
    for persons in (255, 257, 4097, 65537):
        out.append((f"many-{persons}", ["many", persons]))
    for n, k in ((40, 6), (3, 120), (200, 2), (25, 7), (2, 300), (400, 3)):
        out.append((f"wide-{n}-{k}", ["wide", n, k]))
    return out


def reference(data, trim, reference_on):
    """Plain loops over the definition."""
    data = np.asarray(data).astype(int)
    n = data.shape[0]
    ok = data != M
    low, high = data[ok].min(), data[ok].max()
    if trim:
        kept = []
        for p in range(data.shape[1]):
            vals = data[ok[:, p], p]
            if vals.size and not (vals == low).all() and not (vals == high).all():
                kept.append(p)
        data = data[:, kept]
        ok = data != M
    codes, sizes, offset = np.full(data.shape, M), [], 0
    for i in range(n):
        seen = sorted(set(data[i, ok[i]].tolist()))
        size = max(len(seen), 2)
        sizes.append(size)
        for p in range(data.shape[1]):
            if ok[i, p]:
                k = seen.index(data[i, p]) if len(seen) > 1 else int(seen[0] != low)
                codes[i, p] = k + (offset if reference_on else 0)
        offset += size
    return codes, sizes, ok


def judge(rec, data, tag):
    before = data.copy()
    for trim, refer in itertools.product((True, False), (1.0, 0.0)):
        want, sizes, ok = reference(data, trim, refer)
        args = {} if refer == 1.0 else {"_reference": refer}
        got = girth.condition_polytomous_response(data, trim_ends=trim, **args)
        rec.count("evaluations")
        good = (len(got) == 3 and np.shape(got[0]) == want.shape and np.array_equal(got[0], want)
                and list(got[1]) == sizes and np.array_equal(got[2], ok))
        rec.check(good, "recoded data", data=before, trim=trim, reference=refer, got=got[0],
                  want=want, counts=got[1])
        rec.check(np.array_equal(data, before), "the input changed")
        rec.check(np.asarray(got[0]).dtype.kind == "i", "codes are integers", dtype=str(got[0].dtype))
    default = girth.condition_polytomous_response(data)
    rec.check(np.array_equal(default[0], reference(data, True, True)[0]), "defaults trim", data=before)
    if np.unique(before[before != M]).size > 1:
        rec.key(tag, before)


def run(payload, rec):
    kind = payload[0]
    if kind == "all":
        _, n, w, first, lead = payload
        values = [M, first, first + 1, first + 3]
        for cells in itertools.product(values, repeat=n * w - 1):
            data = np.array((values[lead],) + cells).reshape(n, w)
            if (data == M).all():
                continue
            judge(rec, data, first)
    elif kind == "dtype":
        dt = payload[1]
        values = [0, 1] if dt == "bool" else [0, 1, 4]
        for cells in itertools.product(values, repeat=4):
            judge(rec, np.array(cells, dtype=dt).reshape(2, 2), dt)
        if dt != "bool":
            k = np.arange(300)
            data = np.array([(k * (3 + 2 * i) + i) % 5 for i in range(60)]).astype(dt)
            judge(rec, data, dt)
    elif kind == "many":
        k = np.arange(payload[1])
        data = np.array([k % 3, (k * k) % 5, np.where(k % 9 == 4, M, 2 * (k % 2)), np.where(k % 5 == 0, M, 4)]) + 0
        judge(rec, data, payload)
        if payload[1] < 300:
            judge(rec, np.ascontiguousarray(data.T), (payload, "items"))
    else:
        _, n, k = payload
        base = np.array([((np.arange(k * 3) * (1 + i % 5) + i * i) % (k - i % 2)) for i in range(n)]) + 1
        judge(rec, base, (n, k))
        miss = base.copy()
        miss[(np.add.outer(np.arange(n) * 3, np.arange(k * 3)) % 4) == 1] = M
        judge(rec, miss, (n, k, "m"))
        judge(rec, np.asfortranarray(miss), (n, k, "f"))
        rec.sample(shape=base.shape)
