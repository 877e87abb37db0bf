"""Preparing response data: tagging, reversing, counting, signs, trimming."""
import itertools

import numpy as np

import girth
from girth.common import reverse_score
from mc import ref

LEVEL = "exploration"
RULE = ("every small response matrix over a full alphabet of codes (including missing and invalid ones) "
        "for every storage type and memory layout, every set of valid codes, every reversal mask; "
        "long and wide tables around the limits of small storage types (up to 100003 persons); distinct by function, type and matrix; non-trivial when the matrix holds two different codes")
M = ref.MISSING
# numbers of persons around the limits of small storage types
MANY = (127, 128, 129, 255, 256, 257, 1000, 1025, 4097, 32767, 32769, 65535, 65537, 100003)
INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32"]


def cases(tier):
    out = []
    for dt in INTS + ["bool", "float32", "float64"]:
        out.append((f"tag-{dt}", ["tag", dt]))
    for layout in ("C", "F", "T", "strided", "1d", "list-valid", "array-valid", "range-valid"):
        out.append((f"tag-layout-{layout}", ["taglayout", layout]))
    for dt in ["int8", "int16", "int64", "uint8", "float64", "int32"]:
        for n in (1, 2, 3):
            out.append((f"reverse-{dt}-{n}", ["reverse", dt, n]))
    out.append(("reverse-size", ["reversesize"]))
    for n in (1, 2, 3):
        for dt in ("int64", "float64", "int32", "uint8", "int8", "uint16"):
            out.append((f"counts-{n}-{dt}", ["counts", n, dt]))
    for n in (1, 2, 3, 4) + ((5,) if tier == "thorough" else ()):
        out.append((f"trim-{n}", ["trim", n]))
    out.append(("trim-subsets", ["trimsubsets"]))
    out.append(("approx", ["approx"]))
    out.append(("bool", ["bool"]))
    for persons in MANY:
        out.append((f"many-{persons}", ["many", persons]))
    return out


def run(payload, rec):
    globals()["do_" + payload[0]](rec, *payload[1:])


def do_tag(rec, dt):
    alphabet = {"bool": [False, True], "float32": [0, 1, 2.5, np.nan, -1, np.inf],
                "float64": [0, 1, 2.5, np.nan, -1, np.inf, 1e300]}.get(dt)
    if alphabet is None:
        alphabet = [0, 1, 2, 5, 9, 97, 127] + ([-1, -128] if dt[0] == "i" else [200])
    valids = [[], [0], [1], [0, 1], [1, 2, 5], [9, 97], list(range(1, 6))]
    if dt[0] == "f":
        valids.append([2.5, 0])
    for cells in itertools.product(alphabet, repeat=3):
        data = np.array([cells], dtype=dt)
        for valid in valids:
            before = data.copy()
            got = girth.tag_missing_data(data, valid)
            rec.count("evaluations")
            want = [v if any(v == x for x in valid) else M for v in cells]
            ok = got.shape == (1, 3) and all(g == w for g, w in zip(got[0].tolist(), want))
            rec.check(ok, "tagged data", dtype=dt, data=[float(c) for c in cells], valid=valid,
                      got=np.array(got, dtype=float))
            rec.check(np.array_equal(data, before, equal_nan=dt[0] == "f"), "the input changed")
            rec.check(not np.shares_memory(got, data), "the output shares memory with the input")
            if len(set(map(str, cells))) > 1:
                rec.key(dt, [str(c) for c in cells], valid)


def do_taglayout(rec, layout):
    full = np.array(list(itertools.product([0, 1, 2, 7, -5, 99, M], repeat=2))).T  # [2, 49]
    base = np.vstack([full, full[::-1]])
    valid = [0, 1, 2]
    data = {"C": base, "F": np.asfortranarray(base), "T": base.T.copy().T,
            "strided": np.repeat(base, 2, axis=1)[:, ::2], "1d": base.ravel()}.get(layout, base)
    if layout == "array-valid":
        valid = np.array([0, 1, 2])
    if layout == "range-valid":
        valid = range(3)
        valid = list(valid)
    got = girth.tag_missing_data(data, valid)
    want = np.where((data == 0) | (data == 1) | (data == 2), data, M)
    rec.count("evaluations", data.size)
    rec.check(got.shape == data.shape and np.array_equal(got, want), "tagged data", layout=layout)
    rec.check(np.array_equal(girth.tag_missing_data(got, valid), want), "tagging twice changes the data")
    rec.key(layout)


def do_reverse(rec, dt, n):
    alphabet = [1, 2, 3, 4, 5] + ([] if dt in ("uint8", "int8", "int16") else [M])
    width = 2 if n < 3 else 1
    for max_val in (5, 7, 4):
        for cells in itertools.product(alphabet, repeat=n * width):
            if any(c > max_val for c in cells):
                continue
            data = np.array(cells, dtype=dt).reshape(n, width)
            for mask in itertools.product([False, True], repeat=n):
                m = np.array(mask)
                before = data.copy()
                got = reverse_score(data, m, max_val)
                rec.count("evaluations")
                want = [[c if c == M or not mask[i] else max_val + 1 - c
                         for c in cells[i * width:(i + 1) * width]] for i in range(n)]
                if not rec.check(np.array_equal(got, want), "reversed data", data=data, mask=mask,
                                 max_val=max_val, got=got):
                    return
                rec.check(np.array_equal(data, before) and np.array_equal(m, mask), "the input changed")
                rec.check(np.array_equal(reverse_score(got, m, max_val), data), "reversing twice is not the "
                          "identity", data=data, mask=mask)
        rec.key(dt, n, max_val, len(alphabet))
    for cells in itertools.product(alphabet, repeat=n):
        rec.key(dt, cells)


def do_reversesize(rec):
    for n, k in itertools.product((1, 2, 3, 4), repeat=2):
        data, mask = np.ones((n, 3), dtype=int), np.zeros(k, dtype=bool)
        rec.count("evaluations")
        try:
            reverse_score(data, mask)
            ok = n == k
        except AssertionError:
            ok = n != k
        rec.check(ok, "mask of the wrong length", items=n, mask=k)
        rec.key(n, k)
    five = np.array([[1, 2, 3, 4, 5, M]])
    rec.check(np.array_equal(reverse_score(five, np.array([True])), [[5, 4, 3, 2, 1, M]]), "default scale")


def do_counts(rec, n, dt):
    width = {1: 4, 2: 3, 3: 2}[n]
    for cells in itertools.product([0, 1, M, 2] if dt in ("int64", "float64", "int32") else [0, 1, 2, 99], repeat=n * width):
        data = np.array(cells, dtype=dt).reshape(n, width)
        before = data.copy()
        no, yes = girth.get_true_false_counts(data)
        sign = girth.convert_responses_to_kernel_sign(data)
        rec.count("evaluations", 2)
        rows = data.tolist()
        ok = (list(no) == [r.count(0) for r in rows] and list(yes) == [r.count(1) for r in rows])
        rec.check(ok, "true and false counts", data=data, no=no, yes=yes)
        want = [[{0: 1.0, 1: -1.0}.get(v, 0.0) for v in r] for r in rows]
        rec.check(np.array_equal(sign, want) and sign.dtype.kind == "f", "signs", data=data, got=sign)
        rec.check(np.array_equal(before, data), "the input changed")
        if len(set(cells)) > 1:
            rec.key(n, dt, cells)


def keep(col):
    return len({v for v in col if v != M}) > 1


def do_trim(rec, n):
    """The whole pattern table, every rotation of it."""
    pats = np.array(ref.all_patterns(n, (0, 1, M))).T
    for shift in range(pats.shape[1]):
        p = np.roll(pats, shift, axis=1)
        counts = np.arange(p.shape[1]) + 1
        got, cnt = girth.trim_response_set_and_counts(p.copy(), counts.copy())
        want = [k for k in range(p.shape[1]) if keep(p[:, k])]
        rec.count("evaluations")
        rec.check(np.array_equal(got, p[:, want]) and np.array_equal(cnt, counts[want]),
                  "patterns kept", items=n, shift=shift, got=got, counts=cnt)
        rec.key(n, shift)


def do_trimsubsets(rec):
    pats = ref.all_patterns(2, (0, 1, M))
    for size in range(1, 5):
        for sub in itertools.combinations(range(9), size):
            p = np.array([pats[k] for k in sub]).T
            counts = 10 + np.array(sub)
            got, cnt = girth.trim_response_set_and_counts(p, counts)
            want = [k for k in range(size) if keep(p[:, k])]
            rec.count("evaluations")
            rec.check(got.shape == (2, len(want)) and np.array_equal(got, p[:, want])
                      and np.array_equal(cnt, counts[want]), "patterns kept", patterns=p, got=got)
            rec.key(sub)


def do_approx(rec):
    for no, yes in itertools.product(range(1, 7), repeat=2):
        for no2, yes2 in ((1, 4), (3, 3)):
            width = max(no + yes, no2 + yes2)
            data = np.full((2, width), M)
            data[0, :no + yes] = [0] * no + [1] * yes
            data[1, :no2 + yes2] = [1] * yes2 + [0] * no2
            for a in (1, 0.5, 2.3, np.array([0.8, 1.7])):
                av = np.broadcast_to(np.asarray(a, dtype=float), 2)
                ratio = np.log(np.array([no / yes, no2 / yes2]))
                want = np.sqrt(1 + av ** 2 / 3) / av * ratio
                got = girth.mml_approx(data, a)
                got2 = girth.mml_approx(None, a, scalar=ratio)
                rec.count("evaluations", 2)
                rec.check(np.allclose(got, want, atol=1e-12) and np.allclose(got2, want, atol=1e-12),
                          "closed form difficulty", no=no, yes=yes, a=a, got=got, want=want)
                rec.key(no, yes, no2, repr(a))
    rows = np.array([[0] * 40 + [1] * 60, [0] * 33 + [1] * 67])
    for wrong in list(range(30, 45)) + [40, 41, 40]:           # one answer at a time, one discrimination a little at a time
        rows[0] = [0] * wrong + [1] * (100 - wrong)
        for a in (1.0, 1.001, np.array([1.001, 1.0]), np.array([1.001, 1.004]), 1.004):
            want = np.sqrt(1 + np.asarray(a) ** 2 / 3) / a * np.log([wrong / (100 - wrong), 33 / 67])
            rec.count("evaluations")
            rec.check(np.allclose(girth.mml_approx(rows, a), want, atol=1e-12), "closed form difficulty", no=wrong, a=a)
    got = girth.mml_approx(np.array([[0, 0, 0, 1]]))
    rec.check(np.allclose(got, np.sqrt(4 / 3) * np.log(3)), "default discrimination", got=got)


def do_many(rec, persons):
    """Long tables, and their transposes: many items."""
    k = np.arange(persons)
    base = np.array([np.ones(persons), np.zeros(persons), k % 2, (k * k) % 3 == 1, np.where(k % 7 == 3, M, k % 3 == 0),
                     np.where(k % 11 == 5, M, 1)]).astype(int)
    for turned in (False, True):
        if turned and persons > 5000:
            continue
        for dt in ("int64", "int32", "float64", "int8"):
            plain = np.ascontiguousarray(base.T if turned else base)
            plain = np.where(plain == M, 5, plain) if dt == "int8" else plain
            data = plain.astype(dt)
            info = dict(shape=data.shape, storage=dt)
            rec.count("evaluations", 5)
            no, yes = girth.get_true_false_counts(data)
            rec.check(list(no) == (plain == 0).sum(axis=1).tolist() and list(yes) == (plain == 1).sum(axis=1).tolist(),
                      "true and false counts", no=no[:6], yes=yes[:6], **info)
            rec.check(np.array_equal(girth.convert_responses_to_kernel_sign(data), (plain == 0) * 1.0 - (plain == 1)), "signs", **info)
            rec.check(np.array_equal(girth.tag_missing_data(data, [0]), np.where(plain == 0, 0, M)), "tagged data", **info)
            mask = np.arange(len(data)) % 2 == 0
            want = np.where(mask[:, None] & (plain != M), 6 - plain, plain)
            rec.check(np.array_equal(reverse_score(data, mask, 5), want), "reversed data", **info)
            counts = k[:data.shape[1]] + 1 if not turned else np.arange(6) + 1
            want = ((plain == 0).any(axis=0) & (plain == 1).any(axis=0)) | ((plain == 5).any(axis=0) &
                                                                            ((plain == 0) | (plain == 1)).any(axis=0))
            got, cnt = girth.trim_response_set_and_counts(data, counts)
            rec.check(np.array_equal(got, data[:, want]) and np.array_equal(cnt, counts[want]), "patterns kept", **info)
            rec.key(persons, turned, dt)


def do_bool(rec):
    for cells in itertools.product([False, True], repeat=6):
        data = np.array(cells).reshape(2, 3)
        no, yes = girth.get_true_false_counts(data)
        rec.count("evaluations", 3)
        rec.check(list(yes) == list(data.sum(1)) and list(no) == list(3 - data.sum(1)), "counts of booleans")
        rec.check(np.array_equal(girth.convert_responses_to_kernel_sign(data), 1.0 - 2.0 * data), "signs")
        got, cnt = girth.trim_response_set_and_counts(data, np.arange(3))
        want = [k for k in range(3) if data[0, k] != data[1, k]]
        rec.check(np.array_equal(got, data[:, want]) and list(cnt) == want, "patterns kept", data=data)
        rec.key(cells)
