"""Configuration menus shared by the checks (every entry is enumerated)."""
import numpy as np
from scipy import stats

DISTS = {
    "std": stats.norm(0, 1).pdf,
    "shift": stats.norm(0.6, 1.3).pdf,
    "narrow": stats.norm(-0.4, 0.6).pdf,
    "skew": stats.skewnorm(4, -0.9, 1.4).pdf,
    "flat": stats.uniform(-5, 10).pdf,
    "t5": stats.t(5).pdf,
}


# priors that vanish on part of the usual range
LIMITED = {
    "within-1": stats.uniform(-1, 2).pdf,
    "within-2": stats.uniform(-2, 4).pdf,
    "right": stats.uniform(1, 2).pdf,
    "left": stats.uniform(-3.2, 1.5).pdf,
    "above": stats.expon(-0.5).pdf,
    "narrow-0.5": stats.norm(0.5, 0.03).pdf,
    "narrow-1.5": stats.norm(1.5, 0.03).pdf,
}


def options(dist="std", bounds=None, n=None, **extra):
    """Options dictionary for a menu entry; only what differs is named."""
    out = {}
    if dist != "std":
        out["distribution"] = DISTS[dist] if dist in DISTS else LIMITED[dist]
    if bounds is not None:
        out["quadrature_bounds"] = tuple(bounds)
    if n is not None:
        out["quadrature_n"] = n
    out.update(extra)
    return out


# (name, dist, bounds, n)
QUAD = [
    ("default", "std", None, None),
    ("wide", "std", (-6, 6), 61),
    ("odd", "std", (-4, 5), 33),
    ("few", "std", (-3.5, 3.5), 8),
    ("shift", "shift", None, None),
    ("narrow", "narrow", (-5, 4), 30),
    ("skew", "skew", (-5, 5), 51),
    ("flat", "flat", None, 21),
    ("t5", "t5", (-6, 5.5), 45),
    ("half", "std", (0, 4), 25),
]


def quad(name):
    for q in QUAD:
        if q[0] == name:
            return options(q[1], q[2], q[3])
    raise KeyError(name)


def dich_params(n):
    """(name, difficulty, discrimination) menus for n items."""
    k = np.arange(n)
    return [
        ("even", np.linspace(-1.5, 1.5, n) if n > 1 else np.array([0.3]), np.full(n, 1.0)),
        ("mixed", 1.8 * np.sin(1.3 * k + 0.4), 1.3 + 0.9 * np.cos(2.2 * k)),
        ("steep", 0.9 * np.cos(1.9 * k), np.full(n, 3.2) - 0.2 * (k % 5)),
        ("hard", 1.6 + 0.3 * np.sin(k), 0.5 + 0.1 * (k % 4)),
        ("reversed", 0.7 * np.sin(2.7 * k), np.where(k % 3 == 1, -0.8, 1.4)),
    ]


# the same, restricted to distributions whose mass lies within the bounds
PROPER = [q for q in QUAD if q[0] not in ("half", "flat")] + [("uniform", "flat", (-5, 5), 21)]


def proper(name):
    for q in PROPER:
        if q[0] == name:
            return options(q[1], q[2], q[3])
    raise KeyError(name)


def extremes(n):
    """(difficulty, discrimination, guessing) far from the usual, yet legal."""
    far, flat, guess = (-9.0, 7.5, 0.2, 4.4, -5.3), (0.0, 0.01, 6.0, 12.0, 0.2), (0.0, 0.5, 0.9, 0.02, 0.35)
    for shift in range(5):
        for twist in range(5):
            k = np.arange(n) + shift
            yield (np.array(far)[k % 5], np.array(flat)[(2 * k + twist) % 5], np.array(guess)[(k + twist) % 5])


def nearby(*arrays):
    """The arrays, then with one value of one of them moved a little, again and again."""
    yield arrays
    for which, array in enumerate(arrays):
        for at in range(array.size):
            for by in (1e-3, -4e-3, 3e-8, 0.02):
                moved = np.array(array, dtype=float)
                moved.flat[at] += by
                yield arrays[:which] + (moved,) + arrays[which + 1:]
    yield arrays
