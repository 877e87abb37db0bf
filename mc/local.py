"""Local optimality of one item's parameters."""
import numpy as np
from scipy import optimize


def better_point(f, x, lo, hi, tol, shift=0.1, steps=(0.1, 0.25), near=0.4):
    """A point at which f exceeds f(x) by more than tol and that differs by
    more than a numerical optimiser's accuracy; None if there is none.
    Coordinate steps first, then a reference ascent from x."""
    x = np.asarray(x, dtype=float)
    base = f(x)
    if not np.isfinite(base):
        return ("not finite", float(base))
    for k in range(x.size):
        for s in steps:
            for sign in (1, -1):
                y = x.copy()
                y[k] += sign * s
                if lo[k] <= y[k] <= hi[k] and f(y) - base > tol:
                    return ("step", k, sign * s, f(y) - base)
    inside = np.clip(x, lo, hi)
    # no further than this: the neighbourhood, not another basin
    lo, hi = np.maximum(lo, inside - near), np.minimum(hi, inside + near)

    def g(y):
        v = f(y)
        return -v if np.isfinite(v) else 1e10
    best = optimize.minimize(g, inside, method="L-BFGS-B", bounds=list(zip(lo, hi)),
                             options={"maxiter": 60})
    if -best.fun - base > tol and np.abs(best.x - x).max() > shift:
        return ("ascent", best.x.tolist(), -best.fun - base)
    return None
