"""A generator whose uniform draws are a grid the check chooses, so that the
law of simulated data is enumerated instead of sampled."""
import contextlib

import numpy as np

REAL = np.random.default_rng


class Grid(np.random.Generator):
    """random/uniform: person k of `persons` gets the value grid[k], whatever
    the item; an item asked for later or in the same call gets the same grid
    moved on by `turn` places within each block of `block` persons."""

    def __init__(self, grid, block, turn):
        super().__init__(np.random.PCG64(1))
        self.grid, self.block, self.turn = np.asarray(grid), block, turn
        self.asked, self.rows = 0, 0

    def _row(self):
        g = self.grid.reshape(-1, self.block)
        out = np.roll(g, self.turn * self.rows, axis=1).ravel()
        self.rows += 1
        return out

    def _values(self, size):
        size = (() if size is None else (size,) if np.isscalar(size) else tuple(size))
        n = int(np.prod(size))
        self.asked += n
        persons = self.grid.size
        if n % persons or n == 0:
            raise LookupError(f"draws of shape {size}")
        rows = np.array([self._row() for _ in range(n // persons)])
        if size and size[-1] == persons:
            return rows.reshape(size)
        if size and size[0] == persons:
            return np.ascontiguousarray(rows.T).reshape(size)
        if len(size) == 1:
            return rows.ravel()
        raise LookupError(f"draws of shape {size}")

    def random(self, size=None, *args, **kwargs):
        return self._values(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._values(size)


@contextlib.contextmanager
def gridded(grid, block, turn):
    made = []

    def factory(seed=None):
        made.append(Grid(grid, block, turn))
        return made[-1]
    np.random.default_rng = factory
    try:
        yield made
    finally:
        np.random.default_rng = REAL


def law(simulate, theta, k, turn=0):
    """Frequencies of the answers of persons with the given abilities, over a
    grid of k equally likely draws each. simulate(theta) -> items x persons.
    theta: (persons,) or (factors, persons). Returns data as items x persons x
    k, and whether the draws were under control."""
    theta = np.asarray(theta)
    persons = theta.shape[-1]
    many = np.repeat(theta, k, axis=-1)
    grid = np.tile((np.arange(k) + 0.5) / k, persons)
    try:
        with gridded(grid, k, turn) as made:
            data = simulate(many)
        controlled = sum(m.rows for m in made) == len(data)
    except LookupError:
        controlled = False
    if not controlled:                     # drawn in a way the grid does not cover
        data = simulate(many)
    return np.asarray(data).reshape(len(data), persons, k), controlled
