"""Point sets of every kind on reference entities, with independently known
coordinates."""
import itertools

import numpy as np

from rv import geom


def special_points(cell):
    """Vertices, midpoints and barycentre of a simplex or cube sub-cell."""
    V = np.array(cell.get_vertices(), dtype=float)
    if V.size == 0:
        return np.zeros((1, 0))
    mids = [(a + b) / 2 for a, b in itertools.combinations(V, 2)]
    return np.array(list(V) + mids + [V.mean(0)])


def make_ps(rng, sub, kind=None, n=None, interior=False):
    """Return (point set, coordinates [N, dim], description)."""
    from finat.point_set import PointSet, PointSingleton, TensorPointSet
    n = n or int(rng.integers(1, 5))
    k = geom.kind(sub)
    dim = sub.get_spatial_dimension()
    choices = ["set", "set", "single"]
    if k == "tensor":
        choices += ["tensor"] * 4
    elif k == "cube" and dim > 1:
        choices += ["split"] * 3
    elif dim == 1:
        choices += ["tensor1"]
    if not interior:
        choices += ["special"]
    kind = kind or choices[int(rng.integers(len(choices)))]
    if kind == "single":
        x = geom.random_points(rng, sub, 1)
        return PointSingleton(x[0]), x, "single"
    if kind == "special" and k != "tensor":
        x = special_points(sub)
        sel = rng.permutation(len(x))[:max(1, min(len(x), n + 1))]
        return PointSet(x[sel]), x[sel], "special"
    if kind == "tensor1":
        x = geom.random_points(rng, sub, n)
        return TensorPointSet([PointSet(x)]), x, "tensor1"
    if kind == "tensor":
        parts = [make_ps(rng, c, None, interior=interior) for c in sub.cells]
        x = np.array([np.concatenate(t) for t in itertools.product(*[p[1] for p in parts])])
        return TensorPointSet([p[0] for p in parts]), x.reshape(len(x), dim), "tensor(%s)" % ",".join(p[2] for p in parts)
    if kind == "split":
        parts = []
        for _ in range(dim):
            if rng.random() < .25:
                y = rng.uniform(0, 1, (1, 1))
                parts.append((PointSingleton(y[0]), y))
            else:
                y = rng.uniform(0, 1, (int(rng.integers(1, 4)), 1))
                parts.append((PointSet(y), y))
        x = np.array([np.concatenate(t) for t in itertools.product(*[p[1] for p in parts])])
        return TensorPointSet([p[0] for p in parts]), x, "split"
    x = geom.random_points(rng, sub, n)
    return PointSet(x), x, "set"
