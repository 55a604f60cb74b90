"""Independent cell geometry (only vertex coordinates and topology are taken
from FIAT; maps, volumes and normals are recomputed here)."""
import itertools
import math
import FIAT
import numpy as np
from FIAT.reference_element import TensorProductCell

DIM = {"vertex": 0, "interval": 1, "triangle": 2, "tetrahedron": 3,
       "quadrilateral": 2, "hexahedron": 3}


def cell_from(spec):
    if isinstance(spec, str):
        return FIAT.ufc_cell(spec)
    return TensorProductCell(*[cell_from(s) for s in spec])


def spec_dim(spec):
    return DIM[spec] if isinstance(spec, str) else sum(spec_dim(s) for s in spec)


def is_simplex_spec(spec):
    return spec in ("vertex", "interval", "triangle", "tetrahedron")


def top_dim(cell):
    return cell.get_dimension()


def entities(cell):
    """[(dim, ent)] for every topological entity."""
    return [(d, e) for d, es in cell.get_topology().items() for e in es]


def entity_sdim(dim):
    return sum(map(entity_sdim, dim)) if isinstance(dim, tuple) else dim


def factor_entity(cell, dim, ent):
    shape = [len(c.get_topology()[d]) for c, d in zip(cell.cells, dim)]
    out, rest = [], ent
    for s in reversed(shape):
        out.append(rest % s)
        rest //= s
    return list(zip(dim, reversed(out)))


def kind(cell):
    if hasattr(cell, "cells"):
        return "tensor"
    if cell.__class__.__name__ in ("UFCQuadrilateral", "UFCHexahedron", "UFCHypercube", "Hypercube"):
        return "cube"
    return "simplex"


def entity_vertices(cell, dim, ent):
    return np.array([cell.get_vertices()[v] for v in cell.get_topology()[dim][ent]], dtype=float)


def map_points(cell, dim, ent, pts):
    """Reference-entity coordinates -> cell coordinates."""
    pts = np.asarray(pts, dtype=float)
    n = len(pts)
    k = kind(cell)
    if k == "tensor":
        out, off = [], 0
        for c, (d, e) in zip(cell.cells, factor_entity(cell, dim, ent)):
            w = entity_sdim(d)
            out.append(map_points(c, d, e, pts[:, off:off + w]))
            off += w
        return np.concatenate(out, axis=1)
    V = entity_vertices(cell, dim, ent)
    if k == "simplex":
        sub = reference_simplex(cell, dim)
        if dim == 0:
            return np.repeat(V, n, axis=0)
        A = (sub[1:] - sub[0]).T
        lam = np.linalg.solve(A, (pts - sub[0]).T).T
        return V[0] + lam @ (V[1:] - V[0])
    # cube: multilinear, vertices lexicographic with the first axis slowest
    out = np.zeros((n, cell.get_spatial_dimension()))
    for b, v in zip(itertools.product((0, 1), repeat=dim), V):
        w = np.ones(n)
        for j, bit in enumerate(b):
            w = w * (pts[:, j] if bit else 1 - pts[:, j])
        out += w[:, None] * v
    return out


def reference_simplex(cell, dim):
    """Vertices of the reference entity that FIAT associates with ``cell``'s
    entities of dimension dim (UFC simplex for UFC cells)."""
    sub = cell.construct_subelement(dim)
    return np.array(sub.get_vertices(), dtype=float)


def random_points(rng, cell_or_sub, n, margin=0.0):
    """Random points in the interior of a cell (any kind)."""
    k = kind(cell_or_sub)
    if k == "tensor":
        return np.concatenate([random_points(rng, c, n, margin) for c in cell_or_sub.cells], axis=1)
    V = np.array(cell_or_sub.get_vertices(), dtype=float)
    d = cell_or_sub.get_spatial_dimension()
    if d == 0:
        return np.zeros((n, 0))
    if k == "cube":
        lo, hi = V.min(0), V.max(0)
        return lo + (hi - lo) * rng.uniform(margin, 1 - margin, (n, d))
    lam = rng.dirichlet(np.ones(d + 1), n)
    lam = margin / (d + 1) + (1 - margin) * lam
    return lam @ V


def sub_cell(cell, dim):
    return cell.construct_subelement(dim)


def sub_entities(cell, dim, ent):
    """Entities whose vertex set is contained in that of (dim, ent), computed
    from coordinates."""
    if kind(cell) == "tensor":
        lists = [sub_entities(c, d, e) for c, (d, e) in zip(cell.cells, factor_entity(cell, dim, ent))]
        out = []
        for combo in itertools.product(*lists):
            dd = tuple(d for d, _ in combo)
            shape = [len(c.get_topology()[d]) for c, d in zip(cell.cells, dd)]
            e = 0
            for s, (_, ei) in zip(shape, combo):
                e = e * s + ei
            out.append((dd, e))
        return out
    vs = set(cell.get_topology()[dim][ent])
    return [(d, e) for d, es in cell.get_topology().items() for e, v in es.items() if set(v) <= vs]


def ref_volume(cell):
    k = kind(cell)
    if k == "tensor":
        return float(np.prod([ref_volume(c) for c in cell.cells]))
    V = np.array(cell.get_vertices(), dtype=float)
    d = cell.get_spatial_dimension()
    if d == 0:
        return 1.0
    if k == "cube":
        return float(np.prod(V.max(0) - V.min(0)))
    return abs(np.linalg.det(V[1:] - V[0])) / math.factorial(d)


def multiindices(dim, order):
    """All derivative multi-indices of exactly this order."""
    if dim == 0:
        return [()] if order == 0 else []
    return [a for a in itertools.product(range(order + 1), repeat=dim) if sum(a) == order]


def all_multiindices(dim, order):
    return [a for o in range(order + 1) for a in multiindices(dim, o)]
