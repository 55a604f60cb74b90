"""Physically mapped elements: catalogue, physical geometry, push-forward."""
import itertools

import numpy as np

from rv import geom, gemeval
from rv.model import prod

R2 = np.array([[0.0, 1.0], [-1.0, 0.0]])


def catalog():
    """(name, dim, kwargs, reference kwargs of the FIAT oracle)."""
    out = []

    def add(name, dims, **kw):
        for d in dims:
            out.append({"name": name, "dim": d, "kw": kw})
    add("Hermite", (1, 2, 3))
    add("Morley", (2,))
    add("Bell", (2,))
    add("QuadraticPowellSabin6", (2,))
    add("QuadraticPowellSabin12", (2,), avg=True)
    add("QuadraticPowellSabin12", (2,), avg=False)
    add("ReducedHsiehCloughTocher", (2,))
    for d in (5, 6, 7, 8):
        add("Argyris", (2,), degree=d, avg=True)
        add("Argyris", (2,), degree=d)
    add("Argyris", (2,), degree=5, variant="point")
    for d in (3, 4, 5, 6):
        add("HsiehCloughTocher", (2,), degree=d, avg=True)
        add("HsiehCloughTocher", (2,), degree=d)
    add("MardalTaiWinther", (2,))
    add("ReducedArnoldQin", (2,))
    add("ArnoldQin", (2,))
    add("ArnoldWinther", (2,))
    add("ArnoldWintherNC", (2,))
    for o in (0, 1):
        add("BernardiRaugel", (2, 3), order=o)
        add("GuzmanNeilanFirstKindH1", (2, 3), order=o)
        add("GuzmanNeilanSecondKindH1", (2, 3), order=o)
    for n in ("BernardiRaugel", "GuzmanNeilanFirstKindH1", "GuzmanNeilanSecondKindH1"):
        add(n, (3,), order=2)
    for n in ("BernardiRaugelBubble", "GuzmanNeilanBubble", "GuzmanNeilanH1div", "AlfeldSorokina", "ChristiansenHu",
              "JohnsonMercier"):
        add(n, (2, 3))
    for d in (3, 4, 5):
        for v in ("integral", "point"):
            add("HuZhang", (2,), degree=d, variant=v)
    for n, lo, hi in (("Regge", 0, 2), ("HellanHerrmannJohnson", 0, 2), ("GopalakrishnanLedererSchoberlFirstKind", 1, 3),
                      ("GopalakrishnanLedererSchoberlSecondKind", 0, 2)):
        for d in range(lo, hi + 1):
            add(n, (2, 3), degree=d)
    return out


def label(c):
    return "%s%s%s" % (c["name"], c["dim"], "".join(",%s=%s" % kv for kv in sorted(c["kw"].items())))


def build(c, cell):
    import finat
    return getattr(finat, c["name"])(cell, **c["kw"])


def simplex(verts):
    import FIAT
    K = FIAT.ufc_simplex(len(verts) - 1)
    K.vertices = tuple(tuple(float(x) for x in v) for v in verts)
    return K


def quality(verts):
    """Ratio in (0, 1]: 1 for an equilateral simplex, 0 for a degenerate one."""
    v = np.asarray(verts, float)
    d = len(v) - 1
    J = (v[1:] - v[0]).T
    vol = abs(np.linalg.det(J))
    h = max(np.linalg.norm(a - b) for a, b in itertools.combinations(v, 2))
    return vol / h ** d


def random_simplex(rng, dim, sign=None, qmin=0.12, scale=None):
    while True:
        v = rng.uniform(-1, 1, size=(dim + 1, dim))
        s = np.sign(np.linalg.det((v[1:] - v[0]).T))
        if sign is not None and s != sign:
            continue
        if quality(v) > qmin:
            break
    return v * (scale or 1.0) + rng.uniform(-1, 1, size=dim)


class Geometry:
    """Everything the documented geometry interface asks for, from the vertices
    of one affine cell, with globally consistent (vertex-order based) normals
    and tangents."""

    def __init__(self, ref, verts, h=None, normals=None, tangents=None, symbolic=False):
        self.ref = ref
        self.v = np.asarray(verts, float)
        self.dim = self.v.shape[1]
        self.J = (self.v[1:] - self.v[0]).T @ np.linalg.inv(
            (np.asarray(ref.vertices, float)[1:] - np.asarray(ref.vertices, float)[0]).T)
        self.b = self.v[0] - self.J @ np.asarray(ref.vertices, float)[0]
        self.h = np.ones(self.dim + 1) if h is None else np.asarray(h, float)
        self.normals, self.tangents = normals, tangents
        self.symbolic, self.bindings = symbolic, {}
        self.edges = [tuple(ref.get_topology()[1][e]) for e in sorted(ref.get_topology()[1])]

    def mapping(self):
        import gem
        from finat.physically_mapped import PhysicalGeometry
        g = self

        def lit(a):
            a = np.asarray(a, float)
            if not g.symbolic:
                return gem.Literal(a)
            # run-time geometry, as in a real kernel
            for v, b in g.bindings.items():
                if b.shape == a.shape and np.array_equal(b, a):
                    return v
            v = gem.Variable("geo%d" % len(g.bindings), a.shape)
            g.bindings[v] = a
            return v

        class M(PhysicalGeometry):
            def cell_size(self):
                return lit(g.h)

            def jacobian_at(self, point):
                return lit(g.J)

            def detJ_at(self, point):
                return lit(np.linalg.det(g.J))

            def reference_normals(self):
                return lit([g.ref.compute_normal(i) for i in range(len(g.v))])

            def normalized_reference_edge_tangents(self):
                return lit([g.ref.compute_normalized_edge_tangent(i) for i in range(len(g.edges))])

            def physical_normals(self):
                if g.normals is not None:
                    return lit(g.normals)
                return lit([R2 @ t for t in g.unit_tangents()])

            def physical_tangents(self):
                return lit(g.tangents if g.tangents is not None else g.unit_tangents())

            def physical_edge_lengths(self):
                return lit([np.linalg.norm(g.v[b] - g.v[a]) for a, b in g.edges])

            def physical_points(self, ps, entity=None):
                raise NotImplementedError

            def physical_vertices(self):
                return lit(g.v)
        return M()

    def unit_tangents(self):
        out = []
        for a, b in self.edges:
            a, b = min(a, b), max(a, b)
            t = self.v[b] - self.v[a]
            out.append(t / np.linalg.norm(t))
        return np.array(out)

    def push(self, X):
        return np.asarray(X) @ self.J.T + self.b


def piola(mapping, J, vals, vrank):
    """vals: (npts, n, *value_shape)."""
    if mapping == "affine":
        return vals
    K = []
    if "covariant" in mapping:
        K.append(np.linalg.inv(J).T)
    if "contravariant" in mapping:
        K.append(J / np.linalg.det(J))
    if vrank == 1:
        return np.einsum("ij,pnj->pni", K[0], vals)
    return np.einsum("ij,pnjk,lk->pnil", K[0], vals, K[-1])


def physical_tables(elem, geo, pts, order=0, entity=None):
    """{multi-index in physical coordinates: (npts, n, *value)} of the element's
    basis on the physical cell, at reference points pts."""
    from finat.point_set import PointSet
    ps = PointSet(np.asarray(pts, float))
    res = elem.basis_evaluation(order, ps, entity=entity, coordinate_mapping=geo.mapping())
    sd = geo.dim
    n = elem.space_dimension()
    tabs = {a: gemeval.flatpts(v, ps, geo.bindings) for a, v in res.items()}
    vs = tuple(elem.value_shape)
    out = {}
    K = np.linalg.inv(geo.J)
    base = {a: t.reshape((t.shape[0], n) + vs) for a, t in tabs.items()}
    for k in range(order + 1):
        # full symmetric tensor of reference derivatives
        D = np.zeros((sd,) * k + base[(0,) * sd].shape)
        for idx in itertools.product(range(sd), repeat=k):
            D[idx] = base[tuple(idx.count(i) for i in range(sd))]
        for axis in range(k):
            D = np.moveaxis(np.tensordot(K.T, np.moveaxis(D, axis, 0), (1, 0)), 0, axis)
        for idx in itertools.combinations_with_replacement(range(sd), k):
            out[tuple(idx.count(i) for i in range(sd))] = piola(elem.mapping, geo.J, D[idx], len(vs))
    return out
