"""Executable reference models of elements, written from the mathematical
definition of each construction with plain numpy on top of FIAT leaf
tabulations (FIAT is a trusted library, not part of the code under test).

An element is described by a JSON-able spec:

  ["leaf", name, cell, degree, kwargs]
  ["tpe", [spec, ...]]      ["flat", spec]          ["tensor", spec, shape, transpose]
  ["enr", [spec, ...]]      ["mix", [spec, ...]]    ["hdiv", spec]  ["hcurl", spec]
  ["disc", spec]            ["nodal", [spec, ...]]
"""
import functools
import itertools
import json

import FIAT
import numpy as np

from rv import geom
from rv.core import Skip


class Unsupported(Skip):
    pass


def build(spec):
    """The real FInAT element."""
    import finat
    op = spec[0]
    if op == "leaf":
        _, name, cell, degree, kw = spec
        c = geom.cell_from(cell)
        return getattr(finat, name)(c, degree, **kw)
    if op == "tpe":
        return finat.TensorProductElement([build(s) for s in spec[1]])
    if op == "flat":
        return finat.FlattenedDimensions(build(spec[1]))
    if op == "tensor":
        return finat.TensorFiniteElement(build(spec[1]), tuple(spec[2]), transpose=bool(spec[3]))
    if op == "enr":
        return finat.EnrichedElement([build(s) for s in spec[1]])
    if op == "mix":
        return finat.MixedElement([build(s) for s in spec[1]])
    if op == "hdiv":
        return finat.HDivElement(build(spec[1]))
    if op == "hcurl":
        return finat.HCurlElement(build(spec[1]))
    if op == "disc":
        return finat.DiscontinuousElement(build(spec[1]))
    if op == "nodal":
        return finat.NodalEnrichedElement([build(s) for s in spec[1]])
    raise ValueError(op)


@functools.lru_cache(maxsize=None)
def _model(key):
    spec = json.loads(key)
    op = spec[0]
    if op == "leaf":
        return Leaf(*spec[1:])
    if op == "tpe":
        return Tpe([model(s) for s in spec[1]])
    if op == "flat":
        return Flat(model(spec[1]))
    if op == "tensor":
        return Tensor(model(spec[1]), tuple(spec[2]), spec[3])
    if op == "enr":
        return Enriched([model(s) for s in spec[1]])
    if op == "mix":
        return Mixed([model(s) for s in spec[1]])
    if op in ("hdiv", "hcurl"):
        return HWrap(model(spec[1]), op)
    if op == "disc":
        return Disc(model(spec[1]))
    if op == "nodal":
        return Nodal([model(s) for s in spec[1]])
    raise ValueError(op)


def model(spec):
    return _model(json.dumps(spec))


def prod(t):
    return int(np.prod(t, dtype=int))


UNDEFINED = "undefined"


def combine_fd(ks, op):
    """Form degree of a composite; tuple-valued ones (double forms) do not
    combine."""
    if UNDEFINED in ks:
        return UNDEFINED
    if None in ks:
        return None
    if any(not isinstance(k, (int, np.integer)) for k in ks):
        return UNDEFINED
    return op(ks)


class Model:
    discontinuous = False
    poly_degree = None
    macro = False

    @property
    def space_dimension(self):
        return prod(self.index_shape)

    def zeros_entity(self):
        return {d: {e: [] for e in es} for d, es in self.cell.get_topology().items()}

    def dual(self):
        raise Unsupported("dual basis")

    @property
    def leaves(self):
        return [self]


def max_tree(trees):
    """Componentwise maximum of equally shaped degree trees, None if they differ in shape."""
    if any(t is None for t in trees):
        return None
    if not any(isinstance(t, tuple) for t in trees):
        return max(trees)
    if not all(isinstance(t, tuple) for t in trees) or len({len(t) for t in trees}) != 1:
        return None
    out = tuple(max_tree(list(ts)) for ts in zip(*trees))
    return None if None in out else out


def degree_tree(m):
    """Polynomial degree of an element as a tree over tensor factors; None where it has none."""
    if isinstance(m, Leaf):
        return m.poly_degree
    if isinstance(m, Tpe):
        t = tuple(degree_tree(f) for f in m.factors)
        return None if None in t else t
    if isinstance(m, Flat):
        t = degree_tree(m.product)
        return t[0] if isinstance(t, tuple) and len(set(t)) == 1 else None
    if isinstance(m, Enriched):
        return max_tree([degree_tree(c) for c in m.children])
    for a in ("base", "element", "w", "e"):
        if hasattr(m, a):
            return degree_tree(getattr(m, a))
    return None


def coarser(a, b, cell):
    """Whether every piece of ``b`` lies in one piece of ``a``, both subdivisions of
    ``cell``; None where FIAT cannot compare (differently nested products)."""
    if geom.kind(cell) == "tensor":
        if any(geom.kind(c) != "simplex" for c in cell.cells) or not (hasattr(a, "cells") and hasattr(b, "cells")):
            return None
        return all(coarser(*t) for t in zip(a.cells, b.cells, cell.cells))
    if geom.kind(cell) != "simplex":
        return None
    return a == cell or a == b


def complex_of(m):
    """The subdivision on whose pieces the basis is smooth; None where FIAT has no single common one."""
    if isinstance(m, Leaf):
        return m.fiat.get_reference_complex()
    if isinstance(m, Tpe):
        fs = [complex_of(f) for f in m.factors]
        return None if any(f is None for f in fs) else FIAT.reference_element.TensorProductCell(*fs)
    if isinstance(m, Flat):
        return complex_of(m.product)
    if isinstance(m, Enriched):
        cs = [complex_of(c) for c in m.children]
        if any(c is None for c in cs):
            return None
        rel = [[coarser(a, b, m.cell) for a in cs] for b in cs]
        if any(None in r for r in rel):
            return None
        return next((b for b, r in zip(cs, rel) if all(r)), None)
    for a in ("base", "element", "w", "e"):
        if hasattr(m, a):
            return complex_of(getattr(m, a))
    return None


class Leaf(Model):
    def __init__(self, name, cell, degree, kw):
        self.name, self.cellspec = name, cell
        self.cell = geom.cell_from(cell)
        fname = {"Real": "DiscontinuousLagrange"}.get(name, name)
        try:
            self.fiat = getattr(FIAT, fname)(self.cell, degree, **kw)
        except AttributeError as e:
            if "has no attribute '%s'" % fname in str(e):
                raise
            raise Unsupported("FIAT cannot build: %s" % e)
        except Exception as e:
            raise Unsupported("FIAT cannot build: %s" % e)
        self.index_shape = (self.fiat.space_dimension(),)
        vs = tuple(self.fiat.value_shape())
        self.value_shape = vs
        self.poly_degree = self.fiat.degree()
        self.formdegree = self.fiat.get_formdegree()
        m = set(self.fiat.mapping())
        self.mapping = m.pop() if len(m) == 1 else None
        self.macro = self.fiat.get_reference_complex().is_macrocell()

    def entity_dofs(self):
        return self.fiat.entity_dofs()

    def tab(self, order, pts, entity=None):
        pts = np.asarray(pts, dtype=float)
        if entity is None:
            x = pts
        else:
            x = geom.map_points(self.cell, entity[0], entity[1], pts)
        try:
            res = self.fiat.tabulate(order, x)
        except IndexError as e:
            # rounding can push a point out of every piece of a subdivision
            raise Unsupported("FIAT cannot tabulate: %s" % e)
        out = {}
        for a, t in res.items():
            if isinstance(t, Exception):
                raise Unsupported("FIAT cannot tabulate")
            t = np.asarray(t, dtype=float)
            out[a] = np.moveaxis(t.reshape(self.index_shape + self.value_shape + (len(pts),)), -1, 0)
        return out

    def dual(self):
        """(points [P, d], weights [N, P, *value_shape])"""
        if self.fiat.dual is None:
            raise Unsupported("no dual basis in FIAT")
        pts, index, rows = [], {}, []
        for node in self.fiat.dual_basis():
            if node.deriv_dict:
                raise Unsupported("derivative nodes")
            rows.append(node.get_point_dict())
        for r in rows:
            for p in r:
                if p not in index:
                    index[p] = len(pts)
                    pts.append(p)
        W = np.zeros((len(rows), len(pts)) + self.value_shape)
        for i, r in enumerate(rows):
            for p, wc in r.items():
                for w, c in wc:
                    W[(i, index[p]) + tuple(c)] += w
        return np.asarray(pts, dtype=float).reshape(len(pts), self.cell.get_spatial_dimension()), W


class Nodal(Leaf):
    """FIAT nodal enrichment of the children's FIAT elements."""

    def __init__(self, children):
        self.cell = children[0].cell
        try:
            self.fiat = FIAT.NodalEnrichedElement(*[c.fiat for c in children])
        except Exception as e:
            raise Unsupported("FIAT cannot build: %s" % e)
        self.index_shape = (self.fiat.space_dimension(),)
        self.value_shape = tuple(self.fiat.value_shape())
        self.poly_degree = self.fiat.degree()
        self.formdegree = self.fiat.get_formdegree()
        m = set(self.fiat.mapping())
        self.mapping = m.pop() if len(m) == 1 else None
        self.macro = self.fiat.get_reference_complex().is_macrocell()


class Tpe(Model):
    def __init__(self, factors):
        self.factors = factors
        self.cell = FIAT.reference_element.TensorProductCell(*[f.cell for f in factors])
        self.index_shape = tuple(itertools.chain(*[f.index_shape for f in factors]))
        vss = [f.value_shape for f in factors if f.value_shape]
        if len(vss) > 1:
            raise Unsupported("two vector factors")
        self.value_shape = vss[0] if vss else ()
        ks = [f.formdegree for f in factors]
        self.formdegree = combine_fd(ks, sum)
        ms = [f.mapping for f in factors if f.mapping != "affine"]
        self.mapping = "affine" if not ms else (ms[0] if len(ms) == 1 else None)
        self.macro = any(f.macro for f in factors)

    @property
    def leaves(self):
        return [x for f in self.factors for x in f.leaves]

    def entity_dofs(self):
        out = {}
        eds = [f.entity_dofs() for f in self.factors]
        dims = [f.space_dimension for f in self.factors]
        for dd in self.cell.get_topology():
            ents = {}
            for n, combo in enumerate(itertools.product(*[sorted(ed[d]) for ed, d in zip(eds, dd)])):
                dofs = []
                for tup in itertools.product(*[ed[d][e] for ed, d, e in zip(eds, dd, combo)]):
                    k = 0
                    for t, s in zip(tup, dims):
                        k = k * s + t
                    dofs.append(k)
                ents[n] = dofs
            out[dd] = ents
        return out

    def tab(self, order, pts, entity=None):
        pts = np.asarray(pts, dtype=float)
        if entity is None:
            entity = (self.cell.get_dimension(), 0)
        fes = geom.factor_entity(self.cell, *entity)
        tabs, off = [], 0
        for f, fe in zip(self.factors, fes):
            w = geom.entity_sdim(fe[0])
            tabs.append(f.tab(order, pts[:, off:off + w], fe))
            off += w
        sd = [f.cell.get_spatial_dimension() for f in self.factors]
        out = {}
        n = len(pts)
        for a in geom.all_multiindices(sum(sd), order):
            parts, off = [], 0
            for t, s in zip(tabs, sd):
                parts.append(t[tuple(a[off:off + s])])
                off += s
            res = np.ones((n,))
            vshape = ()
            for f, p in zip(self.factors, parts):
                # res [n, I..., V...] x p [n, i..., v...] with V empty for at least one
                ni, nv = len(f.index_shape), len(f.value_shape)
                ri = res.ndim - 1 - len(vshape)
                r = res.reshape(res.shape[:1 + ri] + (1,) * ni + vshape + (1,) * nv)
                q = p.reshape((n,) + (1,) * ri + f.index_shape + (1,) * len(vshape) + f.value_shape)
                res = r * q
                vshape = vshape + f.value_shape
            out[a] = res
        return out

    def dual(self):
        duals = [f.dual() for f in self.factors]
        pts = np.array([np.concatenate(t) for t in itertools.product(*[d[0] for d in duals])])
        W = np.ones(())
        idx, np_, vshape = (), (), ()
        for f, (p, w) in zip(self.factors, duals):
            a = W.reshape(idx + (1,) * len(f.index_shape) + np_ + (1,) + vshape + (1,) * len(f.value_shape))
            b = w.reshape((1,) * len(idx) + f.index_shape + (1,) * len(np_) + (len(p),)
                          + (1,) * len(vshape) + f.value_shape)
            W = a * b
            idx += f.index_shape
            np_ += (len(p),)
            vshape += f.value_shape
        return pts, W.reshape(idx + (prod(np_),) + vshape)


@functools.lru_cache(maxsize=None)
def _flat_map(cellrepr, flatdim):
    raise NotImplementedError


class Flat(Model):
    def __init__(self, product):
        self.product = product
        d = product.cell.get_spatial_dimension()
        self.cell = geom.cell_from({2: "quadrilateral", 3: "hexahedron"}[d])
        for a in ("index_shape", "value_shape", "formdegree", "mapping", "macro"):
            setattr(self, a, getattr(product, a))
        # match entities of the cube with those of the product by vertex coordinates
        def verts(c, dim, e):
            n = geom.entity_sdim(dim)
            corners = np.array(list(itertools.product((0., 1.), repeat=n))).reshape(2**n, n)
            return frozenset(tuple(np.round(v, 9)) for v in geom.map_points(c, dim, e, corners))
        look = {verts(product.cell, dd, e): (dd, e) for dd, e in geom.entities(product.cell)}
        self.unflat = {(dd, e): look[verts(self.cell, dd, e)] for dd, e in geom.entities(self.cell)}

    @property
    def leaves(self):
        return self.product.leaves

    def entity_dofs(self):
        p = self.product.entity_dofs()
        out = self.zeros_entity()
        for (d, e), (pd, pe) in self.unflat.items():
            out[d][e] = list(p[pd][pe])
        return out

    def tab(self, order, pts, entity=None):
        if entity is None:
            entity = (self.cell.get_spatial_dimension(), 0)
        return self.product.tab(order, pts, self.unflat[tuple(entity)])

    def dual(self):
        return self.product.dual()


class Tensor(Model):
    def __init__(self, base, shape, transpose):
        self.base, self.shape, self.transpose = base, shape, bool(transpose)
        self.cell = base.cell
        self.index_shape = shape + base.index_shape if transpose else base.index_shape + shape
        self.value_shape = shape + base.value_shape
        self.formdegree, self.mapping, self.macro = base.formdegree, base.mapping, base.macro

    @property
    def leaves(self):
        return self.base.leaves

    def _kron(self, t, lead):
        """t: [lead..., base index, mid..., base value] handled by caller via moveaxis."""
        raise NotImplementedError

    def tab(self, order, pts, entity=None):
        out = {}
        bi, bv = len(self.base.index_shape), len(self.base.value_shape)
        r = len(self.shape)
        eye = np.eye(prod(self.shape)).reshape(self.shape + self.shape)
        for a, t in self.base.tab(order, pts, entity).items():
            n = t.shape[0]
            full = np.multiply.outer(t, eye)          # n, I, v, S, S'
            ax_i = list(range(1, 1 + bi))
            ax_v = list(range(1 + bi, 1 + bi + bv))
            ax_s = list(range(1 + bi + bv, 1 + bi + bv + r))
            ax_s2 = list(range(1 + bi + bv + r, 1 + bi + bv + 2 * r))
            order_ = [0] + (ax_s + ax_i if self.transpose else ax_i + ax_s) + ax_s2 + ax_v
            out[a] = full.transpose(order_)
            assert out[a].shape == (n,) + self.index_shape + self.value_shape
        return out

    def entity_dofs(self):
        out = {}
        nb, ns = self.base.space_dimension, prod(self.shape)
        for d, es in self.base.entity_dofs().items():
            out[d] = {}
            for e, dofs in es.items():
                if self.transpose:
                    out[d][e] = [s * nb + k for s in range(ns) for k in dofs]
                else:
                    out[d][e] = [k * ns + s for k in dofs for s in range(ns)]
        return out

    def dual(self):
        pts, W = self.base.dual()
        bi = len(self.base.index_shape)
        bv = len(self.base.value_shape)
        r = len(self.shape)
        eye = np.eye(prod(self.shape)).reshape(self.shape + self.shape)
        full = np.multiply.outer(W, eye)              # I, P, v, S, S'
        ax_i = list(range(bi))
        ax_p = [bi]
        ax_v = list(range(bi + 1, bi + 1 + bv))
        ax_s = list(range(bi + 1 + bv, bi + 1 + bv + r))
        ax_s2 = list(range(bi + 1 + bv + r, bi + 1 + bv + 2 * r))
        return pts, full.transpose((ax_s + ax_i if self.transpose else ax_i + ax_s) + ax_p + ax_s2 + ax_v)


class Enriched(Model):
    def __init__(self, children):
        flatc = []
        for c in children:
            flatc.extend(c.children if type(c) is Enriched else [c])
        self.children = flatc
        self.cell = flatc[0].cell
        if len({c.value_shape for c in flatc}) != 1:
            raise Unsupported("value shapes differ")
        self.value_shape = flatc[0].value_shape
        self.index_shape = (sum(c.space_dimension for c in flatc),)
        ks = [c.formdegree for c in flatc]
        self.formdegree = combine_fd(ks, max)
        ms = {c.mapping for c in flatc}
        self.mapping = ms.pop() if len(ms) == 1 else None
        self.macro = any(c.macro for c in flatc)

    @property
    def leaves(self):
        return [x for f in self.children for x in f.leaves]

    def tab(self, order, pts, entity=None):
        n = len(pts)
        tabs = [c.tab(order, pts, entity) for c in self.children]
        return {a: np.concatenate([t[a].reshape((n, c.space_dimension) + self.value_shape)
                                   for c, t in zip(self.children, tabs)], axis=1)
                for a in tabs[0]}

    def entity_dofs(self):
        out = self.zeros_entity()
        off = 0
        for c in self.children:
            for d, es in c.entity_dofs().items():
                for e, dofs in es.items():
                    out[d][e].extend(off + k for k in dofs)
            off += c.space_dimension
        return out


class MixedSub(Model):
    def __init__(self, element, size, offset):
        self.element, self.size, self.offset = element, size, offset
        for a in ("cell", "index_shape", "formdegree", "mapping", "macro"):
            setattr(self, a, getattr(element, a))
        self.value_shape = (size,)

    @property
    def leaves(self):
        return self.element.leaves

    def tab(self, order, pts, entity=None):
        out = {}
        for a, t in self.element.tab(order, pts, entity).items():
            n = t.shape[0]
            m = prod(self.element.value_shape)
            r = np.zeros((n,) + self.index_shape + (self.size,))
            r[..., self.offset:self.offset + m] = t.reshape((n,) + self.index_shape + (m,))
            out[a] = r
        return out

    def entity_dofs(self):
        return self.element.entity_dofs()


class Mixed(Enriched):
    def __init__(self, children):
        sizes = [prod(c.value_shape) for c in children]
        offs = np.concatenate([[0], np.cumsum(sizes)]).astype(int)
        Enriched.__init__(self, [MixedSub(c, int(offs[-1]), int(o)) for c, o in zip(children, offs)])


# value transformations written from their geometric meaning:
# H(div): the scalar/vector form value becomes the flux with positive direction
# the anticlockwise normal of the globally oriented edges; H(curl): tangent.
HDIV = {((0, 1), "affine", 2): [[-1], [0]],
        ((1, 0), "affine", 2): [[0], [1]],
        ((2, 0), None, 3): [[0], [0], [1]],
        ((1, 1), "contravariant piola", 3): [[1, 0], [0, 1], [0, 0]],
        ((1, 1), "covariant piola", 3): [[0, 1], [-1, 0], [0, 0]]}
HCURL = {((1, 0), "affine", 2): [[1], [0]],
         ((0, 1), "affine", 2): [[0], [1]],
         ((0, 1), "affine", 3): [[0], [0], [1]],
         ((1, 0), "covariant piola", 3): [[1, 0], [0, 1], [0, 0]],
         ((1, 0), "contravariant piola", 3): [[0, -1], [1, 0], [0, 0]]}


class HWrap(Model):
    def __init__(self, w, op):
        self.w = w
        self.cell = w.cell
        dim = w.cell.get_spatial_dimension()
        ks = tuple(f.formdegree for f in w.factors)
        table = HDIV if op == "hdiv" else HCURL
        key = (ks, w.mapping, dim)
        if key not in table:
            key = (ks, None, dim)
        if key not in table:
            raise Unsupported("no %s transform for %s" % (op, (ks, w.mapping, dim)))
        self.M = np.array(table[key], dtype=float)
        self.index_shape = w.index_shape
        self.value_shape = (dim,)
        self.formdegree = dim - 1 if op == "hdiv" else 1
        self.mapping = "contravariant piola" if op == "hdiv" else "covariant piola"
        self.macro = w.macro

    @property
    def leaves(self):
        return self.w.leaves

    def _tr(self, a):
        if self.w.value_shape == ():
            a = a[..., None]
        return a @ self.M.T

    def tab(self, order, pts, entity=None):
        return {a: self._tr(t) for a, t in self.w.tab(order, pts, entity).items()}

    def entity_dofs(self):
        return self.w.entity_dofs()

    def dual(self):
        p, W = self.w.dual()
        return p, self._tr(W)


class Disc(Model):
    discontinuous = True

    def __init__(self, e):
        self.e = e
        for a in ("cell", "index_shape", "value_shape", "mapping", "macro"):
            setattr(self, a, getattr(e, a))
        self.formdegree = e.cell.get_spatial_dimension()

    @property
    def leaves(self):
        return self.e.leaves

    def tab(self, order, pts, entity=None):
        return self.e.tab(order, pts, entity)

    def entity_dofs(self):
        out = self.zeros_entity()
        out[self.cell.get_dimension()][0] = list(range(self.space_dimension))
        return out

    def dual(self):
        return self.e.dual()


# --------------------------------------------------------------------------
# element generators
# --------------------------------------------------------------------------
SPLITS = [None, "alfeld"]


def leaf(name, cell, degree, **kw):
    return ["leaf", name, cell, degree, kw]


def leaf_catalog():
    """Every directly FIAT-backed family x cell x degree x variant."""
    out = []
    simp = ("interval", "triangle", "tetrahedron")
    dmax = {"interval": 6, "triangle": 5, "tetrahedron": 4}
    for c in simp:
        d = geom.DIM[c]
        for deg in range(1, dmax[c] + 1):
            for v in (None, "equispaced", "spectral", "chebyshev", "alfeld", "spectral,alfeld", "equispaced,iso(2)", "powell-sabin"):
                if v and ("alfeld" in v or "iso" in v or "powell" in v) and (deg > 3 or (d == 3 and deg > 2)):
                    continue
                out.append(leaf("Lagrange", c, deg, **({} if v is None else {"variant": v})))
            for nm in ("GaussLobattoLegendre", "Bernstein", "IntegratedLegendre", "CrouzeixRaviart"):
                out.append(leaf(nm, c, deg))
            if deg <= 3:
                out.append(leaf("IntegratedLegendre", c, deg, variant="alfeld"))
        for deg in range(0, dmax[c] + 1):
            for v in (None, "equispaced", "spectral", "gl", "alfeld", "spectral,alfeld", "equispaced,iso(2)"):
                if v and ("alfeld" in v or "iso" in v) and deg > 2:
                    continue
                out.append(leaf("DiscontinuousLagrange", c, deg, **({} if v is None else {"variant": v})))
            for nm in ("GaussLegendre", "Legendre", "DiscontinuousTaylor"):
                out.append(leaf(nm, c, deg))
            if deg <= 2:
                out.append(leaf("Legendre", c, deg, variant="alfeld"))
        out.append(leaf("Real", c, 0))
        for deg in range(d + 1, dmax[c] + 2):
            out.append(leaf("Bubble", c, deg))
        if d > 1:
            for deg in range(d, dmax[c] + 1):
                out.append(leaf("FacetBubble", c, deg))
            for deg in range(1, {2: 5, 3: 3}[d] + 1):
                out.append(leaf("KongMulderVeldhuizen", c, deg))
            for deg in range(1, {2: 4, 3: 3}[d] + 1):
                for nm in ("RaviartThomas", "BrezziDouglasMarini", "Nedelec", "NedelecSecondKind"):
                    for v in (None, "integral", "integral(1)", "point"):
                        out.append(leaf(nm, c, deg, **({} if v is None else {"variant": v})))
            out.append(leaf("BrezziDouglasFortinMarini", c, 2))
            for deg in range(0, {2: 3, 3: 2}[d] + 1):
                for nm in ("Regge", "HellanHerrmannJohnson"):
                    for v in (None, "integral", "point"):
                        out.append(leaf(nm, c, deg, **({} if v is None else {"variant": v})))
            for deg in range(0, {2: 3, 3: 2}[d] + 1):
                out.append(leaf("GopalakrishnanLedererSchoberlFirstKind", c, deg))
                out.append(leaf("GopalakrishnanLedererSchoberlSecondKind", c, deg))
    for deg in range(1, 7):
        for nm in ("FDMLagrange", "FDMDiscontinuousLagrange", "FDMQuadrature", "FDMBrokenH1", "FDMBrokenL2"):
            out.append(leaf(nm, "interval", deg))
    for deg in range(3, 7):
        out.append(leaf("FDMHermite", "interval", deg))
    for c in ("quadrilateral", "hexahedron"):
        for deg in range(1, 5 if c == "quadrilateral" else 4):
            for nm in ("Serendipity", "DPC", "TrimmedSerendipityFace", "TrimmedSerendipityEdge",
                       "TrimmedSerendipityDiv", "TrimmedSerendipityCurl",
                       "BrezziDouglasMariniCubeEdge", "BrezziDouglasMariniCubeFace"):
                out.append(leaf(nm, c, deg))
        out.append(leaf("DPC", c, 0))
    return out


def deep_catalog():
    """The same families beyond the degrees that elements are usually tried
    with."""
    out = []
    lo = {"interval": 7, "triangle": 6, "tetrahedron": 5}
    hi = {"interval": 14, "triangle": 9, "tetrahedron": 6}
    for c in lo:
        d = geom.DIM[c]
        for deg in range(lo[c], hi[c] + 1):
            for v in ("equispaced", "spectral"):
                if v == "equispaced" and deg > 9:
                    continue
                out.append(leaf("Lagrange", c, deg, variant=v))
                out.append(leaf("DiscontinuousLagrange", c, deg, variant=v))
            for nm in ("GaussLobattoLegendre", "GaussLegendre", "Bernstein", "IntegratedLegendre", "Legendre", "Bubble"):
                if nm == "Bernstein" and deg > 9:
                    continue
                out.append(leaf(nm, c, deg))
            if d > 1:
                out.append(leaf("FacetBubble", c, deg))
                for nm in ("RaviartThomas", "BrezziDouglasMarini", "Nedelec", "NedelecSecondKind"):
                    if deg <= {2: 7, 3: 5}[d]:
                        out.append(leaf(nm, c, deg, variant="integral"))
        if d > 1:
            for deg in range(1, 4):
                for nm in ("RaviartThomas", "BrezziDouglasMarini", "Nedelec", "NedelecSecondKind"):
                    for q in (2, 3):
                        out.append(leaf(nm, c, deg, variant="integral(%d)" % q))
            for nm in ("Regge", "HellanHerrmannJohnson"):
                out.append(leaf(nm, c, {2: 5, 3: 3}[d], variant="integral"))
        for k in (3, 4):
            out.append(leaf("Lagrange", c, 1, variant="iso(%d)" % k))
    for deg in range(7, 13):
        for nm in ("FDMLagrange", "FDMDiscontinuousLagrange", "FDMQuadrature", "FDMBrokenH1", "FDMBrokenL2", "FDMHermite"):
            out.append(leaf(nm, "interval", deg))
    for c, a, b in (("quadrilateral", 5, 6), ("hexahedron", 4, 4)):
        for deg in range(a, b + 1):
            for nm in ("Serendipity", "DPC"):
                out.append(leaf(nm, c, deg))
            if c == "quadrilateral" and deg == 5:
                for nm in ("TrimmedSerendipityFace", "TrimmedSerendipityEdge", "BrezziDouglasMariniCubeEdge", "BrezziDouglasMariniCubeFace"):
                    out.append(leaf(nm, c, deg))
    return out


SCALAR_1D = [("Lagrange", 1, 4), ("DiscontinuousLagrange", 0, 3), ("GaussLobattoLegendre", 1, 4),
             ("GaussLegendre", 0, 3), ("Legendre", 0, 3), ("IntegratedLegendre", 1, 4), ("Bernstein", 1, 3),
             ("FDMLagrange", 1, 4), ("FDMDiscontinuousLagrange", 1, 3), ("FDMBrokenH1", 1, 3),
             ("FDMBrokenL2", 1, 3), ("FDMQuadrature", 1, 3), ("Bubble", 2, 4), ("FDMHermite", 3, 4)]
NODAL_1D = SCALAR_1D[:6] + [("FDMLagrange", 1, 4)]
SCALAR_ND = {"triangle": [("Lagrange", 1, 3), ("DiscontinuousLagrange", 0, 2), ("Legendre", 0, 2),
                          ("IntegratedLegendre", 1, 3), ("CrouzeixRaviart", 1, 1), ("Bernstein", 1, 2),
                          ("Bubble", 3, 4), ("KongMulderVeldhuizen", 1, 2), ("DiscontinuousTaylor", 0, 2)],
             "tetrahedron": [("Lagrange", 1, 2), ("DiscontinuousLagrange", 0, 2), ("Legendre", 0, 1),
                             ("CrouzeixRaviart", 1, 1), ("Bubble", 4, 4), ("Bernstein", 1, 2)],
             "quadrilateral": [("Serendipity", 1, 3), ("DPC", 0, 2)],
             "hexahedron": [("Serendipity", 1, 2), ("DPC", 0, 2)]}
VECTOR_ND = {"triangle": [("RaviartThomas", 1, 2), ("BrezziDouglasMarini", 1, 2), ("Nedelec", 1, 2),
                          ("NedelecSecondKind", 1, 2)],
             "tetrahedron": [("RaviartThomas", 1, 1), ("Nedelec", 1, 1), ("NedelecSecondKind", 1, 1)],
             "quadrilateral": [("BrezziDouglasMariniCubeEdge", 1, 2), ("BrezziDouglasMariniCubeFace", 1, 2),
                               ("TrimmedSerendipityEdge", 1, 2), ("TrimmedSerendipityFace", 1, 2)],
             "hexahedron": [("TrimmedSerendipityDiv", 1, 1), ("TrimmedSerendipityCurl", 1, 1)]}
TENSOR_ND = {"triangle": [("Regge", 0, 1), ("HellanHerrmannJohnson", 0, 1),
                          ("GopalakrishnanLedererSchoberlFirstKind", 1, 1)],
             "tetrahedron": [("Regge", 0, 0)]}


# share of drawn Lagrange/DG leaves that get a subdivided variant; set by checks whose oracles know about piece boundaries
MACRO_RATE = 0.0
MACRO = ["alfeld", "spectral,alfeld", "equispaced,iso(2)", "powell-sabin"]


def subdivide(rng, name, cell, deg, kw):
    if MACRO_RATE and name in ("Lagrange", "DiscontinuousLagrange") and rng.random() < MACRO_RATE:
        v = pick(rng, MACRO[:3] if name == "DiscontinuousLagrange" else MACRO)
        cap = 1 if cell == "tetrahedron" or "powell" in v else 2
        return min(deg, cap), {"variant": v}
    return deg, kw


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def rand_leaf(rng, cell, kind="scalar", cap=None):
    if cell == "interval":
        tab = SCALAR_1D
    else:
        tab = {"scalar": SCALAR_ND, "vector": VECTOR_ND, "tensor": TENSOR_ND}[kind].get(cell)
    if not tab:
        tab = SCALAR_ND[cell]
    name, lo, hi = pick(rng, tab)
    hi = hi if cap is None else max(lo, min(hi, cap))
    deg = int(rng.integers(lo, hi + 1))
    if name == "CrouzeixRaviart":
        deg = 1
    kw = {}
    if name in ("Lagrange", "DiscontinuousLagrange") and rng.random() < .5:
        kw["variant"] = pick(rng, ["equispaced", "spectral"])
    deg, kw = subdivide(rng, name, cell, deg, kw)
    return leaf(name, cell, deg, **kw)


def rand_interval(rng, cap=4, nodal=False):
    name, lo, hi = pick(rng, NODAL_1D if nodal else SCALAR_1D)
    deg = int(rng.integers(lo, max(lo, min(hi, cap)) + 1))
    kw = {}
    if name in ("Lagrange", "DiscontinuousLagrange") and rng.random() < .5:
        kw["variant"] = pick(rng, ["equispaced", "spectral"])
    deg, kw = subdivide(rng, name, "interval", deg, kw)
    return leaf(name, "interval", deg, **kw)


def same_degree_intervals(rng, n, nodal=False):
    """1D elements of the same degree (a flattened element needs one degree)."""
    deg = int(rng.integers(1, 4))
    out = []
    for _ in range(n):
        c = [s for s in (NODAL_1D if nodal else SCALAR_1D) if s[1] <= deg <= s[2]]
        out.append(leaf(pick(rng, c)[0], "interval", deg))
    return out


# name -> H1 / L2 interval pairs for de Rham style wrappers
def h1_1d(rng, deg):
    return leaf(pick(rng, ["Lagrange", "GaussLobattoLegendre", "IntegratedLegendre", "FDMLagrange"]), "interval", deg)


def l2_1d(rng, deg):
    return leaf(pick(rng, ["DiscontinuousLagrange", "GaussLegendre", "Legendre"]), "interval", deg)


def rand_hwrap(rng, op=None, cap=2):
    """A random HDiv/HCurl-wrappable tensor product."""
    op = op or pick(rng, ["hdiv", "hcurl"])
    dim = pick(rng, [2, 2, 3, 3])
    p = int(rng.integers(1, cap + 2)) if dim == 2 else int(rng.integers(1, cap + 1))
    A, B = h1_1d(rng, p), l2_1d(rng, p - 1)
    if dim == 2:
        fs = [A, B] if rng.random() < .5 else [B, A]
        return [op, ["tpe", fs]]
    if rng.random() < .6:
        tri_h1 = leaf("Lagrange", "triangle", p)
        tri_l2 = leaf("DiscontinuousLagrange", "triangle", p - 1)
        tri_div = leaf(pick(rng, ["RaviartThomas", "BrezziDouglasMarini"]), "triangle", p)
        tri_curl = leaf(pick(rng, ["Nedelec", "NedelecSecondKind"]), "triangle", p)
    else:
        q = lambda a, b: ["flat", ["tpe", [a, b]]]
        tri_h1 = q(h1_1d(rng, p), h1_1d(rng, p))
        tri_l2 = q(l2_1d(rng, p - 1), l2_1d(rng, p - 1))
        hd = [["tpe", [h1_1d(rng, p), l2_1d(rng, p - 1)]], ["tpe", [l2_1d(rng, p - 1), h1_1d(rng, p)]]]
        tri_div = ["flat", ["hdiv", pick(rng, hd)]]
        tri_curl = ["flat", ["hcurl", pick(rng, hd)]]
    if op == "hdiv":
        base = pick(rng, [(tri_l2, A), (tri_div, B), (tri_curl, B)])
    else:
        base = pick(rng, [(tri_h1, B), (tri_curl, A), (tri_div, A)])
    return [op, ["tpe", list(base)]]


def cell_of(spec):
    op = spec[0]
    if op == "leaf":
        return spec[2]
    if op == "tpe":
        return [cell_of(s) for s in spec[1]]
    if op == "flat":
        return {2: "quadrilateral", 3: "hexahedron"}[geom.spec_dim(cell_of(spec[1]))]
    if op in ("enr", "mix", "nodal"):
        return cell_of(spec[1][0])
    return cell_of(spec[1])


def rand_scalar(rng, cell):
    """Random scalar element on the given cell spec (string or list)."""
    if isinstance(cell, list):
        return ["tpe", [rand_scalar(rng, c) for c in cell]]
    if cell == "interval":
        return rand_interval(rng, 3)
    if cell in ("quadrilateral", "hexahedron") and rng.random() < .65:
        if cell == "quadrilateral":
            return ["flat", ["tpe", same_degree_intervals(rng, 2)]]
        if rng.random() < .5:
            return ["flat", ["tpe", [leaf("Lagrange", "interval", int(rng.integers(1, 3))),
                                     leaf("Lagrange", "interval", 2), leaf("GaussLegendre", "interval", 1)]]]
        a = same_degree_intervals(rng, 3)
        return ["flat", ["tpe", [["flat", ["tpe", a[:2]]], a[2]]]]
    return rand_leaf(rng, cell, "scalar")


def rand_any(rng, cell, depth=2):
    """Random element of any value shape on the given cell spec."""
    u = rng.random()
    if depth <= 0 or u < .3:
        if isinstance(cell, str) and rng.random() < .5 and cell in VECTOR_ND:
            return rand_leaf(rng, cell, pick(rng, ["vector", "tensor"]))
        return rand_scalar(rng, cell)
    if u < .5:
        r = int(rng.integers(1, 3))
        return ["tensor", rand_any(rng, cell, depth - 2), [int(rng.integers(1, 4)) for _ in range(r)], bool(rng.integers(2))]
    if u < .7:
        # enriched: equal value shapes
        base = rand_any(rng, cell, depth - 2)
        vs = model(base).value_shape
        others = []
        for _ in range(6):
            o = rand_any(rng, cell, depth - 2)
            if model(o).value_shape == vs and len(others) < 2:
                others.append(o)
        return ["enr", [base] + (others or [base])]
    if u < .85:
        return ["mix", [rand_any(rng, cell, depth - 2) for _ in range(int(rng.integers(2, 4)))]]
    return ["disc", rand_any(rng, cell, depth - 1)]


CELLS = ["interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron",
         ["interval", "interval"], ["triangle", "interval"], ["quadrilateral", "interval"],
         ["interval", "interval", "interval"]]


def safe(fn, rng, *a, tries=12):
    """Draw until the trusted library supports what was drawn."""
    for _ in range(tries):
        try:
            s = fn(rng, *a)
            model(s)
            return s
        except Skip:
            continue
    return leaf("Lagrange", "interval", 2)


def features(spec):
    """Construction operators present (for coverage accounting)."""
    ops = set()
    def walk(s):
        ops.add(s[0] if s[0] != "leaf" else s[1])
        if s[0] in ("tpe", "enr", "mix", "nodal"):
            for x in s[1]:
                walk(x)
        elif s[0] != "leaf":
            walk(s[1])
    walk(spec)
    return ops
