"""UFL specification -> FInAT element, and two-cell geometries for gluing."""
import itertools

import numpy as np

from rv import geom, gemeval, uflmodel as um, zany
from rv.core import Skip


def flat_factors(cell):
    """Simple factors of a cell specification."""
    if isinstance(cell, list):
        return [f for c in cell for f in flat_factors(c)]
    return {"quadrilateral": ["interval"] * 2, "hexahedron": ["interval"] * 3}.get(cell, [cell])


def lagrange(c, d, v, disc):
    import finat
    if v in (None, "equispaced"):
        return (finat.DiscontinuousLagrange if disc else finat.Lagrange)(c, d, **({"variant": v} if v else {}))
    if v == "spectral":
        return (finat.GaussLegendre if disc else finat.GaussLobattoLegendre)(c, d)
    if v == "integral":
        return (finat.Legendre if disc else finat.IntegratedLegendre)(c, d)
    if v == "fdm" and c.get_spatial_dimension() == 1 and d >= 1:
        return (finat.FDMDiscontinuousLagrange if disc else finat.FDMLagrange)(c, d)
    raise Skip("variant")


PLAIN = {"Discontinuous Taylor": "DiscontinuousTaylor", "Nedelec 1st kind H(curl)": "Nedelec", "Nedelec 2nd kind H(curl)": "NedelecSecondKind",
         "Brezzi-Douglas-Marini": "BrezziDouglasMarini", "Raviart-Thomas": "RaviartThomas", "Brezzi-Douglas-Fortin-Marini": "BrezziDouglasFortinMarini",
         "Crouzeix-Raviart": "CrouzeixRaviart", "Kong-Mulder-Veldhuizen": "KongMulderVeldhuizen", "Regge": "Regge", "Hellan-Herrmann-Johnson": "HellanHerrmannJohnson",
         "Gopalakrishnan-Lederer-Schoberl 1st kind": "GopalakrishnanLedererSchoberlFirstKind",
         "Gopalakrishnan-Lederer-Schoberl 2nd kind": "GopalakrishnanLedererSchoberlSecondKind", "Hu-Zhang": "HuZhang", "Argyris": "Argyris",
         "Hsieh-Clough-Tocher": "HsiehCloughTocher", "Bubble": "Bubble", "FacetBubble": "FacetBubble", "Bernstein": "Bernstein", "S": "Serendipity", "DPC": "DPC",
         "BDMCE": "BrezziDouglasMariniCubeEdge", "BDMCF": "BrezziDouglasMariniCubeFace", "SminusE": "TrimmedSerendipityEdge", "SminusF": "TrimmedSerendipityFace",
         "SminusDiv": "TrimmedSerendipityDiv", "SminusCurl": "TrimmedSerendipityCurl", "Gauss-Legendre": "GaussLegendre", "Gauss-Lobatto-Legendre": "GaussLobattoLegendre",
         "Gauss-Legendre L2": "GaussLegendre", "Real": "Real"}
FIXED = {"Nonconforming Arnold-Winther": "ArnoldWintherNC", "Conforming Arnold-Winther": "ArnoldWinther", "Mardal-Tai-Winther": "MardalTaiWinther",
         "Hermite": "Hermite", "Bell": "Bell", "Morley": "Morley", "QuadraticPowellSabin6": "QuadraticPowellSabin6", "QuadraticPowellSabin12": "QuadraticPowellSabin12",
         "Reduced-Hsieh-Clough-Tocher": "ReducedHsiehCloughTocher", "Johnson-Mercier": "JohnsonMercier", "Arnold-Qin": "ArnoldQin", "Reduced-Arnold-Qin": "ReducedArnoldQin",
         "Christiansen-Hu": "ChristiansenHu", "Alfeld-Sorokina": "AlfeldSorokina", "Guzman-Neilan H1(div)": "GuzmanNeilanH1div"}
ORDERED = {"Bernardi-Raugel": "BernardiRaugel", "Guzman-Neilan 1st kind H1": "GuzmanNeilanFirstKindH1", "Guzman-Neilan 2nd kind H1": "GuzmanNeilanSecondKindH1"}
# degrees for which the family exists in FInAT / FIAT, where narrower than in UFL
RANGE = {"Brezzi-Douglas-Fortin-Marini": (2, 2), "Argyris": (5, 7), "Hsieh-Clough-Tocher": (3, 5), "Hu-Zhang": (3, 5), "Conforming Arnold-Winther": (3, 3),
         "Kong-Mulder-Veldhuizen": (1, 3), "Bernardi-Raugel": (1, 1), "Guzman-Neilan 1st kind H1": (1, 1), "Guzman-Neilan 2nd kind H1": (1, 1),
         "Guzman-Neilan H1(div)": (2, 2)}
SUPPORTED = sorted(set(PLAIN) | set(FIXED) | set(ORDERED) | {"Lagrange", "Discontinuous Lagrange", "Discontinuous Lagrange L2", "Q", "DQ", "DQ L2", "RTCE", "RTCF",
                                                           "NCE", "NCF", "Discontinuous Raviart-Thomas", "HDiv Trace"})


def convert(spec):
    """The FInAT element a UFL element stands for."""
    import finat
    op = spec[0]
    if op == "fe":
        _, name, cell, deg, qs, var = spec
        fam = um.canonical_family(name, cell)
        if isinstance(cell, list):
            x = um.expand_spec(spec)
            if x is None:
                raise Skip("product family")
            return convert(x)
        K = geom.cell_from(cell)
        if cell in ("quadrilateral", "hexahedron") and fam in ("Q", "DQ", "DQ L2", "RTCE", "RTCF", "NCE", "NCF"):
            if cell == "hexahedron":
                prod = ["quadrilateral", "interval"]
            else:
                prod = ["interval", "interval"]
            return finat.FlattenedDimensions(convert(["fe", fam, prod, deg, qs, var]))
        lo, hi = RANGE.get(fam, (None, None))
        if lo is not None and not lo <= deg <= hi:
            raise Skip("degree")
        if cell == "tetrahedron" and deg > 4:
            raise Skip("cost")
        if fam in ("Q", "DQ", "DQ L2", "Lagrange", "Discontinuous Lagrange", "Discontinuous Lagrange L2"):
            return lagrange(K, deg, var, fam not in ("Q", "Lagrange"))
        if fam in ("DPC", "S") and cell == "interval":
            raise Skip("interval serendipity")
        if fam == "Brezzi-Douglas-Fortin-Marini" and cell != "triangle" or fam in ("Real", "HDiv Trace") and cell not in um.SIMPLICES[fam == "HDiv Trace":]:
            raise Skip("not in FIAT")
        if fam == "Discontinuous Raviart-Thomas":
            return finat.DiscontinuousElement(finat.RaviartThomas(K, deg))
        if fam in FIXED:
            return getattr(finat, FIXED[fam])(K)
        if fam in ORDERED:
            return getattr(finat, ORDERED[fam])(K, deg)
        if fam == "HDiv Trace":
            return finat.HDivTrace(K, deg)
        if fam in PLAIN:
            if fam == "Bubble" and deg < um.TDIM[cell] + 1 or fam == "FacetBubble" and (deg < um.TDIM[cell] or cell == "interval"):
                raise Skip("degree")
            if cell in ("interval",) and fam in ("Crouzeix-Raviart", "Regge", "Hellan-Herrmann-Johnson"):
                raise Skip("interval")
            return getattr(finat, PLAIN[fam])(K, deg)
        raise Skip("family")
    if op == "vec":
        return finat.TensorFiniteElement(convert(spec[1]), (spec[2],))
    if op == "ten":
        sym = um.symmetry_of(spec)
        sh = (int(np.prod(spec[2])) - len(sym),) if sym else tuple(spec[2])
        return finat.TensorFiniteElement(convert(spec[1]), sh)
    if op == "tpe":
        if spec[2] is not None and spec[2] != [um.cell_of(s) for s in spec[1]]:
            return finat.FlattenedDimensions(finat.TensorProductElement([convert(s) for s in spec[1]]))
        return finat.TensorProductElement([convert(s) for s in spec[1]])
    cls = {"mixed": finat.MixedElement, "enr": finat.EnrichedElement, "nodal": finat.NodalEnrichedElement}
    if op in cls:
        return cls[op]([convert(s) for s in spec[1]])
    if op == "hdiv":
        return finat.HDivElement(convert(spec[1]))
    if op == "hcurl":
        return finat.HCurlElement(convert(spec[1]))
    if op == "broken":
        return finat.DiscontinuousElement(convert(spec[1]))
    if op == "restr":
        from finat.restricted import RestrictedElement
        return RestrictedElement(convert(spec[1]), spec[2])
    raise Skip(op)


def is_zany(spec):
    if spec[0] == "fe":
        fam = um.canonical_family(spec[1], spec[2])
        return fam in FIXED or fam in ORDERED or fam in ("Hu-Zhang", "Argyris", "Hsieh-Clough-Tocher")
    return any(is_zany(s) for s in (spec[1] if spec[0] in ("mixed", "enr", "nodal", "tpe") else [spec[1]]))


class Pair:
    """Two cells sharing a facet: one simple factor of the cell is glued to a
    neighbour along a facet, the others are common."""

    def __init__(self, rng, cell):
        self.cell = cell
        self.K = geom.cell_from(cell)
        self.factors = flat_factors(cell)
        self.f = int(rng.integers(len(self.factors)))
        dims = [um.TDIM[x] for x in self.factors]
        self.off = np.concatenate([[0], np.cumsum(dims)])
        d = dims[self.f]
        lab = [int(x) for x in rng.permutation(d + 2)]
        shared, apex = sorted(lab[:d]), lab[d:]
        while True:
            X = {s: rng.uniform(-1, 1, d) for s in shared}
            if d == 1:
                s = rng.choice([-1, 1])
                X[apex[0]] = X[shared[0]] + s * rng.uniform(.4, 1.5)
                X[apex[1]] = X[shared[0]] - s * rng.uniform(.4, 1.5)
            else:
                X[apex[0]], X[apex[1]] = rng.uniform(-1, 1, d), rng.uniform(-1, 1, d)
            cells = [sorted(shared + [a]) for a in apex]
            V = [np.array([X[i] for i in c]) for c in cells]
            if d > 1 and min(map(zany.quality, V)) < .08:
                continue
            side = []
            for a in apex:
                M = np.array([X[s] - X[shared[0]] for s in shared[1:]] + [X[a] - X[shared[0]]])
                side.append(np.linalg.det(M))
            if side[0] * side[1] < 0:
                break
        self.labels, self.verts, self.shared = cells, V, shared
        # common affine maps of the other factors
        self.common = []
        for x in self.factors:
            R = np.array(geom.cell_from(x).get_vertices(), float)
            A = np.diag(rng.uniform(.5, 1.5, R.shape[1])) + .2 * rng.uniform(-1, 1, (R.shape[1],) * 2)
            self.common.append((A, rng.uniform(-1, 1, R.shape[1])))
        n = 5
        lam = rng.dirichlet(np.ones(d), n) if d > 1 else np.ones((n, 1))
        rest = [geom.random_points(rng, geom.cell_from(x), n) for x in self.factors]
        self.points, self.J = [], []
        R = np.array(geom.cell_from(self.factors[self.f]).get_vertices(), float)
        for c, v in zip(cells, V):
            loc = [c.index(s) for s in shared]
            mine = lam @ R[loc]
            self.points.append(np.concatenate([mine if i == self.f else r for i, r in enumerate(rest)], axis=1))
            J = np.zeros((self.off[-1],) * 2)
            for i, (A, b) in enumerate(self.common):
                sl = slice(self.off[i], self.off[i + 1])
                J[sl, sl] = (v[1:] - v[0]).T @ np.linalg.inv((R[1:] - R[0]).T) if i == self.f else A
            self.J.append(J)
        # unit normal of the facet
        S = np.array([X[s] for s in shared])
        nf = np.ones(1) if d == 1 else np.linalg.svd(S[1:] - S[0])[2][-1]
        self.normal = np.zeros(self.off[-1])
        self.normal[self.off[self.f]:self.off[self.f + 1]] = nf
        self.h = rng.uniform(.5, 2, d + 2)

    def mapping(self, i):
        """Geometry interface for physically mapped elements (simplices)."""
        if len(self.factors) > 1:
            return None
        g = zany.Geometry(self.K, self.verts[i], h=self.h[self.labels[i]])
        return g.mapping()

    def entity_label(self, i, dim, ent):
        X = geom.entity_vertices(self.K, dim, ent)
        out = set()
        for x in X:
            lab = []
            for k, fac in enumerate(self.factors):
                R = np.array(geom.cell_from(fac).get_vertices(), float)
                y = x[self.off[k]:self.off[k + 1]]
                v = int(np.argmin(np.abs(R - y).sum(1)))
                lab.append(self.labels[i][v] if k == self.f else v)
            out.add(tuple(lab))
        return frozenset(out)

    def coefficients(self, rng, elem):
        """Random values; equal on both cells for dofs of common entities."""
        glob, out, nshared = {}, [], 0
        ed = elem.entity_dofs()
        for i in (0, 1):
            c = np.full(elem.space_dimension(), np.nan)
            for dim, es in ed.items():
                for e, dofs in es.items():
                    lab = self.entity_label(i, dim, e)
                    common = all(v[self.f] in self.shared for v in lab)
                    for k, dof in enumerate(dofs):
                        key = (str(dim), lab, k) if common else (i, str(dim), lab, k)
                        if i and key in glob:
                            nshared += 1
                        c[dof] = glob.setdefault(key, float(rng.uniform(-1, 1)))
            out.append(c)
        return out, nshared


def tables(elem, pts, order, mapping):
    from finat.point_set import PointSet
    ps = PointSet(pts)
    res = elem.basis_evaluation(order, ps, coordinate_mapping=mapping)
    n = elem.space_dimension()
    vs = tuple(elem.value_shape)
    out = {}
    for a, t in res.items():
        t = gemeval.flatpts(t, ps)
        out[a] = np.broadcast_to(t, (len(pts),) + t.shape[1:]).reshape((len(pts), n) + vs)
    return out


def push(mapping, J, vals):
    """Reference to physical values on the trailing axes."""
    Ki = np.linalg.inv(J)
    det = np.linalg.det(J)
    cov, con = Ki.T, J / det
    if mapping in ("identity", "custom", "physical"):
        return vals
    if mapping == "L2 Piola":
        return vals / det
    if mapping == "covariant Piola":
        return np.einsum("ij,...j->...i", cov, vals)
    if mapping == "contravariant Piola":
        return np.einsum("ij,...j->...i", con, vals)
    A, B = {"double covariant Piola": (cov, cov), "double contravariant Piola": (con, con), "covariant contravariant Piola": (cov, con)}[mapping]
    return np.einsum("ij,...jk,lk->...il", A, vals, B)


def trace(space, n, u):
    """What must be continuous across a facet with unit normal n."""
    P = np.eye(len(n)) - np.outer(n, n)
    if space in ("H1", "H2"):
        return u
    if space == "HDiv":
        return u @ n
    if space == "HCurl":
        return u @ P
    if space == "HEin":
        return P @ u @ P
    if space == "HDivDiv":
        return np.einsum("i,...ij,j->...", n, u, n)
    if space == "HCurlDiv":
        return np.einsum("ik,...kj,j->...i", P, u, n)
    return None
