"""UFL-level elements: independent table of families, specifications, builder,
canonical form."""
import json
import warnings

import numpy as np

SIMPLICES = ("interval", "triangle", "tetrahedron")
CUBES = ("interval", "quadrilateral", "hexahedron")
TDIM = {"vertex": 0, "interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3, "prism": 3, "pyramid": 3}
ANY = ("vertex", "interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "prism", "pyramid")
T23 = ("triangle", "tetrahedron")
TRI = ("triangle",)
Q23 = ("quadrilateral", "hexahedron")
ID, COV, CON, CC, KK, KC, L2P, CUS, PHY = ("identity", "covariant Piola", "contravariant Piola", "double covariant Piola", "double contravariant Piola",
                                           "covariant contravariant Piola", "L2 Piola", "custom", "physical")

# family, short name, value rank, Sobolev space, mapping, lowest degree, highest degree, cells
TABLE = [
    ("Lagrange", "CG", 0, "H1", ID, 1, None, ANY),
    ("Brezzi-Douglas-Marini", "BDM", 1, "HDiv", CON, 1, None, T23),
    ("Discontinuous Lagrange", "DG", 0, "L2", ID, 0, None, ANY),
    ("Discontinuous Taylor", "TDG", 0, "L2", ID, 0, None, SIMPLICES),
    ("Nedelec 1st kind H(curl)", "N1curl", 1, "HCurl", COV, 1, None, T23),
    ("Nedelec 2nd kind H(curl)", "N2curl", 1, "HCurl", COV, 1, None, T23),
    ("Raviart-Thomas", "RT", 1, "HDiv", CON, 1, None, T23),
    ("Brezzi-Douglas-Fortin-Marini", "BDFM", 1, "HDiv", CON, 1, None, T23),
    ("Crouzeix-Raviart", "CR", 0, "L2", ID, 1, 1, T23),
    ("Discontinuous Raviart-Thomas", "DRT", 1, "L2", CON, 1, None, T23),
    ("Kong-Mulder-Veldhuizen", "KMV", 0, "H1", ID, 1, None, T23),
    ("Regge", "Regge", 2, "HEin", CC, 0, None, SIMPLICES),
    ("Hellan-Herrmann-Johnson", "HHJ", 2, "HDivDiv", KK, 0, None, T23),
    ("Gopalakrishnan-Lederer-Schoberl 1st kind", "GLS", 2, "HCurlDiv", KC, 1, None, T23),
    ("Gopalakrishnan-Lederer-Schoberl 2nd kind", "GLS2", 2, "HCurlDiv", KC, 0, None, T23),
    ("Nonconforming Arnold-Winther", "AWnc", 2, "HDiv", KK, 2, 2, TRI),
    ("Conforming Arnold-Winther", "AWc", 2, "HDiv", KK, 3, None, TRI),
    ("Hu-Zhang", "HZ", 2, "HDiv", KK, 3, None, TRI),
    ("Bernardi-Raugel", "BR", 1, "H1", CON, 1, None, T23),
    ("Mardal-Tai-Winther", "MTW", 1, "H1", CON, 3, 3, TRI),
    ("Hermite", "HER", 0, "H1", CUS, 3, 3, SIMPLICES),
    ("Argyris", "ARG", 0, "H2", CUS, 5, None, TRI),
    ("Bell", "BELL", 0, "H2", CUS, 5, 5, TRI),
    ("Morley", "MOR", 0, "H2", CUS, 2, 2, TRI),
    ("QuadraticPowellSabin6", "PS6", 0, "H2", CUS, 2, 2, TRI),
    ("QuadraticPowellSabin12", "PS12", 0, "H2", CUS, 2, 2, TRI),
    ("Hsieh-Clough-Tocher", "HCT", 0, "H2", CUS, 3, None, TRI),
    ("Reduced-Hsieh-Clough-Tocher", "HCT-red", 0, "H2", CUS, 3, 3, TRI),
    ("Johnson-Mercier", "JM", 2, "HDiv", KK, 1, 1, T23),
    ("Arnold-Qin", "AQ", 1, "H1", ID, 2, 2, TRI),
    ("Reduced-Arnold-Qin", "AQ-red", 1, "H1", CON, 2, 2, TRI),
    ("Christiansen-Hu", "CH", 1, "H1", CON, 1, 1, T23),
    ("Alfeld-Sorokina", "AS", 1, "H1", CON, 2, 2, T23),
    ("Guzman-Neilan 1st kind H1", "GN", 1, "H1", CON, 1, None, T23),
    ("Guzman-Neilan 2nd kind H1", "GN2", 1, "H1", CON, 1, None, T23),
    ("Guzman-Neilan H1(div)", "GNH1div", 1, "H1", CON, 2, None, T23),
    ("Boundary Quadrature", "BQ", 0, "L2", ID, 0, None, ANY),
    ("Bubble", "B", 0, "H1", ID, 2, None, SIMPLICES),
    ("FacetBubble", "FB", 0, "H1", ID, 2, None, SIMPLICES),
    ("Quadrature", "Quadrature", 0, "L2", ID, 0, None, ANY),
    ("Real", "R", 0, "HInf", ID, 0, 0, ANY),
    ("Undefined", "U", 0, "L2", ID, 0, None, ANY),
    ("Radau", "Rad", 0, "L2", ID, 0, None, ("interval",)),
    ("HDiv Trace", "HDivT", 0, "L2", ID, 0, None, ANY),
    ("Gauss-Legendre", "GL", 0, "L2", ID, 0, None, ("interval",)),
    ("Gauss-Lobatto-Legendre", "GLL", 0, "H1", ID, 1, None, ("interval",)),
    ("Bernstein", None, 0, "H1", ID, 1, None, SIMPLICES),
    ("Q", None, 0, "H1", ID, 1, None, CUBES),
    ("DQ", None, 0, "L2", ID, 0, None, CUBES),
    ("RTCE", None, 1, "HCurl", COV, 1, None, ("quadrilateral",)),
    ("RTCF", None, 1, "HDiv", CON, 1, None, ("quadrilateral",)),
    ("NCE", None, 1, "HCurl", COV, 1, None, ("hexahedron",)),
    ("NCF", None, 1, "HDiv", CON, 1, None, ("hexahedron",)),
    ("S", None, 0, "H1", ID, 1, None, CUBES),
    ("DPC", None, 0, "L2", ID, 0, None, CUBES),
    ("BDMCE", None, 1, "HCurl", COV, 1, None, ("quadrilateral",)),
    ("BDMCF", None, 1, "HDiv", CON, 1, None, ("quadrilateral",)),
    ("SminusE", "SminusE", 1, "HCurl", COV, 1, None, Q23),
    ("SminusF", "SminusF", 1, "HDiv", CON, 1, None, ("quadrilateral",)),
    ("SminusDiv", "SminusDiv", 1, "HDiv", CON, 1, None, Q23),
    ("SminusCurl", "SminusCurl", 1, "HCurl", COV, 1, None, Q23),
    ("AAE", None, 1, "HCurl", COV, 1, None, ("hexahedron",)),
    ("AAF", None, 1, "HDiv", CON, 1, None, ("hexahedron",)),
    ("DQ L2", None, 0, "L2", L2P, 0, None, CUBES),
    ("Gauss-Legendre L2", "GL L2", 0, "L2", L2P, 0, None, ("interval",)),
    ("Discontinuous Lagrange L2", "DG L2", 0, "L2", L2P, 0, None, ANY),
    ("Extended-Gauss-Legendre", "EGL", 0, "H1", ID, 2, None, ("interval",)),
    ("Extended-Gauss-Legendre Edge", "EGL-Edge", 0, "L2", ID, 1, None, ("interval",)),
    ("Extended-Gauss-Legendre Edge L2", "EGL-Edge L2", 0, "L2", L2P, 1, None, ("interval",)),
    ("Gauss-Lobatto-Legendre Edge", "GLL-Edge", 0, "L2", ID, 0, None, ("interval",)),
    ("Gauss-Lobatto-Legendre Edge L2", "GLL-Edge L2", 0, "L2", L2P, 0, None, ("interval",)),
    ("Direct Serendipity", "Sdirect", 0, "H1", PHY, 1, None, ("quadrilateral",)),
    ("Direct Serendipity Full H(div)", "Sdirect H(div)", 1, "HDiv", PHY, 1, None, ("quadrilateral",)),
    ("Direct Serendipity Reduced H(div)", "Sdirect H(div) red", 1, "HDiv", PHY, 1, None, ("quadrilateral",)),
]
FAM = {t[0]: t for t in TABLE}
SHORT = {t[1]: t[0] for t in TABLE if t[1]}
ALIAS = {"Lobatto": "Gauss-Lobatto-Legendre", "Lob": "Gauss-Lobatto-Legendre", "Nedelec 1st kind H(div)": "Raviart-Thomas", "N1div": "Raviart-Thomas",
         "Nedelec 2nd kind H(div)": "Brezzi-Douglas-Marini", "N2div": "Brezzi-Douglas-Marini", "Discontinuous Lagrange Trace": "HDiv Trace", "DGT": "HDiv Trace",
         "P": "Lagrange", "DP": "Discontinuous Lagrange", "RTE": "Nedelec 1st kind H(curl)", "RTF": "Raviart-Thomas", "N1E": "Nedelec 1st kind H(curl)",
         "N1F": "Raviart-Thomas", "BDME": "Nedelec 2nd kind H(curl)", "BDMF": "Brezzi-Douglas-Marini", "N2E": "Nedelec 2nd kind H(curl)", "N2F": "Brezzi-Douglas-Marini",
         "DP L2": "Discontinuous Lagrange L2"}
NAMES = sorted(set(FAM) | set(SHORT) | set(ALIAS))
QS = [None, None, None, "KMV", "default"]
VARIANTS = [None, None, "spectral", "equispaced", "fdm", "mse", "integral"]


def canonical_family(name, cell):
    fam = ALIAS.get(name, name)
    fam = SHORT.get(fam, fam)
    if isinstance(cell, list) or cell in ("quadrilateral", "hexahedron"):
        fam = {"Lagrange": "Q", "Discontinuous Lagrange": "DQ", "Discontinuous Lagrange L2": "DQ L2"}.get(fam, fam)
    return fam


def ucell(cell):
    from ufl.cell import TensorProductCell, as_cell
    if isinstance(cell, list):
        return TensorProductCell(*[ucell(c) for c in cell])
    return None if cell is None else as_cell(cell)


def tdim(cell):
    return sum(map(tdim, cell)) if isinstance(cell, list) else TDIM[cell]


def build(spec):
    from finat import ufl as fu
    op = spec[0]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if op == "fe":
            _, fam, cell, deg, qs, var = spec
            return fu.FiniteElement(fam, ucell(cell), deg, quad_scheme=qs, variant=var)
        if op == "mixed":
            return fu.MixedElement(*[build(s) for s in spec[1]])
        if op == "vec":
            return fu.VectorElement(build(spec[1]), dim=spec[2])
        if op == "ten":
            sym = spec[3]
            if isinstance(sym, list):
                sym = {tuple(a): tuple(b) for a, b in sym}
            return fu.TensorElement(build(spec[1]), shape=tuple(spec[2]), symmetry=sym)
        if op == "enr":
            return fu.EnrichedElement(*[build(s) for s in spec[1]])
        if op == "nodal":
            return fu.NodalEnrichedElement(*[build(s) for s in spec[1]])
        if op == "tpe":
            kw = {} if spec[2] is None else {"cell": ucell(spec[2])}
            return fu.TensorProductElement(*[build(s) for s in spec[1]], **kw)
        if op == "hdiv":
            return fu.HDivElement(build(spec[1]))
        if op == "hcurl":
            return fu.HCurlElement(build(spec[1]))
        if op == "broken":
            return fu.BrokenElement(build(spec[1]))
        if op == "restr":
            return fu.RestrictedElement(build(spec[1]), spec[2])
        if op == "map":
            return fu.WithMapping(build(spec[1]), spec[2])
    raise ValueError(op)


def build_alt(rng, spec):
    """The same element through the other public spellings: string families in
    VectorElement/TensorElement, keyword arguments, cells by name, lists,
    operators, default sizes, mass lumping by call."""
    from finat import ufl as fu
    op = spec[0]
    coin = lambda: rng.random() < .5  # noqa: E731

    def cell_arg(c):
        return c if isinstance(c, str) and coin() else ucell(c)

    def simple_kw(s):
        kw = {"degree": s[3], "quad_scheme": s[4], "variant": s[5]}
        return {k: v for k, v in kw.items() if v is not None or coin()}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if op == "fe":
            kw = simple_kw(spec)
            if coin():
                return fu.FiniteElement(spec[1], cell_arg(spec[2]), **kw)
            return fu.FiniteElement(family=spec[1], cell=cell_arg(spec[2]), **kw)
        if op == "mixed":
            subs = [build_alt(rng, s) for s in spec[1]]
            if len(subs) == 2 and coin():
                return subs[0] * subs[1]
            return fu.MixedElement([s for s in subs]) if coin() else fu.MixedElement(tuple(subs)) if coin() else fu.MixedElement(*subs)
        if op == "vec":
            dim = {"dim": spec[2]}
            if coin() and spec[2] == tdim(cell_of(spec[1])):
                dim = {}
            if spec[1][0] == "fe" and isinstance(spec[1][2], str):
                return fu.VectorElement(spec[1][1], cell_arg(spec[1][2]), **simple_kw(spec[1]), **dim)
            return fu.VectorElement(build_alt(rng, spec[1]), **dim)
        if op == "ten":
            sym = spec[3]
            if isinstance(sym, list):
                sym = {tuple(a): tuple(b) for a, b in sym}
            kw = {"shape": tuple(spec[2])}
            d = tdim(cell_of(spec[1]))
            if coin() and list(spec[2]) == [d, d]:
                kw = {}
            if sym or coin():
                kw["symmetry"] = sym
            if spec[1][0] == "fe" and isinstance(spec[1][2], str):
                return fu.TensorElement(spec[1][1], cell_arg(spec[1][2]), **simple_kw(spec[1]), **kw)
            return fu.TensorElement(build_alt(rng, spec[1]), **kw)
        if op in ("enr", "nodal"):
            subs = [build_alt(rng, s) for s in spec[1]]
            if op == "enr" and len(subs) == 2 and coin():
                return subs[0] + subs[1]
            return (fu.EnrichedElement if op == "enr" else fu.NodalEnrichedElement)(*subs)
        if op == "tpe":
            subs = [build_alt(rng, s) for s in spec[1]]
            if spec[2] is None:
                kw = {"cell": ucell([cell_of(s) for s in spec[1]])} if coin() else {}
            else:
                kw = {"cell": cell_arg(spec[2])}
            return fu.TensorProductElement(*subs, **kw)
        if op in ("hdiv", "hcurl"):
            e = build_alt(rng, spec[1])
            if coin():
                return (fu.HDiv if op == "hdiv" else fu.HCurl)(e)
            return (fu.HDivElement if op == "hdiv" else fu.HCurlElement)(e)
        if op == "broken":
            return fu.BrokenElement(build_alt(rng, spec[1]))
        if op == "restr":
            e = build_alt(rng, spec[1])
            return e[spec[2]] if coin() and spec[2] in ("facet", "interior") else fu.RestrictedElement(e, spec[2])
        if op == "map":
            e = build_alt(rng, spec[1])
            return fu.WithMapping(e, spec[2]) if coin() else fu.WithMapping(e, mapping=spec[2])
    raise ValueError(op)


def symmetry_of(spec):
    shape, sym = spec[2], spec[3]
    if sym is True:
        return {(i, j): (j, i) for i in range(shape[0]) for j in range(i)}
    if not sym:
        return {}
    return {tuple(a): tuple(b) for a, b in sym}


def canon(spec):
    """Nested tuples that determine the element's identity."""
    op = spec[0]
    if op == "fe":
        _, fam, cell, deg, qs, var = spec
        if isinstance(cell, list):
            return expand(spec)
        return ("fe", canonical_family(fam, cell), cell, deg, qs, var)
    if op in ("mixed", "enr", "nodal"):
        return (op,) + tuple(canon(s) for s in spec[1])
    if op == "tpe":
        return ("tpe",) + tuple(canon(s) for s in spec[1]) + (json.dumps(spec[2] if spec[2] is not None else [cell_of(s) for s in spec[1]]),)
    if op == "vec":
        return ("vec", canon(spec[1]), spec[2])
    if op == "ten":
        return ("ten", canon(spec[1]), tuple(spec[2]), tuple(sorted(symmetry_of(spec).items())))
    return (op, canon(spec[1])) + tuple(spec[2:])


def cell_of(spec):
    op = spec[0]
    if op == "fe":
        return spec[2]
    if op == "tpe":
        return spec[2] if spec[2] is not None else [cell_of(s) for s in spec[1]]
    if op in ("mixed", "enr", "nodal"):
        return cell_of(spec[1][0])
    return cell_of(spec[1])


def expand_spec(spec):
    """What a simple family on a product cell stands for; None if nothing."""
    _, name, cell, deg, qs, var = spec
    fam = canonical_family(name, cell)

    def fe(f, c, d):
        return ["fe", f, c, d, None, var]
    if fam == "Q":
        return ["tpe", [fe("CG", c, deg) for c in cell], cell]
    if fam in ("DQ", "DQ L2"):
        sfx = fam[2:]
        return ["tpe", [fe(("DG" if c in SIMPLICES else "DQ") + sfx, c, deg) for c in cell], cell]
    if fam in ("RTCF", "RTCE") and cell == ["interval", "interval"]:
        op = "hdiv" if fam == "RTCF" else "hcurl"
        C, D = fe("CG", "interval", deg), fe("DG", "interval", deg - 1)
        return ["enr", [[op, ["tpe", [C, D], cell]], [op, ["tpe", [D, C], cell]]]]
    if fam == "NCF" and cell == ["quadrilateral", "interval"]:
        return ["enr", [["hdiv", ["tpe", [fe("RTCF", "quadrilateral", deg), fe("DG", "interval", deg - 1)], cell]],
                        ["hdiv", ["tpe", [fe("DQ", "quadrilateral", deg - 1), fe("CG", "interval", deg)], cell]]]]
    if fam == "NCE" and cell == ["quadrilateral", "interval"]:
        return ["enr", [["hcurl", ["tpe", [fe("Q", "quadrilateral", deg), fe("DG", "interval", deg - 1)], cell]],
                        ["hcurl", ["tpe", [fe("RTCE", "quadrilateral", deg), fe("CG", "interval", deg)], cell]]]]
    return None


def expand(spec):
    s = expand_spec(spec)
    if s is not None:
        return canon(s)
    _, name, cell, deg, qs, var = spec
    return ("fe", canonical_family(name, cell), json.dumps(cell), deg, qs, var)


def normal(spec):
    """The spec with simple families on product cells written out and canonical names."""
    op = spec[0]
    if op == "fe":
        if isinstance(spec[2], list):
            s = expand_spec(spec)
            if s is not None:
                return normal(s)
        return ["fe", canonical_family(spec[1], spec[2])] + list(spec[2:])
    if op in ("mixed", "enr", "nodal"):
        return [op, [normal(s) for s in spec[1]]]
    if op == "tpe":
        return [op, [normal(s) for s in spec[1]], cell_of(spec)]
    return [op, normal(spec[1])] + list(spec[2:])


# ---------------------------------------------------------------------------
def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def rand_fe(rng, cell, rank=None, qs=None, var="random", names=True):
    """A valid simple element on a (non-product) cell."""
    fits = [t for t in TABLE if cell in t[7]]
    fits = [t for t in fits if rank is None or t[2] == rank] or [t for t in fits if t[2] == 0]
    for t in (pick(rng, fits),):
        lo, hi = t[5], t[6]
        deg = int(rng.integers(lo, (hi if hi is not None else lo + 4) + 1))
        name = t[0]
        if names and rng.random() < .6:
            alts = [a for a, b in list(SHORT.items()) + list(ALIAS.items()) if b == t[0]]
            if alts:
                name = pick(rng, alts)
        v = pick(rng, VARIANTS) if var == "random" else var
        return ["fe", name, cell, deg, pick(rng, QS) if qs == "random" else qs, v]


def vrank(spec):
    """Reference value shape."""
    op = spec[0]
    if op == "fe":
        fam = canonical_family(spec[1], spec[2])
        if isinstance(spec[2], list):
            return () if FAM[fam][2] == 0 else (tdim(spec[2]),)
        return (TDIM[spec[2]],) * FAM[fam][2]
    if op == "mixed":
        return (sum(int(np.prod(vrank(s))) for s in spec[1]),)
    if op == "vec":
        return (spec[2],) + vrank(spec[1])
    if op == "ten":
        sym = symmetry_of(spec)
        if sym:
            return (int(np.prod(spec[2])) - len(sym),) + vrank(spec[1])
        return tuple(spec[2]) + vrank(spec[1])
    if op in ("enr", "nodal"):
        return vrank(spec[1][0])
    if op == "tpe":
        return tuple(x for s in spec[1] for x in vrank(s))
    if op in ("hdiv", "hcurl"):
        return (tdim(cell_of(spec)),)
    if op == "map":
        d = tdim(cell_of(spec))
        if spec[2] in (COV, CON):
            return (d,)
        if spec[2] in (CC, KK):
            return (d, d)
    return vrank(spec[1])


def rand_symmetry(rng, shape):
    u = rng.random()
    if u < .3:
        return None
    if u < .5 and len(shape) == 2 and shape[0] == shape[1]:
        return True
    idx = [tuple(int(i) for i in ix) for ix in np.ndindex(*shape)]
    perm = [idx[i] for i in rng.permutation(len(idx))]
    k = int(rng.integers(1, max(2, len(idx) // 2 + 1)))
    src, dst = perm[:k], perm[k:]
    if not dst:
        return None
    if len(shape) == 2 and shape[0] == shape[1] and rng.random() < .5:
        pairs = [(i, j) for i in range(shape[0]) for j in range(i)]
        out = []
        for i, j in pairs:
            a, b = ((i, j), (j, i)) if rng.random() < .5 else ((j, i), (i, j))
            out.append([list(a), list(b)])
        return [out[i] for i in rng.permutation(len(out))] or None
    return [[list(s), list(pick(rng, dst))] for s in src]


def rand_tpe(rng, depth=1, cell=None):
    """Scalar product element."""
    cell = cell or pick(rng, [["interval", "interval"], ["triangle", "interval"], ["quadrilateral", "interval"], ["interval", "interval", "interval"]])
    fs = [rand_fe(rng, c, 0) for c in cell]
    c = None
    if cell == ["interval", "interval"] and rng.random() < .3:
        c = "quadrilateral"
    if cell == ["triangle", "interval"] and depth and rng.random() < .2:
        fs = [fs[0], rand_fe(rng, "interval", 0)]
    return ["tpe", fs, c]


def rand(rng, depth=2, cell=None, rank=None, qs="same"):
    """A random valid UFL element specification."""
    if qs == "same":
        qs = pick(rng, QS)
    free = cell is None
    cell = cell or pick(rng, ["interval", "triangle", "triangle", "tetrahedron", "quadrilateral", "hexahedron"])
    u = rng.random()
    if depth <= 0 or u < .25:
        return rand_fe(rng, cell, rank, qs)
    if u < .35:
        if rank is None or rank == 1:
            return ["vec", rand(rng, depth - 1, cell, 0, qs), int(rng.integers(1, 5))]
    elif u < .47:
        if rank is None:
            shape = [int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 4)))]
            if rng.random() < .5:
                shape = [shape[0]] * 2
            return ["ten", rand(rng, depth - 1, cell, 0, qs), shape, rand_symmetry(rng, shape)]
    elif u < .6:
        if rank is None:
            return ["mixed", [rand(rng, depth - 1, cell, None, qs) for _ in range(int(rng.integers(1, 4)))]]
    elif u < .72:
        a = rand(rng, depth - 1, cell, rank if rank is not None else int(rng.integers(0, 2)), qs)
        out = [a]
        for _ in range(5):
            b = rand_fe(rng, cell, len(vrank(a)) if len(vrank(a)) < 3 else None, qs)
            if vrank(b) == vrank(a) and len(out) < 3:
                out.append(b)
        return ["enr" if rng.random() < .6 else "nodal", out]
    elif u < .8:
        return ["restr", rand(rng, depth - 1, cell, rank, qs), pick(rng, ["interior", "facet", "face", "edge", "vertex", "reduced"])]
    elif u < .88:
        return ["broken", rand(rng, depth - 1, cell, rank, qs)]
    elif u < .94:
        if rank is None:
            s = rand_fe(rng, cell, int(rng.integers(0, 2)), qs)
            return ["map", s, pick(rng, [ID, COV, CON, L2P])]
    elif rank is None and free:
        v = rng.random()
        if v < .4:
            return rand_tpe(rng)
        t = rand_tpe(rng, cell=pick(rng, [["triangle", "interval"], ["interval", "interval"], ["quadrilateral", "interval"]]))
        return ["hdiv" if v < .7 else "hcurl", t]
    return rand_fe(rng, cell, rank, qs)


def rand_product_fe(rng):
    cell = pick(rng, [["interval", "interval"], ["triangle", "interval"], ["quadrilateral", "interval"]])
    fams = ["CG", "DG", "Q", "DQ", "DQ L2", "DG L2", "P", "DP"]
    if cell == ["interval", "interval"]:
        fams += ["RTCF", "RTCE"] * 2
    if cell == ["quadrilateral", "interval"]:
        fams += ["NCF", "NCE"] * 2
    if cell[0] == "triangle":
        fams = ["CG", "DG", "P", "DP", "DG L2"]
    f = pick(rng, fams)
    lo = 1 if f in ("CG", "Q", "P", "RTCF", "RTCE", "NCF", "NCE") else 0
    return ["fe", f, cell, int(rng.integers(lo, 5)), None, pick(rng, VARIANTS)]


def rand_wrapped_product(rng):
    cell = pick(rng, [["interval", "interval"], ["triangle", "interval"], ["quadrilateral", "interval"], ["interval", "interval", "interval"]])

    def one():
        t = ["tpe", [rand_fe(rng, c, 0) for c in cell], None]
        return t
    u = rng.random()
    if u < .15:
        return ["vec", one(), int(rng.integers(1, 4))]
    if u < .3:
        sh = [2, 2]
        return ["ten", one(), sh, rand_symmetry(rng, sh)]
    if u < .45:
        return ["broken", one()]
    if u < .6:
        return ["restr", one(), pick(rng, ["interior", "facet", "vertex"])]
    if u < .75:
        return ["mixed", [one() for _ in range(int(rng.integers(1, 4)))]]
    if u < .85 and len(cell) == 2:
        op = pick(rng, ["hdiv", "hcurl"])
        return ["enr", [[op, one()], [op, one()]]]
    return ["enr", [one(), one()]]


def rand_top(rng, depth=2):
    u = rng.random()
    if u < .04:
        # no degree: the family's only one, or unknown
        e = rand_fe(rng, pick(rng, SIMPLICES), None, "random")
        e[3] = None
        return e
    if u < .1:
        return rand_product_fe(rng)
    if u < .25:
        return rand_wrapped_product(rng)
    return rand(rng, depth)
