import json
import warnings

from rv import core, uflmodel as um

PROPERTY = "C28"
ROUNDS = 4
RULE = ("every (family name, short name or alias; cell; degree) triple of an independent table of the families is constructed and must be accepted with the "
        "tabulated canonical family, value shape, Sobolev space, mapping, or refused; FEEC notation must resolve to the spaces of the periodic table; "
        "families on product cells, operators and convenience constructors must equal the elements written out. Distinct by request.")
MIN = {"accepted": 1500, "refused": 1500, "feec": 150, "expanded": 80, "sugar": 150}
ASSUMPTIONS = ["the monitor's table of families follows the UFL/FInAT documentation"]
CELLS = [None, "vertex", "interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "prism", "pyramid"]
DEGREES = [None, -1, 0, 1, 2, 3, 4, 5, 6, 9]
REFUSE = (ValueError, TypeError, KeyError, AttributeError, IndexError)
FEEC = {"P-": {(1, 0): ("Lagrange", 0), (1, 1): ("Discontinuous Lagrange", -1), (2, 0): ("Lagrange", 0), (2, 1): ("Nedelec 1st kind H(curl)", 0),
               (2, 2): ("Discontinuous Lagrange", -1), (3, 0): ("Lagrange", 0), (3, 1): ("Nedelec 1st kind H(curl)", 0), (3, 2): ("Raviart-Thomas", 0),
               (3, 3): ("Discontinuous Lagrange", -1)},
        "P": {(1, 0): ("Lagrange", 0), (1, 1): ("Discontinuous Lagrange", 0), (2, 0): ("Lagrange", 0), (2, 1): ("Nedelec 2nd kind H(curl)", 0),
              (2, 2): ("Discontinuous Lagrange", 0), (3, 0): ("Lagrange", 0), (3, 1): ("Nedelec 2nd kind H(curl)", 0), (3, 2): ("Brezzi-Douglas-Marini", 0),
              (3, 3): ("Discontinuous Lagrange", 0)},
        "Q-": {(1, 0): ("Q", 0), (1, 1): ("DQ", -1), (2, 0): ("Q", 0), (2, 1): ("RTCE", 0), (2, 2): ("DQ", -1),
               (3, 0): ("Q", 0), (3, 1): ("NCE", 0), (3, 2): ("NCF", 0), (3, 3): ("DQ", -1)},
        "S": {(1, 0): ("S", 0), (1, 1): ("DPC", 0), (2, 0): ("S", 0), (2, 1): ("BDMCE", 0), (2, 2): ("DPC", 0),
              (3, 0): ("S", 0), (3, 1): ("AAE", 0), (3, 2): ("AAF", 0), (3, 3): ("DPC", 0)}}
FCELLS = {"P-": ["interval", "triangle", "tetrahedron"], "P": ["interval", "triangle", "tetrahedron"], "Q-": ["interval", "quadrilateral", "hexahedron"],
          "S": ["interval", "quadrilateral", "hexahedron"]}


def cases(rng, tier):
    out = []
    for name in um.NAMES:
        for cell in CELLS:
            out.append({"kind": "table", "name": name, "cell": cell})
    for fam in FEEC:
        for cell in FCELLS[fam]:
            out.append({"kind": "feec", "family": fam, "cell": cell})
    for i in range(150 if tier == "quick" else 2000):
        out.append({"kind": "expand", "spec": um.rand_product_fe(rng)})
    for i in range(250 if tier == "quick" else 4000):
        out.append({"kind": "sugar", "seed": int(rng.integers(1 << 30))})
    out.append({"kind": "junk"})
    return out


def verdict(name, cell, deg):
    """None if the request must be refused, else the table row and family."""
    if cell is None and name in um.ALIAS:
        return None
    fam = um.ALIAS.get(name, name)
    fam = um.SHORT.get(fam, fam)
    row = um.FAM[fam]
    fam = um.canonical_family(name, cell)
    if cell is None:
        if row[2] > 0:
            return None
    elif cell not in row[7]:
        return None
    if deg is not None and (deg < row[5] or (row[6] is not None and deg > row[6])):
        return None
    return row, fam


def sob(e):
    return str(e.sobolev_space)


def run(case, rec):
    warnings.simplefilter("ignore")
    from finat import ufl as fu
    if case["kind"] == "table":
        name, cell = case["name"], case["cell"]
        for deg in DEGREES:
            lab = "FiniteElement(%r, %s, %s)" % (name, cell, deg)
            want = verdict(name, cell, deg)
            if deg is None and want is not None and want[1] in ("DQ", "DQ L2") and "Q" not in name:
                want = "either"     # degree compared with 1 for a warning
            try:
                e = fu.FiniteElement(name, um.ucell(cell), deg)
            except REFUSE:
                e = None
            rec.key(name, cell, deg)
            if want == "either":
                continue
            if want is None:
                rec.check(e is None, "registry:accepted", "%s should be refused, got %r" % (lab, e))
                rec.seen("refused")
                continue
            if not rec.check(e is not None, "registry:refused", "%s is valid but was refused" % lab):
                continue
            row, fam = want
            td = None if cell is None else um.TDIM[cell]
            rec.check(e.family() == fam, "registry:family", "%s: family %r, expected %r" % (lab, e.family(), fam))
            rec.check(e.degree() == deg, "registry:degree", "%s: degree %r" % (lab, e.degree()))
            rec.check(sob(e) == row[3], "registry:sobolev", "%s: %s, expected %s" % (lab, sob(e), row[3]))
            rec.check(e.mapping() == row[4], "registry:mapping", "%s: %s, expected %s" % (lab, e.mapping(), row[4]))
            rec.check(e.reference_value_shape == ((td,) * row[2] if row[2] else ()), "registry:shape", "%s: %s" % (lab, e.reference_value_shape))
            rec.check((e.cell is None) if cell is None else e.cell == um.ucell(cell), "registry:cell", "%s: cell %s" % (lab, e.cell))
            rec.check(e.variant() is None and e.quadrature_scheme() is None, "registry:defaults", "%s: %s %s" % (lab, e.variant(), e.quadrature_scheme()))
            rec.seen("accepted")
            if cell is not None:
                k = fu.FiniteElement(name, cell, deg)
                rec.check(k == e, "registry:cell-name", "%s: differs when the cell is given by name" % lab)
                k = fu.FiniteElement(family=name, cell=cell, degree=deg, quad_scheme="KMV", variant="spectral")
                rec.check(k.quadrature_scheme() == "KMV" and k.variant() == "spectral" and k.family() == fam, "registry:keywords", "%s: %r" % (lab, k))
                if deg is not None:
                    rec.check(k.shortstr().endswith("(KMV,spectral)") and str(deg) in k.shortstr(), "registry:shortstr", "%s: %s" % (lab, k.shortstr()))
    elif case["kind"] == "feec":
        fam, cell = case["family"], case["cell"]
        n = um.TDIM[cell]
        for k in range(n + 1):
            for r in range(0, 5):
                for l2 in ("", " L2"):
                    for lam in ("", " Lambda"):
                        name = fam + lam + l2
                        base, off = FEEC[fam][(n, k)]
                        d = r + off
                        if k == n and l2:
                            base = base + " L2"
                        lab = "FiniteElement(%r, %s, %d, form_degree=%d)" % (name, cell, r, k)
                        if base == "DPC L2" and r == 0:
                            continue        # documented nowhere
                        try:
                            e = fu.FiniteElement(name, cell, r, form_degree=k)
                        except REFUSE:
                            e = None
                        if base == "DPC L2":
                            ok = True
                        else:
                            ok = d >= 0 and verdict(base, cell, d) is not None
                        if not ok:
                            rec.check(e is None, "feec:accepted", "%s should be refused, got %r" % (lab, e))
                            rec.seen("refused")
                            continue
                        if not rec.check(e is not None, "feec:refused", "%s refused" % lab):
                            continue
                        rec.check(e == fu.FiniteElement(base, cell, d), "feec:space", "%s gives %r, expected %s %d" % (lab, e, base, d))
                        rec.check(e.mapping() == (um.L2P if l2 and k == n else um.ID if k in (0, n) else um.COV if k == 1 else um.CON), "feec:mapping", "%s: %s" % (lab, e.mapping()))
                        rec.seen("feec")
                        rec.key(lab)
    elif case["kind"] == "expand":
        spec = case["spec"]
        e, x = um.build(spec), um.build(um.normal(spec))
        name = json.dumps(spec)
        rec.check(e == x and repr(e) == repr(x), "expand:space", "%s: %r, expected %r" % (name, e, x))
        rec.check(e.cell == um.ucell(spec[2]), "expand:cell", "%s: cell %s" % (name, e.cell))
        rec.seen("expanded")
        rec.key(name)
        for bad in (["triangle", "interval"], ["interval", "quadrilateral"], ["triangle", "triangle"]):
            for f in ("RTCF", "RTCE", "NCF", "NCE"):
                try:
                    b = fu.FiniteElement(f, um.ucell(bad), 2)
                except REFUSE:
                    rec.seen("refused")
                    continue
                rec.fail("expand:accepted", "%s on %s accepted: %r" % (f, bad, b))
    elif case["kind"] == "sugar":
        rng = core.rng_for(case["seed"], "sugar")
        cell = um.pick(rng, ["interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"])
        qs = um.pick(rng, um.QS)
        a, b, c = (um.rand_fe(rng, cell, 0, qs, names=True) for _ in range(3))
        A, B, C = map(um.build, (a, b, c))
        name = json.dumps([a, b, c])
        M, E = fu.MixedElement, fu.EnrichedElement
        rec.check(A * B == M(A, B) and (A * B) * C == M(M(A, B), C), "sugar:mul", "%s: %r" % (name, A * B))
        rec.check(A + B == E(A, B) and (A + B) + C == E(E(A, B), C), "sugar:add", "%s: %r" % (name, A + B))
        rec.check(M([A, B]) == M(A, B) == M((A, B)) and M(A, (B, C)) == M(A, M(B, C)) == M([A, [B, C]]), "sugar:nest", name)
        for d in ("interior", "facet", "face", "edge", "vertex", "reduced"):
            rec.check(A[d] == fu.RestrictedElement(A, d) and A[d].restriction_domain() == d and A[d].sub_element() == A, "sugar:restrict", "%s %s" % (name, d))
        for bad in ("cell", 0, None, "Interior"):
            try:
                A[bad]
            except (KeyError, TypeError, ValueError):
                pass
            else:
                rec.fail("sugar:getitem", "%s[%r] accepted" % (name, bad))
            try:
                fu.RestrictedElement(A, bad)
            except (KeyError, TypeError, ValueError):
                pass
            else:
                rec.fail("sugar:restrict-accepted", "%s to %r accepted" % (name, bad))
        for bad in (1, "x", None):
            for f in (lambda: A + bad, lambda: A * bad):
                try:
                    f()
                except (TypeError, ValueError):
                    pass
                else:
                    rec.fail("sugar:operand", "%s with %r accepted" % (name, bad))
        _, fam, _, deg, _, var = a
        td = um.TDIM[cell]
        V = fu.VectorElement
        dim = int(rng.integers(1, 5))
        rec.check(V(fam, cell, deg, dim=dim, quad_scheme=qs, variant=var) == V(A, dim=dim), "sugar:vector", name)
        rec.check(V(fam, cell, deg, dim, None, qs, var) == V(A, dim=dim), "sugar:vector-positional", name)
        rec.check(V(A) == V(A, dim=td) and V(A).num_sub_elements == td, "sugar:vector-default", name)
        T = fu.TensorElement
        sh = (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
        rec.check(T(fam, cell, deg, shape=sh, quad_scheme=qs, variant=var) == T(A, shape=sh), "sugar:tensor", name)
        rec.check(T(A) == T(A, shape=(td, td)) and T(A).reference_value_shape == (td, td), "sugar:tensor-default", name)
        sq = (sh[0], sh[0])
        S = T(A, shape=sq, symmetry=True)
        rec.check(S == T(A, shape=sq, symmetry={(i, j): (j, i) for i in range(sh[0]) for j in range(i)}), "sugar:symmetry", name)
        rec.check(S.num_sub_elements == sh[0] * (sh[0] + 1) // 2, "sugar:symmetry-count", "%s %s" % (name, S.num_sub_elements))
        if sh[0] != sh[1]:
            try:
                T(A, shape=sh, symmetry=True)
            except ValueError:
                pass
            else:
                rec.fail("sugar:nonsquare-symmetry", name)
        for bad in ({(0, 5): (0, 0)}, {(0, 0): (0, -1)}, {(0, 0): (0,)}, [((0, 1), (1, 0))], "sym"):
            try:
                T(A, shape=(2, 2), symmetry=bad)
            except (ValueError, AttributeError, TypeError):
                rec.seen("refused")
            else:
                rec.fail("sugar:symmetry-accepted", "%s %s" % (name, bad))
        if cell in ("interval", "quadrilateral", "triangle"):
            D = fu.FiniteElement("DG", "interval", 1)
            P = fu.TensorProductElement(A, D)
            rec.check(fu.HDiv(P) == fu.HDivElement(P) and fu.HCurl(P) == fu.HCurlElement(P) and fu.HDiv(P) != fu.HCurl(P), "sugar:hdiv", name)
        rec.seen("sugar")
        rec.key("sugar", name)
    else:
        F, M, T, E = fu.FiniteElement, fu.MixedElement, fu.TensorProductElement, fu.EnrichedElement
        P1 = F("CG", "triangle", 1)
        bad = {"unknown family": lambda: F("Foo", "triangle", 1), "no family": lambda: F(None, "triangle", 1), "cell": lambda: F("CG", "heptagon", 1),
               "variant": lambda: F("CG", "triangle", 1, variant=3), "degree": lambda: F("CG", "triangle", 1.5), "string degree": lambda: F("CG", "triangle", "1"),
               "mixed cells": lambda: M(P1, F("CG", "quadrilateral", 1)), "mixed schemes": lambda: M(P1, F("CG", "triangle", 1, quad_scheme="KMV")),
               "mixed keyword": lambda: M(P1, dim=2), "empty product": lambda: T(), "product keyword": lambda: T(P1, dim=2),
               "vector product": lambda: T(F("RT", "triangle", 1), F("RT", "triangle", 1)),
               "enriched cells": lambda: E(P1, F("CG", "tetrahedron", 1)), "enriched shapes": lambda: E(P1, F("RT", "triangle", 1)),
               "enriched schemes": lambda: E(F("CG", "triangle", 1, quad_scheme="a"), F("B", "triangle", 3, quad_scheme="b")),
               "vector without cell": lambda: fu.VectorElement("CG", None, 1), "tensor without cell": lambda: fu.TensorElement("CG", None, 1),
               "symmetries mapping": lambda: fu.WithMapping(P1, "symmetries"), "restrict non-element": lambda: fu.RestrictedElement("CG", "facet"),
               "iterate": lambda: list(P1), "callable L2": lambda: __import__("ufl").sobolevspace.L2(P1)}
        for k, f in bad.items():
            try:
                r = f()
            except REFUSE:
                rec.seen("refused")
                rec.key("junk", k)
            else:
                rec.fail("junk:" + k, "%s accepted: %r" % (k, r))
        E(F("CG", "triangle", 1, quad_scheme="a"), F("B", "triangle", 3))
        for f in (getattr(P1, "_is_linear", None), getattr(F("R", "triangle", 0), "_is_globally_constant", None)):
            rec.check(f is None or f() is True, "junk:flags", "flag lost")
