import itertools
import math

import numpy as np

from rv import core, gemeval, geom

PROPERTY = "C13"
ROUNDS = 4
RULE = ("a case is a cell (reference, randomly deformed, split or product), a degree (or one per factor) and a scheme; every monomial up to that degree is "
        "integrated with the rule and compared with the closed form, points and weights are monitored, and invalid requests must be "
        "refused. Distinct by (cell, degree, scheme).")
MIN = {"integrals": 5000, "rules": 150, "refusals": 10, "orientation_maps": 20, "axis_maps": 20}
ASSUMPTIONS = ["closed-form simplex integrals computed with exact Gauss-Jacobi-free formulas"]

DMAX = {"interval": 40, "triangle": 30, "tetrahedron": 16, "quadrilateral": 16, "hexahedron": 9, "vertex": 3}


def cases(rng, tier):
    out = []
    big = tier != "quick"
    for c, m in DMAX.items():
        for d in range(0, (m if not big else int(m * 1.7)) + 1):
            for s in ("default", "canonical"):
                out.append({"cell": c, "degree": d, "scheme": s})
    # degrees beyond anything a table holds: decided on orthogonal polynomials
    for d in list(range(41, 100, 3)) + [int(x) for x in rng.integers(41, 160 if not big else 300, 10 if not big else 80)]:
        out.append({"cell": "interval", "degree": d, "scheme": ["default", "canonical"][int(rng.integers(2))]})
    for d in rng.integers(17, 60, 6 if not big else 40):
        out.append({"cell": "quadrilateral", "degree": [int(d), int(rng.integers(0, 30))], "scheme": "default"})
        out.append({"cell": ["interval", "triangle"], "degree": [int(d), int(rng.integers(0, 6))], "scheme": "default"})
    for d in range(1, 6):
        out.append({"cell": "triangle", "degree": d, "scheme": "KMV"})
        out.append({"cell": "interval", "degree": d, "scheme": "KMV"})
        if d < 4:
            out.append({"cell": "tetrahedron", "degree": d, "scheme": "KMV"})
    for c in (["interval", "interval"], ["triangle", "interval"], ["interval", "triangle"], ["quadrilateral", "interval"], ["vertex", "interval"],
              ["interval", "vertex"], ["interval", "interval", "interval"], [["interval", "interval"], "interval"], ["triangle", "vertex"]):
        n = len(c)
        for _ in range(40 if not big else 400):
            deg = [int(x) for x in rng.integers(0, 6, n)]
            out.append({"cell": c, "degree": deg, "scheme": ["default", "canonical"][int(rng.integers(2))]})
            out.append({"cell": c, "degree": int(rng.integers(0, 6)), "scheme": "default"})
    for _ in range(20 if not big else 49):
        out.append({"cell": "quadrilateral", "degree": [int(x) for x in rng.integers(0, 7, 2)], "scheme": "default"})
    for _ in range(400 if not big else 6000):
        c = ["interval", "triangle", "tetrahedron"][int(rng.integers(3))]
        out.append({"cell": c, "degree": int(rng.integers(0, 9)), "scheme": ["default", "canonical"][int(rng.integers(2))],
                    "deform": int(rng.integers(1 << 30))})
    for c in ("interval", "triangle", "tetrahedron"):
        for split in ("alfeld", "powell-sabin", "iso"):
            for d in range(0, 6 if not big else 9):
                out.append({"cell": c, "degree": d, "scheme": "default", "split": split})
    for k in ("negative", "scheme", "length", "empty-tuple", "rule-length", "no-cell", "no-maps"):
        for c in ("interval", "triangle", "tetrahedron", "quadrilateral", ["interval", "triangle"]):
            out.append({"refuse": k, "cell": c})
    return out


def simplex_integral(V, exps):
    """Exact integral of a monomial over a simplex via the map from the unit
    simplex and the Dirichlet formula."""
    d = len(V) - 1
    if d == 0:
        return 1.0
    A = (V[1:] - V[0]).T
    # expand prod_i (v0_i + sum_j A_ij t_j)^e_i as a polynomial in t
    poly = {(0,) * d: 1.0}
    for i in range(len(V[0])):
        for _ in range(exps[i]):
            new = {}
            for m, c in poly.items():
                new[m] = new.get(m, 0.0) + c * V[0][i]
                for j in range(d):
                    if A[i, j]:
                        mm = m[:j] + (m[j] + 1,) + m[j + 1:]
                        new[mm] = new.get(mm, 0.0) + c * A[i, j]
            poly = new
    tot = 0.0
    for m, c in poly.items():
        tot += c * math.prod(math.factorial(k) for k in m) / math.factorial(d + sum(m))
    return tot * abs(np.linalg.det(A))


def modal(V, g):
    """[(label, function of points, exact integral)]: orthogonal polynomials
    of degree up to g on a simplex (Legendre, and Legendre-Jacobi in collapsed
    coordinates); only the constant integrates to something but zero, and none
    is drowned by rounding at high degree, as monomials are."""
    m = V.shape[1]
    vol = simplex_integral(V, (0,) * m)
    if m == 0:
        return [("1", lambda x: np.ones(len(x)), 1.0)]
    B = np.linalg.inv((V[1:] - V[0]).T)

    def jac(n, a, x):
        p0, p1 = np.ones_like(x), (a + (a + 2) * x) / 2
        if n == 0:
            return p0
        for k in range(2, n + 1):
            c = 2 * k + a
            p0, p1 = p1, ((c - 1) * (c * (c - 2) * x + a * a) * p1 - 2 * (k + a - 1) * (k - 1) * c * p0) / (2 * k * (k + a) * (c - 2))
        return p1

    def fun(ns, x):
        lam = B @ (x - V[0]).T
        out, deg = np.ones(len(x)), 0
        # scaled so that every factor is a polynomial: s^n P_n(2 t / s - 1)
        for i, n in enumerate(ns):
            s = np.ones(len(x)) if i == m - 1 else 1 - lam[i + 1:].sum(0)
            ok = np.abs(s) > 1e-14
            r = np.where(ok, 2 * lam[i] / np.where(ok, s, 1) - 1, -1.0)
            out = out * jac(n, 2 * deg + i, r) * s ** n
            deg += n
        return out

    if m == 1:
        ns = [(n,) for n in range(g + 1)]
    else:
        ns = geom.all_multiindices(m, g)
        if len(ns) > 60:
            top = [e for e in ns if sum(e) >= g - 1]
            ns = [ns[0]] + top[::max(1, len(top) // 50)]
    return [("P%s" % (n,), lambda x, n=n: fun(n, x), vol if not any(n) else 0.0) for n in ns]


def pieces(cell):
    """[(simplex leaf vertices, width)] of a product of simplices; for cubes
    the axes."""
    k = geom.kind(cell)
    if k == "tensor":
        return [p for c in cell.cells for p in pieces(c)]
    V = np.array(cell.get_vertices(), dtype=float)
    if k == "cube":
        return [np.array([[0.], [1.]])] * cell.get_spatial_dimension()
    return [V.reshape(len(V), -1)]


def group_degrees(spec, degree, cell):
    """Degree per simplex factor."""
    k = geom.kind(cell)
    if k == "tensor":
        ds = degree if isinstance(degree, list) else [degree] * len(cell.cells)
        return [x for c, d, s in zip(cell.cells, ds, spec) for x in group_degrees(s, d, c)]
    if k == "cube":
        n = cell.get_spatial_dimension()
        return list(degree) if isinstance(degree, list) else [degree] * n
    return [degree]


def cell_of(c):
    import FIAT
    if c == "vertex":
        return FIAT.reference_element.Point()
    if isinstance(c, str):
        return geom.cell_from(c)
    return FIAT.reference_element.TensorProductCell(*[cell_of(x) for x in c])


def run(case, rec):
    import FIAT
    from FIAT import macro
    from finat.quadrature import make_quadrature
    spec = case["cell"]
    K = cell_of(spec)
    if "refuse" in case:
        return refuse(case, rec, K)
    degree, scheme = case["degree"], case["scheme"]
    name = "%s degree %s %s" % (spec, degree, scheme)
    if "deform" in case:
        from rv import zany
        rng = core.rng_for(case["deform"], "c13")
        K = zany.simplex(zany.random_simplex(rng, K.get_spatial_dimension()))
        name += " deformed"
    arg = K
    if "split" in case:
        split = {"alfeld": macro.AlfeldSplit, "powell-sabin": macro.PowellSabinSplit, "iso": macro.IsoSplit}[case["split"]]
        arg = split(K)
        name += " " + case["split"]
    try:
        rule = make_quadrature(arg, tuple(degree) if isinstance(degree, list) else degree, scheme)
    except ValueError as e:
        if "Dimension" in str(e) or "scheme" in str(e).lower() or "variant" in str(e).lower():
            raise core.Skip(str(e))
        raise
    rec.seen("rules")
    rec.key(name)
    rec.note({"rule": name})
    ps = rule.point_set
    d = K.get_spatial_dimension()
    x = np.asarray(ps.points, float)
    if not rec.check(x.ndim == 2 and x.shape[1] == d and ps.dimension == d, "rule:points", "%s: points have shape %s" % (name, x.shape)):
        return
    rec.check(rule.ref_el is not None and rule.ref_el.get_spatial_dimension() == d
              and np.allclose(np.array(rule.ref_el.get_vertices()), np.array(arg.get_vertices())), "rule:ref_el", "%s: ref_el is %s" % (name, rule.ref_el))
    we = rule.weight_expression
    rec.check(set(we.free_indices) <= set(ps.indices) and we.shape == (), "rule:free", "%s: weights have foreign free indices" % name)
    w = gemeval.arr(we, ps.indices).reshape(-1)
    pe = gemeval.arr(gemeval_expr(ps), ps.indices).reshape(-1, d) if d else x
    rec.check(len(w) == len(x), "rule:count", "%s: %d weights for %d points" % (name, len(w), len(x)))
    if len(w) != len(x):
        return
    rec.check(pe.shape == x.shape and np.allclose(pe, x, atol=1e-14), "rule:expression", "%s: the symbolic points differ from the points" % name)
    P = pieces(K)
    G = group_degrees(spec, degree, K)
    vol = math.prod(simplex_integral(V, (0,) * V.shape[1]) for V in P)
    rec.check(abs(w.sum() - vol) < 1e-11 * max(vol, 1e-3), "rule:volume", "%s: weights sum to %.16g, volume is %.16g" % (name, w.sum(), vol))
    # inside the closed cell
    off = 0
    for V in P:
        m = V.shape[1]
        if m:
            lam = np.linalg.solve((V[1:] - V[0]).T, (x[:, off:off + m] - V[0]).T)
            rec.check(lam.min() > -1e-10 and lam.sum(0).max() < 1 + 1e-10, "rule:inside", "%s: a quadrature point lies outside the cell" % name)
        off += m
    if scheme == "canonical" or all(V.shape[0] == 2 for V in P):
        rec.check(w.min() > 0, "rule:positive", "%s: nonpositive weight %.3g" % (name, w.min()))
    # exactness on orthogonal polynomials, at any degree
    ms = [modal(V, g) for V, g in zip(P, G)]
    total = math.prod(len(l) for l in ms)
    step = max(1, total // 300)
    offs = np.cumsum([0] + [V.shape[1] for V in P])
    tabs = [[(l, f(x[:, o:o + V.shape[1]]), want) for l, f, want in q] for q, V, o in zip(ms, P, offs)]
    for n, combo in enumerate(itertools.product(*tabs)):
        if n % step and n < total - 3:
            continue
        want = math.prod(c[2] for c in combo)
        got = float(np.dot(w, np.prod([c[1] for c in combo], axis=0)))
        rec.seen("integrals")
        if not rec.check(abs(got - want) <= 2e-12 * max(vol, 1e-3) * (1 + max(G)), "rule:modal",
                         "%s: integral of %s is %.15g, exactly %.15g" % (name, " ".join(c[0] for c in combo), got, want)):
            break
    if max(G) <= 60:
        # exactness: all products of monomials of total degree <= g per factor
        lists = []
        for V, g in zip(P, G):
            m = V.shape[1]
            ex = geom.all_multiindices(m, g) if m else [()]
            if len(ex) > 160:
                top = [e for e in ex if sum(e) >= g - 1]
                ex = top[::max(1, len(top) // 80)] + ex[:40]
            lists.append([(e, simplex_integral(V, e)) for e in ex])
        combos = itertools.product(*lists)
        total = math.prod(len(l) for l in lists)
        step = max(1, total // 400)
        scale = max(1.0, np.abs(x).max(initial=0) ** max([sum(G)]) if x.size else 1.0) * max(vol, 1e-3)
        for n, combo in enumerate(combos):
            if n % step and n < total - 3:
                continue
            e = tuple(itertools.chain(*[c[0] for c in combo]))
            want = math.prod(c[1] for c in combo)
            v = np.prod(x ** np.array(e, float), axis=1) if d else np.ones(len(x))
            got = float(np.dot(w, v))
            rec.seen("integrals")
            if not rec.check(abs(got - want) <= 3e-11 * scale, "rule:exact", "%s: integral of x^%s is %.15g, exactly %.15g" % (name, e, got, want)):
                break
    if scheme == "default" and "split" not in case and len(P) == len(axes_labels(ps)) > 0:
        # rules on intervals are recognisable as Gauss-Legendre points
        from finat.point_set import GaussLegendrePointSet
        for V, q in zip(P, axes_labels(ps)):
            if V.shape == (2, 1) and not np.asarray(q.points).size == 0:
                rec.seen("labels")
                rec.check(isinstance(q, GaussLegendrePointSet), "rule:label", "%s: the points of an interval are %s, not labelled Gauss-Legendre" % (name, type(q).__name__))
    if "split" in case:
        macro_pieces(rec, arg, x, w, degree, name)
    # the structure of the rule
    if isinstance(spec, list) or spec == "quadrilateral":
        subs = [cell_of(c) for c in spec] if isinstance(spec, list) else list(K.product.cells)
        ds = degree if isinstance(degree, list) else [degree] * len(subs)
        parts = [make_quadrature(c, dd, scheme) for c, dd in zip(subs, ds)]
        y = np.array([np.concatenate(t) for t in itertools.product(*[p.point_set.points for p in parts])]).reshape(-1, d)
        v = np.array([math.prod(t) for t in itertools.product(*[gemeval.arr(p.weight_expression, p.point_set.indices).reshape(-1) for p in parts])])
        rec.check(y.shape == x.shape and np.allclose(x, y, atol=1e-14) and np.allclose(w, v, rtol=1e-13), "rule:product",
                  "%s: is not the product of its factors' rules" % name)
        if parts:
            from finat.quadrature import TensorProductQuadratureRule
            again = TensorProductQuadratureRule(iter(parts), ref_el=K)
            rec.check(np.allclose(again.point_set.points, x) and np.allclose(gemeval.arr(again.weight_expression, again.point_set.indices).reshape(-1), w),
                      "rule:iterator", "%s: a rule built from an iterator of factors differs" % name)
            try:
                rec.check(len(again.intrinsic_orientation_permutation_map_tuple) == len(rule.intrinsic_orientation_permutation_map_tuple),
                          "rule:iterator", "%s: orientation maps of a rule built from an iterator of factors" % name)
            except ValueError:
                pass
        rec.check(len(ps.indices) == sum(len(p.point_set.indices) for p in parts), "rule:structure", "%s: %d point indices" % (name, len(ps.indices)))
    if P and all(V.shape == (2, 1) for V in P) and "split" not in case:
        # intervals and flat products of them: one permutation of the axes per extrinsic orientation
        if isinstance(spec, str) or all(s == "interval" for s in spec):
            try:
                A = np.asarray(rule.extrinsic_orientation_permutation_map)
            except NotImplementedError:
                A = None
            if A is not None:
                n = len(P)
                rec.seen("axis_maps")
                ok = A.shape == (math.factorial(n), n, n)
                perms = {tuple(np.argmax(a, axis=1)) for a in A} if ok else set()
                rec.check(ok and np.array_equal(A[0], np.eye(n)) and all(np.array_equal(np.sort(a @ np.arange(n)), np.arange(n)) for a in A)
                          and perms == set(itertools.permutations(range(n))), "rule:axes",
                          "%s: the extrinsic orientation maps are not the permutations of the %d axes" % (name, n))
    try:
        maps = rule.intrinsic_orientation_permutation_map_tuple
    except ValueError:
        # no line factor structure known for all axes
        rec.check(any(V.shape[0] != 2 for V in P) or "split" in case or spec == "hexahedron", "rule:orientation-missing",
                  "%s: orientation maps of a product of intervals are missing" % name)
        return
    if not rec.check(len(maps) == len(P), "rule:orientation-axes", "%s: %d orientation maps for %d axes" % (name, len(maps), len(P))):
        return
    axes_pts = leaf_points(ps)
    for a, (m, V) in enumerate(zip(maps, P)):
        t = axes_pts[a]
        for io, perm in enumerate(m):
            rec.seen("orientation_maps")
            perm = np.asarray(perm)
            want = t if io == 0 else V.sum(0) - t
            rec.check(sorted(perm) == list(range(len(t))) and np.allclose(t[perm], want, atol=1e-12), "rule:orientation",
                      "%s: axis %d orientation %d permutation %s does not reflect the points" % (name, a, io, perm))


def gemeval_expr(ps):
    import gem
    e = ps.expression
    if e.shape == (0,):
        return gem.Literal(np.zeros((1, 0)))
    k = gem.Index(extent=e.shape[0])
    return gem.ComponentTensor(gem.Indexed(e, (k,)), (k,))


def leaf_points(ps):
    if hasattr(ps, "factors"):
        return [q for f in ps.factors for q in leaf_points(f)]
    return [np.asarray(ps.points, float)]


def axes_labels(ps):
    return [q for f in ps.factors for q in axes_labels(f)] if hasattr(ps, "factors") else [ps]


def macro_pieces(rec, arg, x, w, degree, name):
    """Every piece of the subdivision is integrated exactly."""
    sd = arg.get_spatial_dimension()
    top = arg.get_topology()[sd]
    V = np.array(arg.get_vertices(), float)
    for e, vs in top.items():
        S = V[list(vs)]
        lam = np.linalg.solve((S[1:] - S[0]).T, (x - S[0]).T)
        inside = (lam.min(0) > 1e-9) & (lam.sum(0) < 1 - 1e-9)
        edge = ((lam.min(0) > -1e-9) & (lam.sum(0) < 1 + 1e-9)) & ~inside
        if edge.any():
            return
        for ex in geom.all_multiindices(sd, min(degree, 3)):
            got = float(np.dot(w[inside], np.prod(x[inside] ** np.array(ex, float), axis=1)))
            want = simplex_integral(S, ex)
            rec.seen("integrals")
            if not rec.check(abs(got - want) < 1e-12, "rule:piece", "%s: piece %d: integral of x^%s is %.15g, exactly %.15g" % (name, e, ex, got, want)):
                return


def refuse(case, rec, K):
    from finat.point_set import PointSet
    from finat.quadrature import QuadratureRule, make_quadrature
    k, spec = case["refuse"], case["cell"]
    rec.seen("refusals")
    rec.key(k, spec)
    expect = (ValueError,)
    if k == "negative":
        f = lambda: make_quadrature(K, -1)
    elif k == "scheme":
        if spec in ("interval", "quadrilateral"):
            return
        f = lambda: make_quadrature(K, 2, "no-such-scheme")
    elif k in ("length", "empty-tuple"):
        if not isinstance(spec, list) and spec != "quadrilateral":
            return
        f = lambda: make_quadrature(K, (2,) * 5 if k == "length" else ())
        expect = (AssertionError, ValueError)
    elif k in ("no-cell", "no-maps"):
        ps = PointSet(np.zeros((3, K.get_spatial_dimension())))
        if k == "no-cell":
            f = lambda: QuadratureRule(ps, np.ones(3)).extrinsic_orientation_permutation_map
        else:
            f = lambda: QuadratureRule(ps, np.ones(3), ref_el=K).intrinsic_orientation_permutation_map_tuple
    else:
        n = 3
        f = lambda: QuadratureRule(PointSet(np.zeros((n, K.get_spatial_dimension()))), np.ones(n + 1))
        expect = (AssertionError, ValueError)
    try:
        f()
    except expect:
        return
    except Exception as e:
        rec.fail("refuse:type", "%s on %s raised %s" % (k, spec, type(e).__name__))
        return
    rec.fail("refuse:accepted", "%s on %s was accepted" % (k, spec))
