import json

import numpy as np

from rv import core, dualcheck, gemeval, geom, model, zany

model.MACRO_RATE = .12
PROPERTY = "C12"
ROUNDS = 3
RULE = ("a case is an element with a dual basis (catalogue leaf, restricted leaf, drawn composite, quadrature element, one element object "
        "used for several factors); dual evaluation of its own basis functions must give the identity, of a random polynomial with "
        "or without free argument indices the functionals' values, and reproduction of random combinations; elements without a "
        "dual basis must refuse. Distinct by (element, observation).")
MIN = {"nodality": 200, "functionals": 150, "refusals": 20, "argument_indices": 100}
ASSUMPTIONS = ["FIAT's dual bases are right"]


def draw(rng):
    cell = model.pick(rng, model.CELLS)
    u = rng.random()
    if u < .4:
        s = model.rand_scalar(rng, cell)
    elif u < .55:
        s = model.rand_hwrap(rng, cap=2)
    elif u < .7 and isinstance(cell, str) and cell in model.VECTOR_ND:
        s = model.rand_leaf(rng, cell, model.pick(rng, ["vector", "tensor"]))
    else:
        s = model.rand_scalar(rng, cell)
        s = ["tensor", s, [int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 3)))], bool(rng.integers(2))]
        if rng.random() < .3:
            s = ["tensor", s, [int(rng.integers(1, 3))], bool(rng.integers(2))]
    if rng.random() < .15:
        s = ["disc", s]
    return s


def cases(rng, tier):
    out = []
    deep = model.deep_catalog()
    for s in model.leaf_catalog() + deep:
        if tier == "quick" and rng.random() < (.7 if s in deep else .25):
            continue
        out.append({"spec": s, "seed": int(rng.integers(1 << 30))})
    for c in zany.catalog():
        out.append({"zany": c, "seed": int(rng.integers(1 << 30))})
    for nm, cell, deg in (("Lagrange", "triangle", 4), ("Lagrange", "interval", 4), ("RaviartThomas", "triangle", 2), ("Nedelec", "tetrahedron", 2),
                          ("Lagrange", "tetrahedron", 4), ("GaussLobattoLegendre", "interval", 5), ("BrezziDouglasMarini", "triangle", 2)):
        for dom in ("interior", "facet", "vertex", "edge", "face"):
            out.append({"restricted": [["leaf", nm, cell, deg, {}], dom], "seed": 1})
    for s in (["leaf", "Lagrange", "interval", 2, {}], ["leaf", "GaussLegendre", "interval", 2, {}], ["leaf", "Bernstein", "interval", 2, {}],
              ["leaf", "FDMLagrange", "interval", 3, {}], ["leaf", "IntegratedLegendre", "interval", 3, {}]):
        out.append({"same": [s, 2], "seed": 1})
        out.append({"same": [s, 3], "seed": 1})
    for cell in ("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", ["triangle", "interval"], ["interval", "interval"]):
        for deg in (0, 1, 2, 4):
            for blocked in (None, [2], [2, 2]):
                out.append({"quad": [cell, deg, blocked], "seed": int(rng.integers(1 << 30))})
    for s in (["enr", [["leaf", "Lagrange", "triangle", 1, {}], ["leaf", "Bubble", "triangle", 3, {}]]],
              ["mix", [["leaf", "Lagrange", "triangle", 1, {}], ["leaf", "RaviartThomas", "triangle", 1, {}]]],
              ["tensor", ["enr", [["leaf", "Lagrange", "triangle", 1, {}], ["leaf", "Bubble", "triangle", 3, {}]]], [2], False],
              ["disc", ["enr", [["leaf", "Lagrange", "interval", 1, {}], ["leaf", "Bubble", "interval", 2, {}]]]]):
        out.append({"refuse": s, "seed": 1})
    n = 500 if tier == "quick" else 9000
    for _ in range(n):
        s = model.safe(draw, rng)
        if s is not None:
            out.append({"spec": s, "seed": int(rng.integers(1 << 30))})
    return out


def own_basis(elem, ps, beta):
    """The element's own functions at ps, with the basis indices free."""
    import gem
    d = elem.cell.get_spatial_dimension()
    res = elem.basis_evaluation(0, ps)
    t = res[(0,) * d]
    zeta = gem.indices(len(elem.value_shape))
    zeta = tuple(gem.Index(extent=e) for e in elem.value_shape)
    e = gem.Indexed(t, beta + zeta)
    return gem.ComponentTensor(e, zeta) if zeta else e


def nodality(rec, elem, name, tol=1e-8):
    """dual_evaluation applied to the basis itself."""
    beta = elem.get_indices()
    expr, idx = elem.dual_evaluation(lambda ps: own_basis(elem, ps, beta))
    A = gemeval.arr(expr, tuple(idx) + tuple(beta))
    n = model.prod(elem.index_shape)
    rec.seen("nodality")
    rec.key(name, "nodality")
    if not rec.check(A.shape == tuple(elem.index_shape) * 2, "nodal:shape", "%s: dual evaluation of the basis has extents %s" % (name, A.shape)):
        return None
    A = A.reshape(n, n)
    return A


def run(case, rec):
    import FIAT
    import finat
    rng = core.rng_for(case["seed"], "c12")
    if "refuse" in case:
        elem = model.build(case["refuse"])
        name = json.dumps(case["refuse"])
        rec.seen("refusals")
        for what in ("dual_basis", "dual_evaluation"):
            try:
                if what == "dual_basis":
                    elem.dual_basis
                else:
                    elem.dual_evaluation(lambda ps: ps.expression[0])
            except NotImplementedError:
                continue
            rec.fail("refuse:answered", "%s: %s of an element without nodes returned a value" % (name, what))
        return
    mod = None
    if "zany" in case:
        c = case["zany"]
        elem = zany.build(c, FIAT.ufc_simplex(c["dim"]))
        name = zany.label(c)
    elif "restricted" in case:
        spec, dom = case["restricted"]
        name = "restricted %s %s" % (json.dumps(spec), dom)
        try:
            elem = finat.RestrictedElement(model.build(spec), dom)
        except Exception as e:
            raise core.Skip("not restrictable: %s" % type(e).__name__)
        if not isinstance(elem, finat.finiteelementbase.FiniteElementBase):
            raise core.Skip("empty")
    elif "same" in case:
        s, k = case["same"]
        e = model.build(s)
        elem = finat.TensorProductElement([e] * k)
        mod = model.model(["tpe", [s] * k])
        name = "one object %d times %s" % (k, json.dumps(s))
    elif "quad" in case:
        return quad(case, rec, rng)
    else:
        spec = case["spec"]
        name = json.dumps(spec)
        mod = model.model(spec)
        elem = model.build(spec)
        if model.prod(mod.index_shape) * model.prod(mod.value_shape) > 1500:
            raise core.Skip("too large")
    rec.note({"element": name})
    try:
        elem.dual_basis
    except NotImplementedError:
        rec.seen("refusals")
        if mod is not None:
            try:
                mod.dual()
            except core.Skip:
                return
            rec.fail("refuse:unexpected", "%s: NotImplementedError although every node has point weights" % name)
        return
    except AttributeError:
        if mod is not None:
            try:
                mod.dual()
            except core.Skip:
                rec.seen("refusals")
                return
        raise
    Q, x = elem.dual_basis
    rec.check(tuple(Q.shape) == tuple(elem.index_shape) + tuple(elem.value_shape), "dual:Qshape",
              "%s: dual weights have shape %s, element is %s x %s" % (name, Q.shape, elem.index_shape, elem.value_shape))
    if mod is not None:
        if dualcheck.dual_against_model(rec, "dual", elem, mod, rng, name) is not None:
            rec.seen("functionals")
        arguments(rec, elem, mod, rng, name)
        pointwise(rec, elem, mod, name)
    if model.prod(elem.index_shape) > 260:
        return
    broken = mod is not None and mod.macro or (mod is None and case.get("zany"))
    if broken and "zany" not in case:
        # nodes on the internal faces of the subdivision may see the value
        # from either side
        if any("Discontinuous" in l.name or l.name in ("Legendre", "GaussLegendre") or l.value_shape for l in mod.leaves):
            return
    if case.get("zany") and type(elem).__mro__[1].__name__ == "FiatElement":
        pass
    elif case.get("zany"):
        return reference_nodality(rec, elem, case["zany"], name)
    A = nodality(rec, elem, name)
    if A is None:
        return
    want = np.eye(len(A))
    if mod is not None and any(l.name in NONNODAL for l in mod.leaves):
        # the nodes span the dual space, but the basis is not dual to them
        rec.check(np.isfinite(A).all(), "nodal:finite", "%s: dual evaluation is not finite" % name)
        return
    err = float(np.abs(A - want).max()) if A.size else 0.0
    rec.check(err <= 1e-7, "nodal:identity", "%s: dual evaluation of the basis differs from the identity by %.3g" % (name, err))


NONNODAL = ("Bernstein",)


def reference_nodality(rec, elem, c, name):
    """On the reference cell the physical transformation is trivial."""
    geo = zany.Geometry(elem.cell, elem.cell.vertices)
    d = elem.cell.get_spatial_dimension()
    ident = []

    def fn(ps):
        import gem
        beta = elem.get_indices()
        t = elem.basis_evaluation(0, ps, coordinate_mapping=geo.mapping())[(0,) * d]
        zeta = tuple(gem.Index(extent=e) for e in elem.value_shape)
        ident.append(beta)
        e = gem.Indexed(t, beta + zeta)
        return gem.ComponentTensor(e, zeta) if zeta else e
    expr, idx = elem.dual_evaluation(fn)
    A = gemeval.arr(expr, tuple(idx) + tuple(ident[0]))
    n = model.prod(elem.index_shape)
    rec.seen("nodality")
    rec.key(name, "reference nodality")
    A = A.reshape(n, -1)
    if rec.check(A.shape == (n, n), "nodal:shape", "%s: %s" % (name, A.shape)):
        err = float(np.abs(A - np.eye(n)).max())
        rec.check(err <= 1e-7, "nodal:identity", "%s: on the reference cell, dual evaluation of the basis differs from the identity by %.3g" % (name, err))


def arguments(rec, elem, mod, rng, name):
    """fn carries an argument multiindex: the result must carry it too."""
    import gem
    try:
        mod.dual()
    except core.Skip:
        return
    if model.prod(mod.index_shape) > 200:
        return
    d = mod.cell.get_spatial_dimension()
    k = 3
    polys = [dualcheck.rand_poly(rng, d, mod.value_shape, 2) for _ in range(k)]
    j = gem.Index(extent=k)

    def fn(ps):
        exprs = [g(ps.expression) for _, g in polys]
        if not mod.value_shape:
            return gem.Indexed(gem.ListTensor(np.array(exprs, dtype=object)), (j,))
        zeta = tuple(gem.Index(extent=e) for e in mod.value_shape)
        lt = gem.ListTensor(np.array([gem.Indexed(e, zeta) for e in exprs], dtype=object))
        return gem.ComponentTensor(gem.Indexed(lt, (j,)), zeta)
    expr, idx = elem.dual_evaluation(fn)
    rec.seen("argument_indices")
    if not rec.check(set(expr.free_indices) <= set(idx) | {j}, "dual:free", "%s: the dual evaluation has foreign free indices" % name):
        return
    got = gemeval.arr(expr, tuple(idx) + (j,))
    for m, (f, g) in enumerate(polys):
        e1, i1 = elem.dual_evaluation(lambda ps: g(ps.expression))
        one = gemeval.arr(e1, i1)
        pts, W = mod.dual()
        ni, nv = len(mod.index_shape), len(mod.value_shape)
        want = np.tensordot(W, f(pts), axes=(list(range(ni, ni + 1 + nv)), list(range(0, 1 + nv))))
        err = float(np.abs(got[..., m] - want).max()) if want.size else 0.0
        rec.check(got[..., m].shape == want.shape and err <= 1e-9 * max(1, np.abs(want).max(initial=0)), "dual:argument",
                  "%s: dual evaluation with an argument index differs by %.3g" % (name, err))


def pointwise(rec, elem, mod, name):
    """Where the degrees of freedom are exactly the values at the dual's
    points, applying the dual costs no arithmetic."""
    import gem
    from rv.checks.C23 import flops
    if not name.startswith('["leaf"') or mod.leaves[0].name not in POINTWISE:
        return
    Q, x = elem.dual_basis
    i = elem.get_indices()
    A = gemeval.arr(gem.Indexed(Q, i), tuple(i) + x.indices)
    n = model.prod(elem.index_shape)
    A = A.reshape(n, -1)
    if A.shape != (n, n) or n == 1 or np.abs(A - np.eye(n)).max() > 1e-12:
        return
    u = gem.Variable("u", tuple(q.extent for q in x.indices))
    expr, _ = elem.dual_evaluation(lambda ps: gem.Indexed(u, ps.indices))
    rec.seen("free_point_duals")
    cost = flops(expr)
    rec.check(cost == 0, "dual:free", "%s: its degrees of freedom are point values, but evaluating them takes %d operations" % (name, cost))


POINTWISE = ("Lagrange", "Discontinuous Lagrange", "GaussLobattoLegendre", "GaussLegendre", "CrouzeixRaviart", "DiscontinuousLagrange")


def quad(case, rec, rng):
    import finat
    cell, deg, blocked = case["quad"]
    K = geom.cell_from(cell)
    elem = finat.make_quadrature_element(K, deg)
    name = "Quadrature %s %s %s" % (cell, deg, blocked)
    rule = finat.quadrature.make_quadrature(K, deg)
    pts = np.asarray(rule.point_set.points, float).reshape(-1, K.get_spatial_dimension())
    shape = tuple(blocked or ())
    if blocked:
        elem = finat.TensorFiniteElement(elem, shape)
    f, g = dualcheck.rand_poly(rng, K.get_spatial_dimension(), shape, 3)
    expr, idx = elem.dual_evaluation(lambda ps: g(ps.expression))
    got = gemeval.arr(expr, idx)
    want = f(pts)
    rec.seen("functionals")
    rec.key(name)
    if not rec.check(got.size == want.size and got.shape == tuple(elem.index_shape), "quad:dual-shape", "%s: dual evaluation has extents %s, index shape is %s" % (name, got.shape, elem.index_shape)):
        return
    err = float(np.abs(got.reshape(want.shape) - want).max())
    rec.check(err < 1e-11, "quad:dual", "%s: dual evaluation differs from the point values by %.3g" % (name, err))
