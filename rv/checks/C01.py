from rv import model, tabcheck, core, geom
import json

import numpy as np

PROPERTY = "C01"
ROUNDS = 2
RULE = ("a case is one (family, cell, degree, variant) from the catalogue of FIAT-backed elements; every case tabulates all "
        "derivatives up to a drawn order on the cell and on drawn (thorough: all) sub-entities with drawn point-set kinds, and "
        "compares with an independently constructed FIAT element evaluated at independently mapped points. A situation is "
        "distinct by (element, order, entity, point-set kind).")
MIN = {"basis_evaluation_calls": 200, "values": 5000}
ASSUMPTIONS = ["FIAT (installed library, not in the repository) tabulates its elements correctly"]


TRACE = [("triangle", (0, 1, 2, 3)), ("tetrahedron", (0, 1, 2)), (["interval", "interval"], ([0, 0], [1, 1], [2, 1], [0, 2])),
         (["triangle", "interval"], ([1, 1], [0, 1], [2, 2]))]


def cases(rng, tier):
    cat = model.leaf_catalog() + model.deep_catalog()
    out = []
    reps = 1 if tier == "quick" else 6
    for r in range(reps):
        for i, s in enumerate(cat):
            out.append({"spec": s, "rep": r, "seed": int(rng.integers(1 << 30)), "tier": tier})
    for cell, degs in TRACE:
        for deg in degs:
            for r in range(2 if tier == "quick" else 12):
                out.append({"trace": cell, "degree": deg, "seed": int(rng.integers(1 << 30))})
    perm = rng.permutation(len(out)) if tier == "quick" else range(len(out))
    return [out[i] for i in perm]


def trace(case, rec, rng):
    """HDivTrace: the facets' own bases on the facets, refusal elsewhere."""
    import FIAT
    import finat
    from finat.point_set import PointSet
    from rv import gemeval
    cell, deg = case["trace"], case["degree"]
    deg = tuple(deg) if isinstance(deg, list) else deg
    K = geom.cell_from(cell)
    name = "HDivTrace(%s, %s)" % (cell, deg)
    elem = finat.HDivTrace(K, deg)
    d = K.get_spatial_dimension()
    degs = dict(zip([(0, 1), (1, 0)], (deg[1], deg[0]))) if isinstance(deg, tuple) and cell[0] == "interval" else \
        {(1, 1): max(deg), (2, 0): deg[0]} if isinstance(deg, tuple) else {d - 1: deg}
    rec.check(elem.value_shape == () and elem.mapping == "affine" and elem.cell == K, "trace:attributes", name)
    ed = elem.entity_dofs()
    seen = []
    for dim in K.get_topology():
        for e in K.get_topology()[dim]:
            facet = geom.entity_sdim(dim) == d - 1
            rec.check(facet or not ed[dim][e], "trace:dofs", "%s: dofs on %s" % (name, (dim, e)))
            seen += ed[dim][e]
            if not facet:
                continue
            sub = K.construct_subelement(dim)
            ps = PointSet(geom.random_points(rng, sub, 6))
            res = elem.basis_evaluation(1, ps, (dim, e))
            t = gemeval.flatpts(res[(0,) * d], ps)
            t = np.broadcast_to(t, (6,) + t.shape[1:])
            mine = ed[dim][e]
            other = [i for i in range(elem.space_dimension()) if i not in mine]
            rec.check(np.abs(t[:, other]).max(initial=0) < 1e-12, "trace:other", "%s: functions of other facets do not vanish on %s" % (name, (dim, e)))
            rec.check(np.abs(t[:, mine].sum(1) - 1).max() < 1e-9, "trace:unity", "%s: facet functions do not sum to one on %s" % (name, (dim, e)))
            if geom.is_simplex_spec(cell):
                w = FIAT.DiscontinuousLagrange(FIAT.ufc_simplex(d - 1), deg).tabulate(0, ps.points)[(0,) * (d - 1)].T
                rec.check(np.abs(t[:, mine] - w).max() < 1e-9, "trace:values", "%s on %s: not the facet's discontinuous Lagrange basis" % (name, (dim, e)))
            w = FIAT.HDivTrace(K, deg).tabulate(0, ps.points, (dim, e))[(0,) * d].T
            rec.check(np.abs(t - w).max() < 1e-12, "trace:fiat", "%s on %s: differs from FIAT" % (name, (dim, e)))
            rec.seen("basis_evaluation_calls")
            rec.seen("trace_tabulations")
            rec.key(name, dim, e)
            for a in res:
                if sum(a):
                    try:
                        gemeval.flatpts(res[a], ps)
                    except gemeval.UndefinedValue:
                        rec.seen("trace_refusals")
                    else:
                        rec.fail("trace:derivative", "%s: derivative %s of a trace has a value" % (name, a))
    rec.check(sorted(seen) == list(range(elem.space_dimension())), "trace:partition", "%s: %s" % (name, ed))


def run(case, rec):
    rng = core.rng_for(case["seed"], "c01")
    if "trace" in case:
        return trace(case, rec, rng)
    spec = case["spec"]
    name = json.dumps(spec[1:])
    mod = model.model(spec)
    elem = model.build(spec)
    rec.note({"element": spec, "dim": mod.space_dimension})
    tabcheck.shape_facts(rec, "leaf", elem, mod, name)
    tabcheck.dof_facts(rec, "leaf", elem, mod, name)
    rec.check(elem.degree == mod.poly_degree, "leaf:degree", "%s: degree %s, expected %s" % (name, elem.degree, mod.poly_degree))
    rec.check(elem.complex == mod.fiat.get_reference_complex(), "leaf:complex", "wrong complex")
    d = mod.cell.get_spatial_dimension()
    p = mod.poly_degree
    # orders around the polynomial degree are where special handling lives
    cap = 4 if d == 3 else 5
    menu = sorted({0, 1, 2, min(p, cap), min(p + 1, cap), max(0, min(p - 1, cap))})
    orders = [menu[-1] if case["rep"] == 0 else model.pick(rng, menu)]
    big = mod.space_dimension * max(1, model.prod(mod.value_shape))
    if big > 150:
        orders = [min(o, 2) for o in orders]
    if mod.macro:
        orders = [min(o, 2) for o in orders]
    how = 2 if case["tier"] == "quick" else ("all" if case["rep"] == 1 else 3)
    ents = tabcheck.entity_list(mod.cell, rng, how)
    for n, o in enumerate(orders):
        tabcheck.run_tab(rec, "leaf", elem, mod, o, rng, ents[:1], name)
        tabcheck.run_tab(rec, "leaf", elem, mod, min(o, 2), rng, ents[1:], name)
