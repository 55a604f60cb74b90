import json

import numpy as np

from rv import core, gemeval, geom, model, tabcheck, zany

model.MACRO_RATE = .12
PROPERTY = "C22"
ROUNDS = 4
RULE = ("a case is a drawn element and its discontinuous variant: same tabulations and dual evaluation, same sizes, but every dof interior, top form degree, "
        "empty closures of all proper sub-entities, and the same behaviour when nested or wrapped again. Distinct by (element, observation).")
MIN = {"variants": 150, "tables": 300, "mapped_variants": 20}
ASSUMPTIONS = []
SLOW = ("ArnoldQin", "HuZhang", "GuzmanNeilanFirstKindH1", "GuzmanNeilanSecondKindH1", "GuzmanNeilanH1div", "GuzmanNeilanBubble", "BernardiRaugel", "ChristiansenHu")


def cases(rng, tier):
    out = []
    n = 900 if tier == "quick" else 15000
    for _ in range(n):
        cell = model.pick(rng, model.CELLS)
        u = rng.random()
        if u < .2:
            s = model.safe(lambda r: model.rand_hwrap(r, cap=2), rng)
        else:
            s = model.safe(lambda r: model.rand_any(r, cell, int(r.integers(0, 3))), rng)
        if len(out) % 18 == 0:
            c = model.pick(rng, [c for c in zany.catalog() if c["name"] not in SLOW and c["kw"].get("degree", 0) < 6])
            out.append({"mapped": c, "seed": int(rng.integers(1 << 30))})
        out.append({"spec": s, "outer": [None, "tensor", "disc", "tpe", "enr", "mix"][int(rng.integers(6))], "seed": int(rng.integers(1 << 30))})
    return out


def mapped(case, rec):
    """The broken form of an element that needs the physical geometry."""
    import FIAT
    import finat
    from finat.point_set import PointSet
    rng = core.rng_for(case["seed"], "c22m")
    c = case["mapped"]
    dim = c["dim"]
    name = "discontinuous " + zany.label(c)
    ref = FIAT.ufc_simplex(dim)
    base = zany.build(c, ref)
    elem = finat.DiscontinuousElement(base)
    geo = zany.Geometry(ref, zany.random_simplex(rng, dim), h=rng.uniform(.3, 2., dim + 1))
    rec.seen("mapped_variants")
    rec.key(name)
    n = base.space_dimension()
    rec.check(elem.space_dimension() == n and elem.index_shape == base.index_shape and elem.value_shape == base.value_shape and elem.mapping == base.mapping
              and elem.degree == base.degree and elem.formdegree == dim and elem.cell == base.cell, "disc:mapped-attributes", "%s: attributes" % name)
    dofs = elem.entity_dofs()
    rec.check(all(list(map(int, v)) == (list(range(n)) if d == dim else []) for d, es in dofs.items() for v in es.values()), "disc:mapped-dofs",
              "%s: dofs %s" % (name, dofs))
    for outer in (None, ["tensor", "mix"][int(rng.integers(2))]):
        a, b = elem, base
        if outer == "tensor":
            a, b = (finat.TensorFiniteElement(e, (2,)) for e in (a, b))
        elif outer == "mix":
            a, b = (finat.MixedElement([finat.Lagrange(ref, 1), e]) for e in (a, b))
        for dd in (dim, dim - 1):
            ent = (dd, int(rng.integers(len(ref.get_topology()[dd]))))
            ps = PointSet(geom.random_points(rng, ref.construct_subelement(dd), 3))
            order = int(rng.integers(0, 2)) if dd == dim else 0
            m = geo.mapping()
            want = gemeval.tab(b, order, ps, ent, coordinate_mapping=m)
            try:
                got = gemeval.tab(a, order, ps, ent, coordinate_mapping=m)
            except Exception as e:
                rec.fail("disc:mapped-table", "%s in %s: %s: %s" % (name, outer, type(e).__name__, e))
                return
            rec.seen("mapped_tables", len(want))
            rec.check(got.keys() == want.keys() and all(np.allclose(got[k], want[k], rtol=1e-12, atol=1e-12) for k in want), "disc:mapped-table",
                      "%s in %s: values differ from those of the element" % (name, outer))


def run(case, rec):
    import finat
    if "mapped" in case:
        return mapped(case, rec)
    rng = core.rng_for(case["seed"], "c22")
    base_spec = case["spec"]
    spec = ["disc", base_spec]
    name = json.dumps(spec)
    mod = model.model(spec)
    if model.prod(mod.index_shape) * model.prod(mod.value_shape) > 1500:
        raise core.Skip("large")
    base = model.build(base_spec)
    elem = finat.DiscontinuousElement(base)
    rec.seen("variants")
    rec.note({"element": spec})
    tabcheck.shape_facts(rec, "disc", elem, mod, name)
    tabcheck.dof_facts(rec, "disc", elem, mod, name)
    rec.check(elem.formdegree == mod.cell.get_spatial_dimension(), "disc:formdegree", "%s: form degree %s" % (name, elem.formdegree))
    try:
        deg = base.degree
    except (ValueError, NotImplementedError):
        deg = None
    if deg is not None:
        rec.check(elem.degree == deg, "disc:degree", "%s: degree %s, base %s" % (name, elem.degree, deg))
    try:
        cx = base.complex
    except (RecursionError, ValueError):
        cx = None       # FIAT cannot order the complexes of differently nested products
    if cx is not None:
        rec.check(elem.complex is cx or elem.complex == cx, "disc:complex", "%s: complex" % name)
    n = model.prod(mod.index_shape)
    closure = elem.entity_closure_dofs()
    K = mod.cell
    for d, es in K.get_topology().items():
        for e in es:
            want = list(range(n)) if d == K.get_dimension() else []
            rec.check(sorted(closure[d][e]) == want, "disc:closure", "%s: closure dofs of %s are %s" % (name, (d, e), closure[d][e][:20]))
    rec.check(elem.is_dg() if hasattr(elem, "is_dg") else True, "disc:is_dg", "%s" % name)
    tabcheck.run_tab(rec, "disc", elem, mod, int(rng.integers(0, 2)), rng, tabcheck.entity_list(K, rng, 2), name)
    # entity permutations: only for bases that are discontinuous already
    try:
        perms = elem.entity_permutations
    except NotImplementedError:
        perms = None
    bd = base.entity_dofs()
    interior = all(not v for d, es in bd.items() if d != K.get_dimension() for v in es.values())
    if perms is not None:
        rec.check(interior, "disc:permutations", "%s: permutations of a base with boundary dofs" % name)
        if interior:
            rec.check(perms == base.entity_permutations, "disc:permutations", "%s: permutations differ from the base's" % name)
    elif interior:
        try:
            base.entity_permutations
        except NotImplementedError:
            pass
        else:
            rec.fail("disc:permutations-missing", "%s: permutations missing" % name)
    # inside other constructions
    o = case["outer"]
    sub_spec = None
    if o == "tensor":
        sub_spec = ["tensor", spec, [2], bool(rng.integers(2))]
    elif o == "disc":
        sub_spec = ["disc", spec]
    elif o == "enr":
        sub_spec = ["enr", [spec, base_spec]]
    elif o == "mix":
        sub_spec = ["mix", [base_spec, spec]]
    elif o == "tpe" and not mod.value_shape:
        sub_spec = ["tpe", [spec, ["leaf", "Lagrange", "interval", 1, {}]]]
    if sub_spec is None:
        return
    try:
        m2 = model.model(sub_spec)
    except core.Skip:
        return
    if model.prod(m2.index_shape) * model.prod(m2.value_shape) > 1500:
        return
    e2 = model.build(sub_spec)
    n2 = json.dumps(sub_spec)
    tabcheck.dof_facts(rec, "disc-in", e2, m2, n2)
    tabcheck.run_tab(rec, "disc-in", e2, m2, 0, rng, [None], n2)
