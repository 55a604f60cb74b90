import json

import numpy as np

from rv import model, tabcheck, core, geom, gemeval

model.MACRO_RATE = .12
PROPERTY = "C04"
ROUNDS = 5
RULE = ("a case is a drawn tensor product of 2-3 factors (1D/2D families, nested, flattened to quad/hex, one vector factor), "
        "tabulated on the cell and drawn sub-entities with structured and unstructured point sets; the oracle forms products of "
        "FIAT tabulations with numpy and renumbers entities geometrically. Distinct by (element, order, entity, point kind).")
MIN = {"basis_evaluation_calls": 150, "entity_dofs_maps": 50}
ASSUMPTIONS = ["FIAT tabulates leaf elements correctly"]


def draw(rng):
    u = rng.random()
    if u < .25:
        return ["tpe", [model.rand_interval(rng), model.rand_interval(rng)]]
    if u < .40:
        return ["tpe", [model.rand_interval(rng, 2), model.rand_interval(rng, 2), model.rand_interval(rng, 2)]]
    if u < .55:
        k = model.pick(rng, ["scalar", "vector", "tensor"])
        fs = [model.rand_leaf(rng, "triangle", k), model.rand_interval(rng, 3)]
        return ["tpe", fs if rng.random() < .8 else fs[::-1]]
    if u < .62:
        return ["tpe", [["tpe", [model.rand_interval(rng, 2), model.rand_interval(rng, 2)]], model.rand_interval(rng, 2)]]
    if u < .68:
        return ["tpe", [["tensor", model.rand_leaf(rng, "triangle"), [2], bool(rng.integers(2))], model.rand_interval(rng, 2)]]
    if u < .74:
        return ["tpe", [["enr", [model.rand_interval(rng, 2), model.rand_interval(rng, 2)]], model.rand_interval(rng, 2)]]
    if u < .80:
        return ["tpe", [["flat", ["tpe", model.same_degree_intervals(rng, 2)]], model.rand_interval(rng, 2)]]
    if u < .90:
        return ["flat", ["tpe", model.same_degree_intervals(rng, 2)]]
    a = model.same_degree_intervals(rng, 3)
    if rng.random() < .5:
        return ["flat", ["tpe", a]]
    return ["flat", ["tpe", [["flat", ["tpe", a[:2]]], a[2]]]]


def cases(rng, tier):
    n = 1500 if tier == "quick" else 200000
    return [{"spec": model.safe(draw, rng), "seed": int(rng.integers(1 << 30)), "tier": tier} for _ in range(n)]


def degree_of(spec):
    if spec[0] == "tpe":
        return tuple(degree_of(s) for s in spec[1])
    if spec[0] == "flat":
        ds = set()
        def walk(t):
            for x in t:
                walk(x) if isinstance(x, tuple) else ds.add(x)
        walk(degree_of(spec[1]))
        return ds.pop() if len(ds) == 1 else None
    if spec[0] == "tensor":
        return degree_of(spec[1])
    if spec[0] == "enr":
        return max(degree_of(s) for s in spec[1])
    return model.model(spec).poly_degree


def run(case, rec):
    from finat.point_set import TensorPointSet
    rng = core.rng_for(case["seed"], "c04")
    spec = case["spec"]
    name = json.dumps(spec)
    mod = model.model(spec)
    elem = model.build(spec)
    rec.note({"element": spec})
    tabcheck.shape_facts(rec, "tp", elem, mod, name)
    tabcheck.dof_facts(rec, "tp", elem, mod, name)
    want = degree_of(spec)
    if want is not None:
        rec.check(elem.degree == want, "tp:degree", "%s: degree %s, expected %s" % (name, elem.degree, want))
    big = model.prod(mod.index_shape) * model.prod(mod.value_shape)
    order = int(rng.integers(0, 4)) if big < 30 else int(rng.integers(0, 3)) if big < 80 else int(rng.integers(0, 2))
    ents = tabcheck.entity_list(mod.cell, rng, 2 if case["tier"] == "quick" else 4)
    tabcheck.run_tab(rec, "tp", elem, mod, order, rng, ents, name)
    # the same points with and without declared structure give the same answers
    from rv.points import make_ps
    from finat.point_set import PointSet
    if geom.kind(mod.cell) in ("tensor", "cube"):
        ent = ents[int(rng.integers(len(ents)))]
        sub = tabcheck.sub_of(mod.cell, ent)
        if geom.kind(sub) == "tensor" or (geom.kind(sub) == "cube" and sub.get_spatial_dimension() > 1):
            ps, x, kind = make_ps(rng, sub, "tensor" if geom.kind(sub) == "tensor" else "split", interior=True)
            o = min(order, 1)
            if mod.macro:
                o = 0
            a = gemeval.tab(elem, o, ps, ent)
            b = gemeval.tab(elem, o, PointSet(np.asarray(x)), ent)
            tabcheck.compare(rec, "tp:structured-vs-flat", a, b, "%s entity %s" % (name, ent))
            rec.seen("structure_comparisons")
