import json

import numpy as np

from rv import model, tabcheck, core, geom

model.MACRO_RATE = .12
PROPERTY = "C05"
ROUNDS = 3
RULE = ("a case is a drawn direct sum (enriched, mixed, nodally enriched; nested and on simplices, cubes and tensor cells), "
        "tabulated with drawn orders/entities/point sets and compared with concatenated reference tables and offset dof maps. "
        "Distinct by (element, order, entity, point kind).")
MIN = {"basis_evaluation_calls": 150, "entity_dofs_maps": 50}
ASSUMPTIONS = ["FIAT tabulates leaf elements correctly"]

NODAL = [[("Lagrange", 1), ("Bubble", 3)], [("Lagrange", 2), ("Bubble", 3)], [("Lagrange", 1), ("FacetBubble", 2)],
         [("CrouzeixRaviart", 1), ("Bubble", 3)], [("DiscontinuousLagrange", 1), ("Bubble", 3)],
         [("Lagrange", 2), ("Bubble", 4)], [("Lagrange", 3), ("Bubble", 4)]]


def draw(rng, form):
    cell = model.pick(rng, model.CELLS)
    if form == "nodal":
        c = model.pick(rng, ["triangle", "tetrahedron"])
        fam = model.pick(rng, NODAL)
        return ["nodal", [model.leaf(n, c, d + (1 if (c == "tetrahedron" and n in ("Bubble", "FacetBubble")) else 0)) for n, d in fam]]
    if form == "mix":
        return ["mix", [model.rand_any(rng, cell, int(rng.integers(0, 3))) for _ in range(int(rng.integers(1, 5)))]]
    # enriched, equal value shapes, possibly nested
    def scal():
        return model.rand_scalar(rng, cell)
    kids = [scal() for _ in range(int(rng.integers(1, 4)))]
    if rng.random() < .4:
        kids.insert(int(rng.integers(len(kids) + 1)), ["enr", [scal(), scal()]])
    if rng.random() < .3:
        sh, tr = [int(rng.integers(1, 4))], bool(rng.integers(2))
        kids = [["tensor", k, sh, tr] for k in kids]
    if rng.random() < .2:
        return ["mix", [["enr", kids], model.rand_any(rng, cell, 1)]]
    return ["enr", kids]


def cases(rng, tier):
    n = 1500 if tier == "quick" else 20000
    forms = ["enr", "mix", "enr", "mix", "nodal"]
    out = []
    for i in range(n):
        s = model.safe(draw, rng, forms[i % 5])
        out.append({"spec": s, "seed": int(rng.integers(1 << 30)), "tier": tier})
    return out


def run(case, rec):
    rng = core.rng_for(case["seed"], "c05")
    spec = case["spec"]
    name = json.dumps(spec)
    mod = model.model(spec)
    if model.prod(mod.index_shape) * model.prod(mod.value_shape) > 1500:
        raise core.Skip("too large")
    elem = model.build(spec)
    rec.note({"element": spec})
    if spec[0] != "leaf" and not (spec[0] in ("enr", "mix") and len(spec[1]) == 1):
        tabcheck.shape_facts(rec, "sum", elem, mod, name)
    flat_one = spec[0] in ("enr", "mix") and len(mod.children) == 1
    if flat_one:
        # a one-term sum is that term itself: same function order, its own index shape
        mod = mod.children[0]
        rec.check(tuple(elem.index_shape) == tuple(mod.index_shape), "sum:single", "one-term sum changed the index shape")
    tabcheck.dof_facts(rec, "sum", elem, mod, name)
    big = model.prod(mod.index_shape) * model.prod(mod.value_shape)
    order = int(rng.integers(0, 3)) if big < 60 else int(rng.integers(0, 2)) if big < 250 else 0
    tabcheck.run_tab(rec, "sum", elem, mod, order, rng,
                     tabcheck.entity_list(mod.cell, rng, 1 if case["tier"] == "quick" else 3), name)
