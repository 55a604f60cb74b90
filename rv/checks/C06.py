import json

import numpy as np

from rv import model, tabcheck, core, geom, gemeval

model.MACRO_RATE = .12
PROPERTY = "C06"
ROUNDS = 6
RULE = ("a case is a drawn blocked (vector/tensor-valued) element over a drawn base element with a drawn shape of rank 1-3 and both "
        "dof orderings; tabulation, dof maps and dual evaluation are compared with Kronecker-product reference models. "
        "Distinct by (element, order, entity, point kind) and (element, dual).")
MIN = {"basis_evaluation_calls": 150, "entity_dofs_maps": 50, "dual_evaluations": 30}
ASSUMPTIONS = ["FIAT tabulates leaf elements correctly"]


def draw(rng):
    cell = model.pick(rng, model.CELLS)
    u = rng.random()
    if u < .6:
        base = model.rand_scalar(rng, cell)
    elif u < .8 and isinstance(cell, str):
        base = model.rand_leaf(rng, cell, model.pick(rng, ["vector", "tensor"]))
    elif u < .9:
        base = ["tensor", model.rand_scalar(rng, cell), [int(rng.integers(1, 4))], bool(rng.integers(2))]
    else:
        base = ["enr", [model.rand_scalar(rng, cell), model.rand_scalar(rng, cell)]]
    shape = [int(rng.integers(1, 4)) for _ in range(int(rng.choice([1, 1, 2, 2, 3])))]
    return ["tensor", base, shape, bool(rng.integers(2))]


def cases(rng, tier):
    n = 1200 if tier == "quick" else 200000
    return [{"spec": model.safe(draw, rng), "seed": int(rng.integers(1 << 30)), "tier": tier} for _ in range(n)]


def run(case, rec):
    from rv import dualcheck
    rng = core.rng_for(case["seed"], "c06")
    spec = case["spec"]
    name = json.dumps(spec)
    mod = model.model(spec)
    big = model.prod(mod.index_shape) * model.prod(mod.value_shape)
    if big > 4000:
        raise core.Skip("too large")
    elem = model.build(spec)
    rec.note({"element": spec})
    if spec[0] == "tensor":
        tabcheck.shape_facts(rec, "block", elem, mod, name)
    tabcheck.dof_facts(rec, "block", elem, mod, name)
    order = int(rng.integers(0, 3)) if big < 200 else int(rng.integers(0, 2))
    tabcheck.run_tab(rec, "block", elem, mod, order, rng,
                     tabcheck.entity_list(mod.cell, rng, 1 if case["tier"] == "quick" else 3), name)
    if spec[0] == "tensor" and big < 500:
        dualcheck.dual_against_model(rec, "block", elem, mod, rng, name)
