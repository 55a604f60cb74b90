import json

import numpy as np

from rv import core, geom, model, tabcheck, gemeval

model.MACRO_RATE = .12
PROPERTY = "C25"
ROUNDS = 6
RULE = ("a case is an element with a FIAT equivalent (leaf, two-factor product, flattened, enriched, mixed, wrapped, discontinuous): the equivalent must "
        "have the same cell, sizes, dofs, and tabulate the same basis in the same order on the cell and on entities. Distinct by (element, entity, order).")
MIN = {"equivalents": 150, "tables": 500}
ASSUMPTIONS = ["FIAT's own composite elements are right where it builds them"]


def drop3(spec):
    """Two-factor products only."""
    if spec[0] == "tpe":
        return len(spec[1]) == 2 and all(drop3(s) for s in spec[1])
    if spec[0] in ("enr", "mix", "nodal"):
        return all(drop3(s) for s in spec[1])
    if spec[0] == "leaf":
        return True
    return drop3(spec[1])


def has(spec, op):
    if spec[0] == op:
        return True
    if spec[0] in ("tpe", "enr", "mix", "nodal"):
        return any(has(s, op) for s in spec[1])
    return spec[0] != "leaf" and has(spec[1], op)


def cases(rng, tier):
    out = []
    n = 1500 if tier == "quick" else 20000
    cells = ["triangle", "interval", "quadrilateral", ["interval", "interval"], ["triangle", "interval"], ["quadrilateral", "interval"], "tetrahedron"]
    for i in range(n):
        cell = model.pick(rng, cells)
        u = rng.random()
        if u < .25:
            s = model.safe(lambda r: model.rand_hwrap(r, cap=2), rng)
        else:
            s = model.safe(lambda r: model.rand_any(r, cell, int(r.integers(0, 3))), rng)
        out.append({"spec": s, "seed": int(rng.integers(1 << 30))})
    return out


def fiat_of(spec):
    """Independent construction with FIAT alone."""
    import FIAT
    from FIAT.tensor_product import FlattenedDimensions
    op = spec[0]
    if op == "leaf":
        return model.model(spec).fiat
    if op == "tpe":
        return FIAT.TensorProductElement(*[fiat_of(s) for s in spec[1]])
    if op == "flat":
        return FlattenedDimensions(fiat_of(spec[1]))
    if op == "enr":
        return FIAT.EnrichedElement(*[fiat_of(s) for s in spec[1]])
    if op == "mix":
        return FIAT.MixedElement([fiat_of(s) for s in spec[1]])
    if op in ("hdiv", "hcurl"):
        return (FIAT.Hdiv if op == "hdiv" else FIAT.Hcurl)(fiat_of(spec[1]))
    if op == "disc":
        return FIAT.DiscontinuousElement(fiat_of(spec[1]))
    if op == "nodal":
        return FIAT.NodalEnrichedElement(*[fiat_of(s) for s in spec[1]])
    raise core.Skip("no FIAT equivalent of " + op)


def run(case, rec):
    rng = core.rng_for(case["seed"], "c25")
    spec = case["spec"]
    name = json.dumps(spec)
    mod = model.model(spec)
    n = model.prod(mod.index_shape)
    if n * model.prod(mod.value_shape) > 800:
        raise core.Skip("large")
    elem = model.build(spec)
    if has(spec, "tensor"):
        # blocked elements have none, at any depth
        try:
            f = elem.fiat_equivalent
        except NotImplementedError:
            rec.seen("refused")
            return
        except Exception as e:
            if spec[0] != "tensor":
                raise core.Skip("FIAT")
            raise
        rec.fail("fiat:blocked", "%s: has a FIAT equivalent" % name)
        return
    if not drop3(spec):
        raise core.Skip("FIAT products have two factors")
    try:
        ref = fiat_of(spec)
        top = ref.space_dimension()
    except core.Skip:
        raise
    except Exception as e:
        raise core.Skip("FIAT cannot build: %s" % type(e).__name__)
    f = elem.fiat_equivalent
    rec.seen("equivalents")
    rec.note({"element": spec})
    rec.check(f.space_dimension() == n, "fiat:dim", "%s: FIAT equivalent has %d functions, the element %d" % (name, f.space_dimension(), n))
    rec.check(f.get_reference_element() == mod.cell, "fiat:cell", "%s: cell" % name)
    if f.space_dimension() != n:
        return
    vs = tuple(f.value_shape())
    rec.check(vs == tuple(mod.value_shape) or not vs and mod.value_shape in ((), (1,)), "fiat:value_shape", "%s: value shape %s, element %s" % (name, vs, mod.value_shape))
    d1 = {d: {e: sorted(map(int, v)) for e, v in es.items()} for d, es in f.entity_dofs().items()}
    d2 = {d: {e: sorted(map(int, v)) for e, v in es.items()} for d, es in elem.entity_dofs().items()}
    rec.check(d1 == d2, "fiat:dofs", "%s: FIAT equivalent associates dofs with other entities" % name)
    for ent in tabcheck.entity_list(mod.cell, rng, 2):
        o = int(rng.integers(0, 2))
        if mod.macro and ent is not None and geom.entity_sdim(ent[0]) < mod.cell.get_spatial_dimension():
            o = 0
        sub = tabcheck.sub_of(mod.cell, ent)
        x = geom.random_points(rng, sub, 3)
        from finat.point_set import PointSet
        try:
            t0 = ref.tabulate(o, x, ent)
        except Exception as e:
            rec.seen("fiat-refused")
            continue
        if any(isinstance(t, Exception) for t in t0.values()):
            continue
        t = f.tabulate(o, x, ent)
        got = gemeval.tab(elem, o, PointSet(x), ent)
        rec.key(name, ent, o)
        if not rec.check(set(t) == set(got), "fiat:keys", "%s: derivatives" % name):
            continue
        for a, w in t.items():
            w = np.moveaxis(np.asarray(w, float).reshape((n,) + tuple(mod.value_shape) + (len(x),)), -1, 0)
            g = got[a].reshape(w.shape)
            rec.seen("tables")
            err = np.abs(w - g).max(initial=0)
            rec.check(err < 1e-9 * max(1, np.abs(w).max(initial=0)), "fiat:values", "%s on %s: d%s of the FIAT equivalent is off by %.3g" % (name, ent, a, err))
