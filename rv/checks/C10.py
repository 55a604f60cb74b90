import json

import numpy as np

from rv import core, gemeval, geom, model

PROPERTY = "C10"
ROUNDS = 4
RULE = ("a case is an element (catalogue leaf or drawn composite); for every entity of its cell the reported support is compared with "
        "the functions observed to be nonzero at many random points of that entity. Distinct by (element, entity dimension).")
MIN = {"entities": 1500, "nonzero": 5000, "zero": 1000}
ASSUMPTIONS = ["a function nonzero on an entity exceeds 1e-6 of its own maximum at one of the sampled points"]


def cases(rng, tier):
    out = []
    cat = model.leaf_catalog()
    keep = cat if tier != "quick" else [c for c in cat if rng.random() < .6 or c[1] in ("DiscontinuousTaylor", "FDMBrokenL2")
                                        or "variant" in c[4] and any(x in c[4]["variant"] for x in ("iso", "powell"))]
    out += [{"spec": s, "seed": int(rng.integers(1 << 30))} for s in keep if tier != "quick" or s[2] != "hexahedron" or s[3] < 3]
    out += [{"spec": s, "seed": int(rng.integers(1 << 30))} for s in model.deep_catalog() if s[2] == "interval" or s[2] == "triangle" and s[3] < 8]
    for k in (3, 5, 7):
        for c in ("interval", "triangle"):
            out.append({"spec": ["leaf", "Lagrange", c, 1, {"variant": "equispaced,iso(%d)" % k}], "seed": k})
    iso = ["leaf", "Lagrange", "interval", 1, {"variant": "equispaced,iso(7)"}]
    for s in (["flat", ["tpe", [iso, iso]]], ["tpe", [iso, iso]], ["tensor", ["tpe", [iso, iso]], [2], False],
              ["tensor", ["flat", ["tpe", [iso, iso]]], [2], False]):
        out.append({"spec": s, "seed": 0})
    n = 400 if tier == "quick" else 6000
    for _ in range(n):
        cell = model.pick(rng, model.CELLS)
        s = model.safe(lambda r: model.rand_any(r, cell, int(r.integers(0, 3))) if r.random() < .7 else model.rand_hwrap(r, cap=2), rng)
        if s is not None:
            out.append({"spec": s, "seed": int(rng.integers(1 << 30))})
    return out


def run(case, rec):
    from finat.point_set import PointSet
    from finat.finiteelementbase import entity_support_dofs
    rng = core.rng_for(case["seed"], "c10")
    spec = case["spec"]
    name = json.dumps(spec)
    mod = model.model(spec)
    if model.prod(mod.index_shape) * model.prod(mod.value_shape) > 900:
        raise core.Skip("too large")
    elem = model.build(spec)
    cell = elem.cell
    n = elem.space_dimension()
    if spec[0] not in ("flat", "leaf"):
        try:
            elem.degree
        except ValueError:
            raise core.Skip("no single degree: anisotropic flattened part")
    support = elem.entity_support_dofs()
    rec.note({"element": name})
    macro = "iso" in name or "powell" in name or "alfeld" in name
    size = {}
    for d, e in geom.entities(cell):
        sub = geom.sub_cell(cell, d)
        npts = 1 if geom.entity_sdim(d) == 0 else (150 if macro else 14)
        ps = PointSet(geom.random_points(rng, sub, npts))
        v, = elem.basis_evaluation(0, ps, entity=(d, e)).values()
        t = np.abs(gemeval.flatpts(v, ps))
        size[d, e] = t.reshape((len(t), n, -1)).max(axis=(0, 2))
    own = np.maximum.reduce(list(size.values()))
    rec.check({d: set(es) for d, es in support.items()} == {d: set(es) for d, es in cell.get_topology().items()}, "support:entities",
              "%s: the support map's entities are not the cell's" % name)
    for (d, e), s in size.items():
        rec.seen("entities")
        rec.key(name, d)
        got = [int(k) for k in support[d][e]]
        if rng.random() < .2:
            rec.check(entity_support_dofs(elem, d)[e] == support[d][e], "support:helper", "%s: the helper disagrees on %s" % (name, (d, e)))
        rec.check(got == sorted(set(got)), "support:sorted", "%s: support of %s is not sorted and unique: %s" % (name, (d, e), got[:30]))
        gs = set(got)
        for k in range(n):
            r = s[k] / own[k] if own[k] else 0.0
            if r > 1e-6:
                rec.seen("nonzero")
                if not rec.check(k in gs, "support:missing", "%s: function %d reaches %.2g on entity %s but is not in its support %s"
                                 % (name, k, s[k], (d, e), got[:30])):
                    return
            elif r < 1e-10:
                rec.seen("zero")
                if not rec.check(k not in gs, "support:extra", "%s: function %d vanishes on entity %s (max %.2g) but is reported in its support"
                                 % (name, k, (d, e), s[k])):
                    return
            else:
                rec.seen("ambiguous")
