import json

import numpy as np

from rv import core, geom, model, zany

model.MACRO_RATE = .12
PROPERTY = "C09"
ROUNDS = 10
RULE = ("a case is an element (every catalogue leaf, every physically mapped element, drawn composites); its dof-to-entity map must "
        "partition 0..n-1 over exactly the topological entities of its cell, with equal counts on equivalent entities of a simplex, "
        "the closure map must be the union over sub-entities found geometrically, and sizes must agree. Distinct by element.")
MIN = {"maps": 300, "closures": 1000, "tabulated_dims": 60}
ASSUMPTIONS = ["published dof counts of the physically mapped elements"]

# published dof counts per (vertex, edge, face, cell)
COUNTS = {
    "Hermite1": (2, 0), "Hermite2": (3, 0, 1), "Hermite3": (4, 0, 1, 0), "Morley2": (1, 1, 0), "Bell2": (6, 0, 0),
    "QuadraticPowellSabin62": (3, 0, 0), "QuadraticPowellSabin122": (3, 1, 0), "ReducedHsiehCloughTocher2": (3, 0, 0),
    "MardalTaiWinther2": (0, 3, 0), "ReducedArnoldQin2": (2, 1, 0), "ArnoldQin2": (2, 2, 0),
    "ArnoldWinther2": (3, 4, 3), "ArnoldWintherNC2": (0, 4, 3), "JohnsonMercier2": (0, 4, 3), "JohnsonMercier3": (0, 0, 9, 6),
    "BernardiRaugelBubble2": (0, 1, 0), "BernardiRaugelBubble3": (0, 0, 1, 0), "GuzmanNeilanBubble2": (0, 1, 0),
    "GuzmanNeilanBubble3": (0, 0, 1, 0), "GuzmanNeilanH1div2": (3, 1, 0), "GuzmanNeilanH1div3": (4, 3, 1, 0),
    "AlfeldSorokina2": (3, 2, 0), "AlfeldSorokina3": (4, 3, 0, 0), "ChristiansenHu2": (2, 1, 0), "ChristiansenHu3": (3, 0, 1, 0)}
for _n in ("BernardiRaugel", "GuzmanNeilanFirstKindH1"):
    COUNTS.update({_n + "2,order=0": (0, 1, 0), _n + "2,order=1": (2, 1, 0), _n + "3,order=0": (0, 0, 1, 0),
                   _n + "3,order=1": (3, 0, 1, 0), _n + "3,order=2": (3, 3, 1, 0)})
_n = "GuzmanNeilanSecondKindH1"
COUNTS.update({_n + "2,order=0": (0, 1, 0), _n + "2,order=1": (2, 1, 2), _n + "3,order=0": (0, 0, 1, 0),
               _n + "3,order=1": (3, 0, 1, 3), _n + "3,order=2": (3, 3, 1, 15)})


def expected_counts(c):
    n, d, kw = c["name"], c["dim"], c["kw"]
    k = kw.get("degree")
    if n == "Argyris":
        return (6, 2 * k - 9, (k - 5) * (k - 4) // 2)
    if n == "HsiehCloughTocher":
        return (3, 2 * k - 5, (k - 3) * (k - 2) // 2)
    if n == "HuZhang":
        # symmetric P_k: 3 (k+1)(k+2)/2 in total
        return (3, 2 * (k - 1), 3 * (k + 1) * (k + 2) // 2 - 9 - 6 * (k - 1))
    key = n + str(d) + ("" if kw.get("order") is None else ",order=%d" % kw["order"])
    return COUNTS.get(key)


def cases(rng, tier):
    out = [{"zany": c} for c in zany.catalog()]
    out += [{"spec": s} for s in model.leaf_catalog() + model.deep_catalog()]
    n = 400 if tier == "quick" else 8000
    for _ in range(n):
        cell = model.pick(rng, model.CELLS)
        s = model.safe(lambda r: model.rand_any(r, cell, int(r.integers(1, 4))), rng)
        if s is not None:
            out.append({"spec": s})
    for c in ("quadrilateral", "hexahedron", "triangle", "tetrahedron", "interval"):
        for d in range(0, 4):
            out.append({"trace": [c, d]})
            out.append({"quad": [c, d]})
    return out


def run(case, rec):
    import FIAT
    counts = None
    if "zany" in case:
        c = case["zany"]
        elem = zany.build(c, FIAT.ufc_simplex(c["dim"]))
        name = zany.label(c)
        counts = expected_counts(c)
    elif "trace" in case:
        import finat
        c, d = case["trace"]
        if c in ("quadrilateral", "hexahedron", "interval"):
            raise core.Skip("trace elements live on triangles and tetrahedra")
        elem = finat.HDivTrace(geom.cell_from(c), d)
        name = "HDivTrace %s %d" % (c, d)
        counts = {2: (0, d + 1, 0), 3: (0, 0, (d + 1) * (d + 2) // 2, 0)}[geom.DIM[c]]
    elif "quad" in case:
        import finat
        c, d = case["quad"]
        elem = finat.make_quadrature_element(geom.cell_from(c), d)
        name = "Quadrature %s %d" % (c, d)
    else:
        spec = case["spec"]
        name = json.dumps(spec)
        mod = model.model(spec)     # Skip where the family does not exist
        elem = model.build(spec)
    cell = elem.cell
    dofs = elem.entity_dofs()
    n = elem.space_dimension()
    rec.seen("maps")
    rec.key(name)
    rec.note({"element": name, "dofs": n})
    rec.check(n == model.prod(elem.index_shape), "dofs:size", "%s: space_dimension %s, index_shape %s" % (name, n, elem.index_shape))
    top = cell.get_topology()
    if not rec.check({d: set(es) for d, es in dofs.items()} == {d: set(es) for d, es in top.items()}, "dofs:entities",
                     "%s: the map's entities are not the cell's" % name):
        return
    allowed = sorted(int(k) for es in dofs.values() for ks in es.values() for k in ks)
    rec.check(allowed == list(range(n)), "dofs:partition", "%s: dofs are not each on exactly one entity: %s" % (name, allowed[:40]))
    if "spec" not in case or (case["spec"][0] == "leaf" and isinstance(case["spec"][2], str)):
        if geom.kind(cell) == "simplex":
            for d, es in dofs.items():
                rec.check(len({len(v) for v in es.values()}) == 1, "dofs:symmetric", "%s: dimension %s entities carry %s dofs"
                          % (name, d, {e: len(v) for e, v in es.items()}))
    if counts is not None:
        rec.seen("tabulated_dims")
        got = tuple(len(dofs[d][0]) for d in sorted(dofs))
        rec.check(got == counts, "dofs:published", "%s: %s dofs per entity, the literature has %s" % (name, got, counts))
    V = {}
    for d, es in top.items():
        for e in es:
            V[d, e] = geom.entity_vertices(cell, d, e)
    closure = elem.entity_closure_dofs()
    rec.check({d: set(es) for d, es in closure.items()} == {d: set(es) for d, es in top.items()}, "closure:entities",
              "%s: the closure map's entities are not the cell's" % name)
    sets = {k: {tuple(np.round(x, 9) + 0.0) for x in v} for k, v in V.items()}
    for (d, e), vs in sets.items():
        want = sorted(int(k) for (d2, e2), ws in sets.items() if ws <= vs for k in dofs[d2][e2])
        rec.seen("closures")
        got = [int(k) for k in closure[d][e]]
        if not rec.check(sorted(got) == want, "closure:union", "%s: closure of entity %s has dofs %s, its sub-entities carry %s"
                         % (name, (d, e), got[:30], want[:30])):
            return
        rec.check(got == sorted(got), "closure:sorted", "%s: closure dofs of %s are not sorted: %s" % (name, (d, e), got[:30]))
