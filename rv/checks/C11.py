import json

import numpy as np

from rv import core, geom, model

model.MACRO_RATE = .12
PROPERTY = "C11"
ROUNDS = 10
RULE = ("a case is an element with nodal dofs (leaf, products, flattened and nested products, direct sums, wrappers); for every entity and "
        "orientation the advertised permutation must be a permutation of the entity's dofs, the identity for orientation zero, and move "
        "the dofs' node positions exactly as the orientation's symmetry moves the entity's vertices. Distinct by (element, entity dim).")
MIN = {"permutations": 2000, "node_checks": 1000, "elements": 150}
ASSUMPTIONS = ["FIAT's orientation convention on entity vertices (make_entity_permutations_*) is the convention"]

NODAL = ("Lagrange", "DiscontinuousLagrange", "GaussLobattoLegendre", "GaussLegendre", "CrouzeixRaviart", "FDMLagrange",
         "KongMulderVeldhuizen", "Bubble", "FacetBubble", "DPC", "Real", "FDMDiscontinuousLagrange", "FDMQuadrature")


def vertex_perms(cell):
    """{dim: {entity: {orientation: vertex permutation}}} in FIAT's convention."""
    from FIAT.orientation_utils import make_entity_permutations_simplex, make_entity_permutations_tensorproduct
    from FIAT.reference_element import flatten_permutations
    k = geom.kind(cell)
    top = cell.get_topology()
    if k == "simplex":
        return {d: {e: make_entity_permutations_simplex(d, 2 if d else 1) for e in es} for d, es in top.items()}
    if k == "cube":
        return flatten_permutations(vertex_perms(cell.product))
    parts = [vertex_perms(c) for c in cell.cells]
    out = {}
    for dim, es in top.items():
        out[dim] = {}
        for e in es:
            fe = geom.factor_entity(cell, dim, e)
            out[dim][e] = make_entity_permutations_tensorproduct(cell.cells, dim, [p[d][i] for p, (d, i) in zip(parts, fe)])
    return out


def nodes(spec):
    """One point per dof (None where a dof is not a point evaluation)."""
    op = spec[0]
    if op == "leaf":
        m = model.model(spec)
        out = []
        for L in m.fiat.dual_basis():
            pd = L.get_point_dict()
            ok = len(pd) == 1 and not getattr(L, "deriv_dict", {}) and all(len(v) == 1 and abs(v[0][0] - 1) < 1e-9 for v in pd.values())
            out.append(np.array(list(pd)[0], float) if ok else None)
        return out
    if op == "tpe":
        parts = [nodes(s) for s in spec[1]]
        out = [np.zeros(0)]
        for p in parts:
            out = [None if a is None or b is None else np.concatenate([a, b]) for a in out for b in p]
        return out
    if op in ("flat", "hdiv", "hcurl", "disc"):
        return nodes(spec[1])
    if op in ("enr",):
        return [x for s in spec[1] for x in nodes(s)]
    raise core.Skip("no nodes")


def labels(spec):
    """Which summand each dof belongs to (orientations permute within a summand)."""
    op = spec[0]
    if op == "leaf":
        return [""] * len(nodes(spec))
    if op == "tpe":
        out = [""]
        for s in spec[1]:
            out = [a + "," + b for a in out for b in labels(s)]
        return out
    if op == "enr":
        return ["%d%s" % (i, x) for i, s in enumerate(spec[1]) for x in labels(s)]
    return labels(spec[1])


def draw(rng):
    def nod1(r):
        nm, lo, hi = model.pick(r, [("Lagrange", 1, 4), ("DiscontinuousLagrange", 0, 3), ("GaussLobattoLegendre", 1, 4), ("GaussLegendre", 0, 3)])
        return model.leaf(nm, "interval", int(r.integers(lo, hi + 1)))

    def nodt(r, c):
        nm, lo, hi = model.pick(r, [("Lagrange", 1, 4), ("DiscontinuousLagrange", 0, 3), ("CrouzeixRaviart", 1, 1)])
        return model.leaf(nm, c, int(r.integers(lo, hi + 1)))

    def prod(r, n):
        s = ["tpe", [nod1(r) for _ in range(n)]]
        return ["flat", s] if r.random() < .6 else s
    u = rng.random()
    if u < .35:
        s = prod(rng, int(rng.integers(2, 4)))
    elif u < .5:
        s = ["tpe", [nodt(rng, "triangle"), nod1(rng)][::int(rng.choice([1, -1]))]]
    elif u < .65:
        s = ["tpe", [["flat", ["tpe", [nod1(rng), nod1(rng)]]], nod1(rng)]]
    elif u < .8:
        a = [model.leaf("Lagrange", "interval", int(rng.integers(1, 4))), model.leaf("DiscontinuousLagrange", "interval", int(rng.integers(0, 3)))]
        s = [model.pick(rng, ["hdiv", "hcurl"]), ["tpe", a[::int(rng.choice([1, -1]))]]]
        if rng.random() < .5:
            t = [s[0], ["tpe", s[1][1][::-1]]]
            s = ["enr", [s, t]]
        if rng.random() < .6:
            s = ["flat", s]
    else:
        c = model.pick(rng, ["interval", "triangle", "tetrahedron"])
        parts = [nodt(rng, c) for _ in range(int(rng.integers(2, 4)))]
        s = ["enr", parts]
        if c != "tetrahedron" and rng.random() < .4:
            s = ["tpe", [s, nod1(rng)]]
    if rng.random() < .15:
        c = model.pick(rng, ["interval", "triangle"])
        s = ["disc", model.leaf("DiscontinuousLagrange", c, int(rng.integers(0, 4)))]
    return s


def cases(rng, tier):
    out = [{"spec": s} for s in model.leaf_catalog() + model.deep_catalog() if "variant" not in s[4] or "," not in s[4]["variant"]]
    for _ in range(300 if tier == "quick" else 5000):
        s = model.safe(draw, rng)
        if s is not None:
            out.append({"spec": s})
    for c in ("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"):
        for d in (0, 1, 2, 3, 5):
            out.append({"quad": [c, d]})
    return out


def run(case, rec):
    if "quad" in case:
        import finat
        c, d = case["quad"]
        elem = finat.make_quadrature_element(geom.cell_from(c), d)
        name = "Quadrature %s %d" % (c, d)
        X = None
    else:
        spec = case["spec"]
        name = json.dumps(spec)
        mod = model.model(spec)
        if model.prod(mod.index_shape) > 1500:
            raise core.Skip("too large")
        elem = model.build(spec)
        X = None
    cell = elem.cell
    try:
        perms = elem.entity_permutations
    except NotImplementedError:
        rec.seen("refused")
        return
    if "spec" in case:
        if all(leaf[1] in NODAL for leaf in leaves(spec)):
            X = nodes(spec)
            L = np.array(labels(spec))
    rec.seen("elements")
    rec.note({"element": name})
    dofs = elem.entity_dofs()
    vp = vertex_perms(cell)
    top = cell.get_topology()
    if not rec.check({d: set(es) for d, es in perms.items()} == {d: set(es) for d, es in top.items()}, "perm:entities",
                     "%s: permutation map covers other entities than the cell has" % name):
        return
    for d, es in top.items():
        for e in es:
            ids = dofs[d][e]
            if not rec.check(set(perms[d][e]) == set(vp[d][e]), "perm:orientations", "%s, entity %s: orientations %s, expected %s"
                             % (name, (d, e), list(perms[d][e])[:12], list(vp[d][e])[:12])):
                return
            V = geom.entity_vertices(cell, d, e)
            for o, p in perms[d][e].items():
                p = [int(i) for i in p]
                rec.seen("permutations")
                if not rec.check(sorted(p) == list(range(len(ids))), "perm:bijection", "%s, entity %s, orientation %s: %s is not a permutation of its %d dofs"
                                 % (name, (d, e), o, p, len(ids))):
                    return
                zero = o == 0 or isinstance(o, tuple) and not any(np.ravel(o))
                if zero:
                    rec.check(p == list(range(len(ids))), "perm:identity", "%s, entity %s: orientation zero is %s" % (name, (d, e), p))
                if X is None or len(ids) < 1 or any(X[i] is None for i in ids):
                    continue
                q = vp[d][e][o]
                A1 = np.concatenate([V, np.ones((len(V), 1))], axis=1)
                M, *_ = np.linalg.lstsq(A1, V[q], rcond=None)
                x = np.array([X[i] for i in ids])
                want = np.concatenate([x, np.ones((len(x), 1))], axis=1) @ M
                got = x[p]
                lab = L[list(ids)]
                near = (np.abs(want[:, None] - x[None]).max(axis=2) + 9.0 * (lab[:, None] != lab[None])).min(axis=1)
                if near.max() > 1e-8:
                    rec.seen("not_a_symmetry_of_the_nodes")
                    continue
                rec.seen("node_checks")
                rec.key(name, d)
                if not rec.check(np.abs(want - got).max() < 1e-8, "perm:nodes",
                                 "%s, entity %s, orientation %s: permutation %s does not move the nodes as the orientation moves the vertices (%s)"
                                 % (name, (d, e), o, p, q)):
                    return


def leaves(spec):
    if spec[0] == "leaf":
        return [spec]
    if isinstance(spec[1][0], list):
        return [x for s in spec[1] for x in leaves(s)]
    return leaves(spec[1])
