import json

import numpy as np

from rv import core, geom, gemeval, model

PROPERTY = "C08"
ROUNDS = 6
RULE = ("a case is a drawn element (leaf, tensor product, flattened, vector-valued, enriched, mixed, H(div)/H(curl), nested) "
        "and every restriction domain valid in its dimension; the restricted basis is matched function by function (values and "
        "first derivatives at random points) against the original basis together with the entity each function belongs to. "
        "Distinct by (element, domain).")
MIN = {"restrictions": 300, "functions_matched": 1000, "empty": 30}
ASSUMPTIONS = ["the unrestricted element is right (decided by C01, C04-C07)"]

DIMS = {"vertex": 0, "edge": 1, "face": 2}


def cubelike(s):
    return all(x in ("interval", "quadrilateral") for x in model.cell_of(s))


def draw_nested(rng):
    """Products of products, plain or flattened, in either place."""
    if rng.random() < .3:
        inner = ["tpe", [model.rand_leaf(rng, "triangle", cap=2), model.rand_interval(rng, 2)]]
    else:
        inner = ["tpe", model.same_degree_intervals(rng, 2)]
        if rng.random() < .5:
            inner = ["flat", inner]
        elif rng.random() < .3:
            inner = ["tensor", inner, [2], bool(rng.integers(2))]
    outer = [inner, model.rand_interval(rng, 2)]
    s = ["tpe", outer if rng.random() < .7 else outer[::-1]]
    return ["tensor", s, [2], bool(rng.integers(2))] if rng.random() < .15 else s


def draw(rng):
    if rng.random() < .1:
        return draw_nested(rng)
    cell = model.pick(rng, model.CELLS)
    u = rng.random()
    if u < .15:
        s = model.rand_hwrap(rng, cap=2)
        return ["flat", s] if rng.random() < .4 and cubelike(s) else s
    if u < .3:
        a = model.rand_hwrap(rng, cap=2)
        c = model.cell_of(a)
        for _ in range(20):
            b = model.rand_hwrap(rng, op=a[0], cap=2)
            if model.cell_of(b) == c:
                s = ["enr", [a, b]]
                return ["flat", s] if rng.random() < .5 and cubelike(s) else s
        return a
    if u < .5:
        name, lo, hi = model.pick(rng, [("Lagrange", 1, 4), ("RaviartThomas", 1, 2), ("Nedelec", 1, 2), ("Regge", 0, 1),
                                        ("BrezziDouglasMarini", 1, 2), ("CrouzeixRaviart", 1, 1), ("KongMulderVeldhuizen", 1, 3),
                                        ("IntegratedLegendre", 1, 4), ("Bernstein", 1, 3), ("HellanHerrmannJohnson", 0, 1),
                                        ("Legendre", 0, 2), ("DiscontinuousLagrange", 0, 2), ("Bubble", 4, 4)])
        c = model.pick(rng, ["triangle", "tetrahedron"])
        kw = {}
        if name == "Lagrange" and rng.random() < .3:
            kw = {"variant": model.pick(rng, ["alfeld", "spectral", "equispaced"])}
        d = int(rng.integers(lo, hi + 1))
        if kw.get("variant") == "alfeld":
            d = min(d, 2)
        return model.leaf(name, c, d, **kw)
    if u < .6:
        base = model.rand_any(rng, cell, int(rng.integers(0, 2))) if rng.random() < .5 else model.rand_any(rng, cell, 0)
        return ["tensor", base, [int(i) for i in rng.integers(1, 4, int(rng.integers(1, 3)))], bool(rng.integers(2))]
    return model.rand_any(rng, cell, int(rng.integers(0, 3)))


def cases(rng, tier):
    n = 900 if tier == "quick" else 12000
    return [{"refuse": i, "seed": 0} for i in range(len(refusals()))] + [{"spec": model.safe(draw, rng), "seed": int(rng.integers(1 << 30))} for _ in range(n)]


NOT_RESTRICTABLE = ("Serendipity", "TrimmedSerendipity", "BrezziDouglasMariniCube", "Bernstein")


def flat_tab(elem, ps, order):
    n = model.prod(elem.index_shape)
    cols = []
    for a, v in sorted(elem.basis_evaluation(order, ps).items()):
        t = gemeval.flatpts(v, ps)
        t = t.reshape((t.shape[0], n, -1))
        cols.append(t.transpose(1, 0, 2).reshape(n, -1) / 10.0 ** sum(a))
    return np.concatenate(cols, axis=1)


def nodality(rec, r, what):
    """Restrictions of Ciarlet elements stay nodal: the dual applied to the
    restricted basis is the identity."""
    import gem
    try:
        Q, x = r.dual_basis
    except NotImplementedError:
        return
    t, = r.basis_evaluation(0, x).values()
    T = gemeval.flatpts(t, x)
    W = gemeval.flatpts(Q, x)
    n = r.space_dimension()
    M = np.einsum("pav,pbv->ab", W.reshape(len(W), n, -1), T.reshape(len(T), n, -1))
    err = float(np.abs(M - np.eye(n)).max())
    rec.seen("nodality")
    rec.check(err < 1e-7, "restrict:nodal", "%s: dual applied to the restricted basis is off the identity by %.2g" % (what, err))


def owners(elem):
    out = {}
    for d, es in elem.entity_dofs().items():
        for e, dofs in es.items():
            for k in dofs:
                out.setdefault(int(k), []).append((d, e))
    return out


def refusals():
    import finat
    T, I, Q = (geom.cell_from(c) for c in ("triangle", "interval", "quadrilateral"))
    from finat.quadrature import make_quadrature
    return [lambda: finat.make_quadrature_element(T, 2), lambda: finat.Argyris(T, 5), lambda: finat.Morley(T, 2),
            lambda: finat.Hermite(T, 3), lambda: finat.Bell(T, 5), lambda: finat.MardalTaiWinther(T, 3),
            lambda: finat.RuntimeTabulated(I, 2, variant="x"), lambda: finat.DirectSerendipity(Q, 2),
            lambda: finat.BernardiRaugel(T, 1), lambda: finat.EnrichedElement([finat.Argyris(T, 5), finat.Lagrange(T, 2)]),
            lambda: finat.TensorFiniteElement(finat.Morley(T, 2), (2,)),
            lambda: finat.HDivTrace(T, 1), lambda: finat.HDivTrace(geom.cell_from("tetrahedron"), 1),
            lambda: finat.TensorProductElement([finat.Hermite(I, 3), finat.Lagrange(I, 3)])]


def run(case, rec):
    if "refuse" in case:
        import finat
        elem = refusals()[case["refuse"]]()
        for domain in ("interior", "vertex", "edge", "facet"):
            rec.seen("refusal_probes")
            try:
                r = finat.RestrictedElement(elem, domain)
            except (NotImplementedError, ValueError):
                rec.seen("assertions")
                continue
            rec.check(isinstance(r, finat.finiteelementbase.FiniteElementBase) and r.space_dimension() > 0, "restrict:refusal",
                      "restricting %s to %s returned %r instead of an element or a refusal" % (type(elem).__name__, domain, r))
        return
    import finat
    from finat.point_set import PointSet
    rng = core.rng_for(case["seed"], "c08")
    spec = case["spec"]
    name = json.dumps(spec)
    if any(f.startswith(NOT_RESTRICTABLE) for f in model.features(spec)):
        raise core.Skip("family without a Ciarlet representation")
    mod = model.model(spec)
    if model.prod(mod.index_shape) * model.prod(mod.value_shape) > 1200:
        raise core.Skip("too large")
    elem = model.build(spec)
    cell = elem.cell
    dim = cell.get_spatial_dimension()
    pts = geom.random_points(rng, cell, 3)
    ps = PointSet(pts)
    full = None
    own = owners(elem)
    rec.note({"element": spec})
    for domain in ("interior", "vertex", "edge", "face", "facet"):
        if domain == "face" and dim < 2 or domain == "edge" and dim < 1:
            continue
        k = dim if domain == "interior" else DIMS.get(domain, dim - 1)
        keep = [i for i in range(elem.space_dimension())
                if (geom.entity_sdim(own[i][0][0]) == dim if domain == "interior" else geom.entity_sdim(own[i][0][0]) <= k)]
        rec.seen("restrictions")
        rec.key(name, domain)
        try:
            r = finat.RestrictedElement(elem, domain)
        except ValueError as e:
            if "empty" not in str(e):
                raise
            rec.seen("empty")
            rec.check(not keep, "restrict:empty", "%s: restriction to %s reported empty but %d functions live there" % (name, domain, len(keep)))
            continue
        if not rec.check(bool(keep), "restrict:nonempty", "%s: restriction to %s should be empty, has %d functions"
                         % (name, domain, r.space_dimension())):
            continue
        rec.check(r.cell == elem.cell, "restrict:cell", "%s|%s: cell changed" % (name, domain))
        if not rec.check(tuple(r.value_shape) == tuple(elem.value_shape), "restrict:value_shape",
                         "%s|%s: value shape %s, was %s" % (name, domain, r.value_shape, elem.value_shape)):
            continue
        if not rec.check(r.space_dimension() == len(keep), "restrict:dimension", "%s|%s: %d functions, expected %d"
                         % (name, domain, r.space_dimension(), len(keep))):
            continue
        rown = owners(r)
        rec.check(sorted(rown) == list(range(len(keep))) and all(len(v) == 1 for v in rown.values()),
                  "restrict:partition", "%s|%s: entity_dofs is not a partition" % (name, domain))
        if full is None:
            full = flat_tab(elem, ps, 1)
        got = flat_tab(r, ps, 1)
        scale = max(1.0, float(np.abs(full).max()))
        if spec[0] == "tensor" and spec[1][0] != "tensor":
            # a blocked element stays blocked in the same way
            base = finat.RestrictedElement(model.build(spec[1]), domain)
            blk = tuple(spec[2])
            want = blk + tuple(base.index_shape) if spec[3] else tuple(base.index_shape) + blk
            if rec.check(tuple(r.index_shape) == want, "restrict:blocks", "%s|%s: index shape %s, blocks of the restricted element give %s"
                         % (name, domain, r.index_shape, want)):
                ref = flat_tab(finat.TensorFiniteElement(base, blk, transpose=bool(spec[3])), ps, 1)
                rec.check(np.abs(ref - got).max() < 1e-9 * scale, "restrict:blocks", "%s|%s: is not the blocked restriction" % (name, domain))
            rec.seen("blocked")
        if spec[0] == "leaf" and spec[1] not in ("Legendre", "DiscontinuousLagrange"):
            nodality(rec, r, "%s|%s" % (name, domain))
        left = set(keep)
        for i in range(len(keep)):
            best = None
            for j in left:
                if own[j] == rown.get(i) and np.abs(full[j] - got[i]).max() < 1e-8 * scale:
                    best = j
                    break
            if best is None:
                anywhere = [j for j in range(len(full)) if np.abs(full[j] - got[i]).max() < 1e-8 * scale]
                rec.fail("restrict:function", "%s|%s: restricted function %d on %s is no unused original function on that entity (equal functions: %s on %s)"
                         % (name, domain, i, rown.get(i), anywhere, [own[j] for j in anywhere]))
                break
            left.discard(best)
            rec.seen("functions_matched")
        rec.seen("assertions")
