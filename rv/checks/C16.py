import numpy as np

from rv import core, geom, zany

PROPERTY = "C16"
RULE = ("a case is a physically mapped (or Piola-mapped tensor-valued) element, a random physical simplex of either orientation, a "
        "derivative order and a cell or facet; the tabulated, transformed and pushed-forward basis is compared with the same FIAT "
        "family built directly on the physical cell. Distinct by (element, orientation, order, entity dimension, cell).")
MIN = {"physical_tabulations": 150, "elements": 60, "composites": 60, "refusals": 100}
ASSUMPTIONS = ["FIAT builds the families correctly on an arbitrary (physical) simplex"]


# families whose reference basis needs no geometry, only their Piola map does
REFERENCE_ONLY = {"Regge", "HellanHerrmannJohnson", "GopalakrishnanLedererSchoberlFirstKind", "GopalakrishnanLedererSchoberlSecondKind"}


def cases(rng, tier):
    cat = zany.catalog()
    reps = 3 if tier == "quick" else 40
    out = []
    for r in range(reps):
        for c in cat:
            if c["name"] == "ArnoldQin":
                continue
            heavy = c["dim"] == 3 and (c["kw"].get("order", 0) == 2 or c["name"] == "GuzmanNeilanH1div")
            if heavy and r % 3:
                continue
            out.append({"el": c, "sign": int((-1) ** r), "seed": int(rng.integers(1 << 30)), "heavy": heavy})
    out.sort(key=lambda c: not c["heavy"])
    return out


def run(case, rec):
    import FIAT
    c = case["el"]
    rng = core.rng_for(case["seed"], "c16")
    dim = c["dim"]
    name = zany.label(c)
    ref = FIAT.ufc_simplex(dim)
    v = zany.random_simplex(rng, dim, case["sign"], qmin=0.06, scale=float(rng.choice([0.3, 1.0, 1.0, 4.0])))
    K = zany.simplex(v)
    elem = zany.build(c, ref)
    kw = dict(c["kw"])
    noavg = kw.get("avg") is False or (c["name"] in ("Argyris", "HsiehCloughTocher") and "avg" not in kw and kw.get("variant") != "point")
    phys = zany.build(c, K).fiat_equivalent
    geo = zany.Geometry(ref, v, symbolic=bool(rng.random() < (.4 if dim == 2 and c["kw"].get("degree", 0) < 4 or case["sign"] > 0 and c["name"] != "HuZhang" else .05)))
    rec.seen("runtime_geometry", int(geo.symbolic))
    if rng.random() < .5 and dim == 2:
        # the conventions of FIAT's own physical cell
        geo.normals = np.array([K.compute_normal(i) for i in range(3)])
        geo.tangents = np.array([K.compute_normalized_edge_tangent(i) for i in range(3)])
    n = elem.space_dimension()
    rec.seen("elements")
    rec.note({"element": name, "vertices": v.tolist()})
    lens = None
    if noavg:
        lens = [np.linalg.norm(geo.v[b] - geo.v[a]) for a, b in geo.edges]
    order = int(rng.integers(0, 2 if case["heavy"] else 3))
    if rng.random() < .2 and n <= 30 and dim == 2:
        order = min(elem.degree + 1, 6)
    for dd in (dim, dim - 1):
        e = int(rng.integers(len(ref.get_topology()[dd])))
        sub = ref.construct_subelement(dd)
        X = geom.random_points(rng, sub, 5 if dd else 1)
        T = zany.physical_tables(elem, geo, X, order if dd == dim else 0, entity=(dd, e))
        Xc = X if dd == dim else np.array([ref.get_entity_transform(dd, e)(x) for x in X])
        W = phys.tabulate(order if dd == dim else 0, geo.push(Xc))
        rec.seen("physical_tabulations")
        rec.key(name, case["sign"], order, dd, v.round(3).tolist())
        scale = max(1.0, max(float(np.abs(w).max()) for w in W.values()))
        for a in T:
            w = np.moveaxis(W[a], -1, 0)[:, :n]
            if noavg:
                # dofs are integrals instead of averages: some edge functions are divided by the edge length
                w = w.copy()
                dofs = elem.entity_dofs()[1]
                for f in dofs:
                    for k in dofs[f]:
                        w1 = w[:, k] / lens[f]
                        if np.abs(T[a][:, k] - w1).max() <= np.abs(T[a][:, k] - w[:, k]).max():
                            w[:, k] = w1
            err = float(np.abs(T[a] - w).max()) / scale
            bad = int(np.argmax(np.abs(T[a] - w).reshape(T[a].shape[0], n, -1).max(axis=(0, 2))))
            rec.seen("values", int(T[a].size))
            rec.seen("functions", n)
            if not rec.check(err < 1e-7, "zany:mapping",
                             "%s on a %s cell, derivative %s, dim-%d entity %d: function %d differs by %.2g (relative) from the "
                             "element built on the physical cell" % (name, "positive" if case["sign"] > 0 else "negative", a, dd, e, bad, err)):
                return
    if not case["heavy"] and n * max(1, int(np.prod(elem.value_shape))) < 200:
        degree(rec, rng, elem, geo, ref, name)
    if not case["heavy"] and n <= 45:
        inside(rec, rng, c, elem, geo, ref, min(order, 1), name)


def degree(rec, rng, elem, geo, ref, name):
    """On every piece the basis consists of polynomials of the reported degree, and no less."""
    dim = ref.get_spatial_dimension()
    pieces = elem.complex
    V = np.array(pieces.get_vertices(), float)
    top = pieces.get_topology()[dim]
    S = V[list(top[int(rng.integers(len(top)))])]
    k = elem.degree
    for deg in (k, k - 1):
        A = [np.array(a) for a in geom.all_multiindices(dim, deg)] if deg >= 0 else []
        N = len(geom.all_multiindices(dim, k)) + 6
        lam = rng.dirichlet(np.ones(dim + 1), N)
        X = lam @ S
        geo.symbolic = False
        T = zany.physical_tables(elem, geo, X)[(0,) * dim].reshape(N, -1)
        P = np.array([np.prod((2 * lam[:, 1:] - .6) ** a, axis=1) for a in A]).T.reshape(N, len(A))
        c = np.linalg.lstsq(P, T, rcond=None)[0]
        err = float(np.abs(P @ c - T).max()) / max(1., float(np.abs(T).max()))
        rec.seen("degrees")
        if deg == k:
            rec.check(err < 1e-7, "zany:degree", "%s: reported degree %d, but the basis is not of that degree on a piece (%.2g)" % (name, k, err))
        elif elem.complex is elem.cell:
            rec.check(err > 1e-9, "zany:degree-sharp", "%s: reported degree %d, but the whole basis has degree %d" % (name, k, k - 1))


def inside(rec, rng, c, elem, geo, ref, order, name):
    """The same basis inside blocked, enriched and mixed elements, and no basis
    at all without the geometry."""
    import finat
    from finat.point_set import PointSet
    from rv import gemeval
    dim = c["dim"]
    geo.symbolic = False
    m = geo.mapping()
    dd = dim if rng.random() < .6 else dim - 1
    ent = (dd, int(rng.integers(len(ref.get_topology()[dd]))))
    if dd < dim:
        order = 0
    X = geom.random_points(rng, ref.construct_subelement(dd), 3)
    ps = PointSet(X)
    T = {a: t.reshape((len(X), -1) + tuple(elem.value_shape)) for a, t in gemeval.tab(elem, order, ps, ent, coordinate_mapping=m).items()}
    n = elem.space_dimension()
    vs = tuple(elem.value_shape)
    how = ["block", "enriched", "mixed", "nested"][int(rng.integers(4))]
    tr = bool(rng.integers(2))
    if how == "block":
        w = finat.TensorFiniteElement(elem, (2,), transpose=tr)

        def expect(a):
            out = np.zeros((len(X),) + ((2, n) if tr else (n, 2)) + (2,) + vs)
            for k in range(2):
                for i in range(n):
                    out[(slice(None),) + ((k, i) if tr else (i, k)) + (k,)] = T[a][:, i]
            return out
    elif how == "enriched":
        w = finat.EnrichedElement([elem, zany.build(c, ref)])
        expect = lambda a: np.concatenate([T[a], T[a]], axis=1)
    else:
        lag = finat.Lagrange(ref, 1)
        first = finat.TensorFiniteElement(elem, (2,)) if how == "nested" else elem
        L = {a: t for a, t in gemeval.tab(lag, order, ps, ent).items()}
        w = finat.MixedElement([first, lag])

        def expect(a):
            t = T[a].reshape(len(X), n, -1)
            if how == "nested":
                t = np.einsum("qiv,kl->qiklv", t, np.eye(2)).reshape(len(X), 2 * n, -1)
            out = np.zeros((len(X), t.shape[1] + dim + 1, t.shape[2] + 1))
            out[:, :t.shape[1], :-1] = t
            out[:, t.shape[1]:, -1] = L[a]
            return out
    try:
        got = gemeval.tab(w, order, ps, ent, coordinate_mapping=m)
    except Exception as e:
        rec.fail("zany:inside", "%s inside a %s element: %s %s" % (name, how, type(e).__name__, e))
        return
    rec.seen("composites")
    for a, g in got.items():
        want = expect(a)
        if not rec.check(g.size == want.size, "zany:inside", "%s inside a %s element: table shape %s" % (name, how, g.shape)):
            return
        err = float(np.abs(g.reshape(-1) - want.reshape(-1)).max())
        scale = max(1., float(np.abs(want).max()))
        if not rec.check(err < 1e-9 * scale, "zany:inside", "%s inside a %s element (transpose %s), derivative %s: off by %.2g" % (name, how, tr, a, err)):
            return
    if c["name"] in REFERENCE_ONLY:
        return
    for e in (elem, w):
        for ask in (lambda: gemeval.tab(e, 0, ps, ent), lambda: gemeval.ptab(e, 0, X, ent)):
            rec.seen("refusals")
            try:
                ask()
            except Exception:
                continue
            rec.fail("zany:no-geometry", "%s (%s) was tabulated without the geometry of the cell" % (name, type(e).__name__))
            return
