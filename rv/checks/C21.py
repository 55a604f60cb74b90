import numpy as np

from rv import core, gemeval, geom

PROPERTY = "C21"
ROUNDS = 2
RULE = ("a case is a degree and a random convex quadrilateral (also of reversed orientation), evaluated at interior, boundary and node points: nodality "
        "at vertices and edge nodes, zero traces off the closure, edge traces depending only on the shared vertices, reproduction of all polynomials of the "
        "degree with derivatives, and derivatives matching difference quotients. Distinct by (degree, geometry).")
MIN = {"nodal_values": 500, "polynomials": 300, "edge_traces": 300, "derivatives": 300, "interior_nodal_values": 300}
ASSUMPTIONS = ["bilinear reference-to-physical map"]


def cases(rng, tier):
    out = []
    q = tier == "quick"
    for d, n in ((1, 40), (2, 40), (3, 30), (4, 14), (5, 5), (6, 2)):
        for _ in range(n if q else n * 12):
            out.append({"degree": d, "seed": int(rng.integers(1 << 30))})
    return out[::-1]


def quad(rng):
    """Convex quadrilateral in reference vertex order (0,0),(0,1),(1,0),(1,1)."""
    while True:
        base = np.array([[0., 0.], [0., 1.], [1., 0.], [1., 1.]]) + rng.uniform(-.3, .3, (4, 2))
        A = rng.uniform(-1, 1, (2, 2))
        if abs(np.linalg.det(A)) < .3:
            continue
        v = base @ A.T + rng.uniform(-1, 1, 2)
        loop = v[[0, 1, 3, 2]]
        cr = [cross(loop[(i + 1) % 4] - loop[i], loop[(i + 2) % 4] - loop[(i + 1) % 4]) for i in range(4)]
        if (min(cr) > .1 or max(cr) < -.1):
            return v


def make_mapping(verts):
    import gem
    from finat.physically_mapped import PhysicalGeometry

    class Mapping(PhysicalGeometry):
        def no(self, *a):
            raise NotImplementedError
        cell_size = jacobian_at = detJ_at = reference_normals = physical_normals = physical_tangents = physical_edge_lengths = no

        def physical_points(self, ps, entity=None):
            x = np.asarray(ps.points, float)
            if entity is not None:
                x = geom.map_points(geom.cell_from("quadrilateral"), entity[0], entity[1], x)
            p = push(verts, x)
            return gem.Literal(p.reshape(tuple(i.extent for i in ps.indices) + (2,)))

        def physical_vertices(self):
            return gem.Literal(verts)
    return Mapping()


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def push(v, x):
    a, b = x[:, :1], x[:, 1:]
    return v[0] * (1 - a) * (1 - b) + v[1] * (1 - a) * b + v[2] * a * (1 - b) + v[3] * a * b


def run(case, rec):
    import gem
    from finat.point_set import PointSet, TensorPointSet
    import finat
    rng = core.rng_for(case["seed"], "c21")
    k = case["degree"]
    K = geom.cell_from("quadrilateral")
    elem = finat.DirectSerendipity(K, k)
    name = "DirectSerendipity(%d)" % k
    n = 4 if k == 1 else (k + 1) * (k + 2) // 2 + 2
    rec.check(elem.degree == k and elem.formdegree == 0 and elem.value_shape == () and elem.cell == K and elem.complex == K
              and elem.mapping == "physical", "attributes", "%s: attributes (mapping %s)" % (name, elem.mapping))
    if not rec.check(elem.space_dimension() == n and elem.index_shape == (n,), "size", "%s: %s dofs, should be %d" % (name, elem.space_dimension(), n)):
        return
    ed = elem.entity_dofs()
    rec.check(sorted(x for es in ed.values() for v in es.values() for x in v) == list(range(n)), "dofs:partition", "%s: %s" % (name, ed))
    rec.check([len(ed[0][v]) for v in range(4)] == [1] * 4 and [len(ed[1][e]) for e in range(4)] == [k - 1] * 4, "dofs:counts", "%s: %s" % (name, ed))
    verts = quad(rng)
    m = make_mapping(verts)
    rec.note({"degree": k, "vertices": verts.tolist()})
    rec.key(k, case["seed"])

    def tab(x, order, entity=None):
        ps = PointSet(x)
        return {a: gemeval.flatpts(t, ps) for a, t in elem.basis_evaluation(order, ps, entity, coordinate_mapping=m).items()}
    # nodality at vertices and equispaced edge nodes
    R = np.array(K.get_vertices(), float)
    top = K.get_topology()
    nodes, owner = [], []
    for v in range(4):
        nodes.append(R[v])
        owner.append(ed[0][v][0])
    for e in range(4):
        a, b = R[list(top[1][e])]
        for i, dof in enumerate(ed[1][e]):
            nodes.append(a + (b - a) * (i + 1) / k)
            owner.append(dof)
    T = tab(np.array(nodes), 0)[(0, 0)]
    big = 1e-8 * max(1, np.abs(T).max()) * 10 ** max(0, k - 3)
    for r, o in enumerate(owner):
        want = np.zeros(n)
        want[o] = 1
        rec.seen("nodal_values", n)
        err = np.abs(T[r] - want).max()
        rec.check(err < big, "nodal", "%s: at the node of dof %d the basis is off by %.3g" % (name, o, err))
    # the cell's own nodes: the centroid, then a triangular lattice in the corner triangle of the first three vertices
    inner = ed[2][0]
    if k >= 4 and rec.check(len(inner) == (k - 2) * (k - 3) // 2, "dofs:counts", "%s: %d interior dofs" % (name, len(inner))):
        if k == 4:
            nd = verts.mean(axis=0)[None]
        else:
            d0, d1 = (verts[1] - verts[0]) / (k - 2), (verts[2] - verts[0]) / (k - 2)
            nd = np.array([verts[0] + (1 + j) * d0 + (1 + (k - 4) - i - j) * d1 for i in range(k - 4, -1, -1) for j in range(k - 4 - i, -1, -1)])
        mm = make_mapping(verts)
        mm.physical_points = lambda ps, entity=None: gem.Literal(nd)
        ps = PointSet(np.zeros_like(nd))
        T = gemeval.flatpts(elem.basis_evaluation(0, ps, coordinate_mapping=mm)[(0, 0)], ps)
        for r, o in enumerate(inner):
            want = np.zeros(n)
            want[o] = 1
            rec.seen("interior_nodal_values", n)
            err = np.abs(T[r] - want).max()
            rec.check(err < 1e-8 * max(1, np.abs(T).max()) * 10 ** (k - 3), "nodal:interior", "%s: at the interior node of dof %d the basis is off by %.3g" % (name, o, err))
    # traces on the edges
    closure = elem.entity_closure_dofs()
    s = np.sort(rng.uniform(0.02, .98, 4)).reshape(-1, 1)
    for e in range(4):
        va, vb = top[1][e]
        rec.check(sorted(closure[1][e]) == sorted([ed[0][va][0], ed[0][vb][0]] + list(ed[1][e])), "closure", "%s: closure of edge %d" % (name, e))
        t = tab(s, 0, (1, e))[(0, 0)]
        t2 = tab(geom.map_points(K, 1, e, s), 0)[(0, 0)]
        rec.check(np.abs(t - t2).max() < big, "entity", "%s: edge %d tabulated as an entity and by points differ" % (name, e))
        # 1D Lagrange basis in the edge parameter: this is what neighbours see
        par = np.concatenate([[0., 1.], np.arange(1, k) / k])
        L = np.array([np.prod([(s[:, 0] - par[j]) / (par[i] - par[j]) for j in range(k + 1) if j != i], axis=0) for i in range(k + 1)]).T
        want = np.zeros((len(s), n))
        want[:, [ed[0][va][0], ed[0][vb][0]] + list(ed[1][e])] = L
        rec.seen("edge_traces", n)
        err = np.abs(t - want).max()
        rec.check(err < big, "trace", "%s: the trace on edge %d differs from the edge's own interpolation basis by %.3g" % (name, e, err))
    # polynomial reproduction with derivatives
    x = rng.uniform(.05, .95, (12, 2))
    y = push(verts, x)
    order = 2 if k < 6 else 1
    t = tab(x, order)
    many = rng.uniform(0.02, .98, (3 * n, 2))
    A = tab(many, 0)[(0, 0)]
    ym = push(verts, many)
    for i in range(k + 1):
        for j in range(k + 1 - i):
            f = ym[:, 0] ** i * ym[:, 1] ** j
            c, *_ = np.linalg.lstsq(A, f, rcond=None)
            rec.seen("polynomials")
            res = np.abs(A @ c - f).max()
            if not rec.check(res < 1e-7, "reproduce", "%s: x^%d y^%d is not in the space (residual %.3g)" % (name, i, j, res)):
                continue
            # nodal coefficients
            yn = push(verts, np.array(nodes))
            cn = yn[:, 0] ** i * yn[:, 1] ** j
            rec.check(np.abs(c[owner] - cn).max() < 1e-6, "reproduce:nodal", "%s: coefficients of x^%d y^%d are not its node values" % (name, i, j))
            for al in t:
                want = dmon(i, al[0], y[:, 0]) * dmon(j, al[1], y[:, 1])
                got = t[al] @ c
                rec.check(np.abs(got - want).max() < 1e-5 * 10 ** sum(al), "reproduce:derivative", "%s: d%s of x^%d y^%d is off by %.3g"
                          % (name, al, i, j, np.abs(got - want).max()))
    rec.check(np.linalg.matrix_rank(A, tol=1e-9) == n, "independent", "%s: functions are linearly dependent" % name)
    # derivatives by difference quotients in physical space
    h = 1e-4

    class Shift:
        pass

    def at_phys(p, o):
        mm = make_mapping(verts)
        mm.physical_points = lambda ps, entity=None: gem.Literal(p)
        ps = PointSet(x)
        return {a: gemeval.flatpts(tt, ps) for a, tt in elem.basis_evaluation(o, ps, coordinate_mapping=mm).items()}
    for ax in (0, 1):
        dv = np.zeros(2)
        dv[ax] = h
        p1, m1, p2, m2 = (at_phys(y + c * dv, order - 1) for c in (1, -1, 2, -2))
        for al in p1:
            fd = (8 * (p1[al] - m1[al]) - (p2[al] - m2[al])) / (12 * h)
            b = list(al)
            b[ax] += 1
            got = t[tuple(b)]
            rec.seen("derivatives", got.size)
            err = np.abs(got - fd).max()
            sc = max(1, np.abs(got).max())
            rec.check(err < 2e-5 * sc, "derivative", "%s: d%s is off the difference quotient by %.3g (scale %.3g)" % (name, tuple(b), err, sc))
    # structured points
    from finat.point_set import TensorPointSet
    tp = TensorPointSet([PointSet(x[:2, :1]), PointSet(x[:3, 1:])])
    got = gemeval.flatpts(elem.basis_evaluation(0, tp, coordinate_mapping=make_mapping(verts))[(0, 0)], tp)
    want = tab(np.asarray(tp.points), 0)[(0, 0)]
    rec.check(got.shape == want.shape and np.abs(got - want).max() < big, "structured", "%s: structured points give other values" % name)
    for f, ok in ((lambda: elem.point_evaluation(0, gem.Variable("X", (2,))), (NotImplementedError,)),
                  (lambda: finat.DirectSerendipity(geom.cell_from("triangle"), 1), (AssertionError,))):
        try:
            f()
        except ok:
            continue
        rec.fail("refuse", "%s: an unsupported request was answered" % name)


def dmon(i, a, x):
    c = 1.0
    for q in range(a):
        c *= i - q
    return c * x ** max(i - a, 0) if c else np.zeros_like(x)
