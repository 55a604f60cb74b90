import json

import numpy as np

from rv import core, gemeval, geom, model, points, tabcheck, zany

PROPERTY = "C32"
RULE = ("a case is one or two elements on a cell, a set of points with weights on the cell or on facets, and a form: a sum of products of derivatives of test, trial and "
        "coefficient functions, each evaluated separately. The assembled expression is executed as it stands and after each preprocessing that kernel compilers apply "
        "(unconcatenation, sum factorisation, delta elimination, unrolling, zero folding), and compared with a reference assembled with numpy. "
        "Distinct by (elements, form shape, points).")
MIN = {"forms": 300, "kernels_run": 1000, "bilinear": 150, "with_coefficient": 150, "two_sided": 40, "mapped": 20, "quadrature_elements": 20, "runtime_elements": 100}
ASSUMPTIONS = ["the GEM passes preserve values of well-formed expressions"]
ROUNDS = 1


def draw(rng):
    u = rng.random()
    if u < .2:
        s = model.rand_hwrap(rng, cap=2)
        if rng.random() < .5 and "triangle" not in json.dumps(s):
            s = ["flat", s]
    elif u < .35:
        cat = model.leaf_catalog()
        s = cat[int(rng.integers(len(cat)))]
    else:
        s = model.rand_any(rng, model.pick(rng, model.CELLS), int(rng.integers(0, 3)))
    c = model.cell_of(s)
    if rng.random() < .4:
        t = s
    else:
        t = model.rand_any(rng, c, int(rng.integers(0, 2)))
    return s, t


def cases(rng, tier):
    out = []
    for _ in range(450 if tier == "quick" else 15000):
        for _ in range(20):
            try:
                s, t = draw(rng)
                model.model(s), model.model(t)
            except core.Skip:
                continue
            if model.cell_of(s) == model.cell_of(t):
                break
        else:
            continue
        out.append({"specs": [s, t], "seed": int(rng.integers(1 << 30))})
    cat = [c for c in zany.catalog() if c["dim"] == 2 and c["kw"].get("degree", 0) <= (3 if c["name"] == "HuZhang" else 5)]
    for _ in range(30 if tier == "quick" else 600):
        cs = [cat[int(rng.integers(len(cat)))] for _ in range(2)]
        out.append({"zany": cs if rng.random() < .6 else [cs[0], cs[0]], "wrap": [str(x) for x in rng.choice(["plain", "block", "enr", "mix"], 2)], "seed": int(rng.integers(1 << 30))})
    special = []
    for _ in range(40 if tier == "quick" else 600):
        special.append({"quad": model.pick(rng, model.CELLS), "shape": [[], [2], [2, 2], []][int(rng.integers(4))], "seed": int(rng.integers(1 << 30))})
    for _ in range(160 if tier == "quick" else 3000):
        special.append({"runtime": rand_runtime(rng), "seed": int(rng.integers(1 << 30))})
    return special + [c for c in out if "zany" in c] + [c for c in out if "zany" not in c]


def rand_runtime(rng):
    """A few runtime tabulated elements for one form, alike in all but one respect or so."""
    def one():
        return {"degree": int(rng.integers(1, 4)), "variant": model.pick(rng, ["alpha", "beta"]), "continuous": bool(rng.integers(2)),
                "restriction": model.pick(rng, [None, "+", "-"]), "shift_axes": int(rng.integers(0, 3))}
    a = one()
    b = dict(a)
    for k in rng.permutation(sorted(a))[:int(rng.choice([0, 1, 1, 1, 1, 2]))]:
        while b[str(k)] == a[str(k)]:
            b[str(k)] = one()[str(k)]
    n = int(rng.integers(1, 3))
    out = []
    for e in (a, b):
        out.append([dict(e) for _ in range(n)])
        if n == 2:
            # the axis of the point set a factor is tabulated along
            out[-1][0]["shift_axes"], out[-1][1]["shift_axes"] = a["shift_axes"], a["shift_axes"] + 1
            if rng.random() < .5:
                out[-1][1]["degree"] = int(rng.integers(1, 4))
    return out


class Side:
    """An element with its numeric tables, independent of the expression under test."""

    def __init__(self, elem, tab, kw, bind=None):
        self.elem, self.tab, self.kw, self.bind = elem, tab, kw, bind


def term_expr(side, order, alpha, ps, ent, i, comp, bind):
    """Indexed table: a fresh evaluation, as a form compiler asks for it."""
    import gem
    t = side.elem.basis_evaluation(order, ps, ent, **side.kw)[alpha]
    if side.bind is not None:
        bind.update(side.bind(t, alpha))
    return gem.Indexed(t, i + comp)


def quad_sides(rng, case, shape):
    """A quadrature element, evaluated at its own points (perhaps another copy of them)."""
    import finat
    from finat.quadrature import make_quadrature
    cell = geom.cell_from(case["quad"])
    dim = cell.get_dimension()
    degree = tuple(int(rng.integers(0, 3)) for _ in dim) if isinstance(dim, tuple) else int(rng.integers(0, 4))
    rule = make_quadrature(cell, degree)
    q = finat.QuadratureElement(cell, rule)
    transpose = bool(rng.integers(2))
    e = finat.TensorFiniteElement(q, tuple(shape), transpose=transpose) if shape else q
    zero = (0,) * cell.get_spatial_dimension()
    n = model.prod(q.index_shape)

    def tab(order, x, ent):
        t = np.eye(n)
        if shape:
            k = model.prod(shape)
            t = np.einsum("qi,ab->qaib" if transpose else "qi,ab->qiab", t, np.eye(k))
        return {zero: t.reshape((n,) + e.index_shape + e.value_shape)}
    again = rule if rng.random() < .5 else make_quadrature(geom.cell_from(case["quad"]), degree)
    return cell, Side(e, tab, {}), again


def runtime_side(rng, spec, tables):
    """A (product of) runtime tabulated elements; numbers are attached to the names it asks for."""
    import FIAT
    import finat
    import gem
    from gem.node import traversal
    I = FIAT.ufc_simplex(1)
    parts = [finat.RuntimeTabulated(I, e["degree"], variant=e["variant"], continuous=e["continuous"], restriction=e["restriction"], shift_axes=e["shift_axes"]) for e in spec]
    elem = parts[0] if len(parts) == 1 else finat.TensorProductElement(parts)

    def numbers(k, a):
        key = json.dumps([spec[k], a])
        if key not in tables:
            tables[key] = rng.standard_normal((tables["points"][k], spec[k]["degree"] + 1))
        return tables[key]

    def tab(order, x, ent):
        out = {}
        for alpha in np.ndindex(*(order + 1,) * len(parts)):
            if sum(alpha) > order:
                continue
            t = numbers(0, alpha[0])
            if len(parts) == 2:
                t = np.einsum("pi,qj->pqij", t, numbers(1, alpha[1])).reshape((-1,) + elem.index_shape)
            out[alpha] = t
        return out

    def bind(t, alpha):
        got = {}
        want = [p.basis_evaluation(a, ps)[(a,)] for p, a, ps in zip(parts, alpha, tables["sets"])]
        names = []
        for w in want:
            v, = [n for n in traversal([w]) if isinstance(n, gem.Variable)]
            names.append(v)
        for k, v in enumerate(names):
            got[v] = numbers(k, alpha[k]).reshape(v.shape)
        return got
    return Side(elem, tab, {}, bind)


def unit(d, order, rng):
    a = [0] * d
    for _ in range(int(rng.integers(0, order + 1))):
        a[int(rng.integers(d))] += 1
    return tuple(a)


def run(case, rec):
    import gem
    from finat.point_set import PointSet
    rng = core.rng_for(case["seed"], "c32")
    macro = False
    special = None
    if "quad" in case:
        cell, A, rule = quad_sides(rng, case, case["shape"])
        B = A
        if model.prod(A.elem.index_shape) > 60:
            raise core.Skip("large")
        if rng.random() < .5:
            for _ in range(10):
                s = model.rand_any(rng, case["quad"], int(rng.integers(0, 2)))
                m = model.model(s)
                if model.prod(m.index_shape) * model.prod(m.value_shape) <= 60:
                    B = Side(model.build(s), lambda order, x, ent: m.tab(order, x, ent), {})
                    break
        names = ["quadrature element %s %s" % (case["quad"], case["shape"]), "itself" if B is A else json.dumps(s)]
        sides, same, maxord = [A, B], B is A, 0
        x = np.asarray(rule.point_set.points, float).reshape(-1, cell.get_spatial_dimension())
        special = rule.point_set, x, rule.weight_expression, gemeval.arr(rule.weight_expression, rule.point_set.indices).reshape(-1), {}
        rec.seen("quadrature_elements")
    elif "runtime" in case:
        import FIAT
        from finat.point_set import TensorPointSet
        from gem import Indexed, Variable
        n = len(case["runtime"][0])
        cell = FIAT.ufc_simplex(1) if n == 1 else FIAT.reference_element.TensorProductCell(*[FIAT.ufc_simplex(1)] * 2)
        pts = [rng.random((int(rng.integers(1, 4)), 1)) for _ in range(n)]
        sets = [PointSet(p) for p in pts]
        tables = {"points": [len(p) for p in pts], "sets": sets}
        sides = [runtime_side(rng, s, tables) for s in case["runtime"]]
        names = [json.dumps(s) for s in case["runtime"]]
        same, maxord = names[0] == names[1], 2
        ps = sets[0] if n == 1 else TensorPointSet(sets)
        sh = tuple(i.extent for i in ps.indices)
        W = Variable("w", sh)
        wv = rng.standard_normal(sh)
        special = ps, np.asarray(ps.points, float).reshape(-1, n), Indexed(W, ps.indices), wv.reshape(-1), {W: wv}
        rec.seen("runtime_elements")
    elif "zany" in case:
        import FIAT
        import finat
        dim = 2
        cell = FIAT.ufc_simplex(dim)
        g = zany.Geometry(cell, zany.random_simplex(rng, dim), h=rng.uniform(.5, 2, dim + 1))
        kw = {"coordinate_mapping": g.mapping()}

        def wrapped(c, how):
            e = zany.build(c, FIAT.ufc_simplex(dim))
            if how == "block":
                return finat.TensorFiniteElement(e, (2,), transpose=bool(case["seed"] % 2))
            if how == "enr" and not e.value_shape:
                return finat.EnrichedElement([e, finat.Bubble(cell, 3)])
            if how == "mix":
                return finat.MixedElement([e, finat.Lagrange(cell, 1)])
            return e
        names = [zany.label(c) + ":" + w for c, w in zip(case["zany"], case["wrap"])]
        sides = []
        for c, w in zip(case["zany"], case["wrap"]):
            def tab(order, x, ent, c=c, w=w):
                return gemeval.tab(wrapped(c, w), order, PointSet(x), ent, **kw)
            try:
                sides.append(Side(wrapped(c, w), tab, kw))
            except (NotImplementedError, ValueError, AssertionError):
                raise core.Skip("not combinable")
        same = names[0] == names[1]
        maxord, macro = 1, True
        rec.seen("mapped")
    else:
        specs = case["specs"]
        names = [json.dumps(s) for s in specs]
        mods = [model.model(s) for s in specs]
        cell = mods[0].cell
        macro = any(m.macro for m in mods)
        sides = []
        for s, m in zip(specs, mods):
            if model.prod(m.index_shape) * model.prod(m.value_shape) > 160:
                raise core.Skip("large")
            sides.append(Side(model.build(s), lambda order, x, ent, m=m: m.tab(order, x, ent), {}))
        same = specs[0] == specs[1]
        maxord = 1
    if same and rng.random() < .6:
        sides[1] = Side(sides[0].elem, sides[1].tab, sides[1].kw, sides[1].bind)
    A, B = sides
    d = cell.get_spatial_dimension()
    ents = [None] + geom.entities(cell)
    ent = ents[int(rng.integers(len(ents)))] if rng.random() < .5 and special is None else None
    ent2 = ent
    if ent is not None and rng.random() < .6:
        cand = [e for e in ents[1:] if e[0] == ent[0]]
        ent2 = cand[int(rng.integers(len(cand)))]
    sub = tabcheck.sub_of(cell, ent)
    sub2 = tabcheck.sub_of(cell, ent2)
    if type(sub) is not type(sub2) or sub.get_spatial_dimension() != sub2.get_spatial_dimension() or np.shape(sub.get_vertices()) != np.shape(sub2.get_vertices()):
        ent2 = ent
    order = maxord
    if macro and ent is not None and geom.entity_sdim(ent[0]) < d:
        order = 0
    if special is not None:
        ps, x, we, wts, bind = special
    elif rng.random() < .5 and not macro:
        from finat.quadrature import make_quadrature
        rule = make_quadrature(sub, int(rng.integers(1, 4)))
        ps, we = rule.point_set, rule.weight_expression
        wts = gemeval.arr(we, ps.indices).reshape(-1)
        x = np.asarray(ps.points, float).reshape(len(wts), sub.get_spatial_dimension())
        bind = {}
    else:
        ps, x, _ = points.make_ps(rng, sub, interior=True)
        sh = tuple(i.extent for i in ps.indices)
        W = gem.Variable("w", (3,) + sh)
        we = gem.Indexed(W, (1,) + ps.indices)
        wv = rng.standard_normal((3,) + sh)
        wts, bind = wv[1].reshape(-1), {W: wv}
    bilinear = rng.random() < .7
    if model.prod(A.elem.index_shape) * model.prod(B.elem.index_shape) * len(x) > 30000:
        bilinear = False
    coef = rng.random() < .6
    nterms = int(rng.integers(1, 4))
    i, j = A.elem.get_indices(), B.elem.get_indices()
    ta = A.tab(order, x, ent)
    tb = B.tab(order, x, ent2)
    na, nb = len(A.elem.index_shape), len(B.elem.index_shape)
    fa = {k: v.reshape((len(x), -1) + A.elem.value_shape) for k, v in ta.items()}
    fb = {k: v.reshape((len(x), -1) + B.elem.value_shape) for k, v in tb.items()}
    terms, ref = [], 0
    C = gem.Variable("c", tuple(B.elem.index_shape))
    cv = rng.standard_normal(tuple(B.elem.index_shape))
    bind[C] = cv
    for _ in range(nterms):
        al, be, ga = (unit(d, order, rng) for _ in range(3))
        if "runtime" in case and rng.random() < .6:
            be = ga = al
        zs = A.elem.value_shape
        contract = bilinear and zs == B.elem.value_shape and zs and rng.random() < .6
        if contract:
            z = A.elem.get_value_indices()
            za = zb = z
        else:
            z = ()
            za = tuple(int(rng.integers(n)) for n in A.elem.value_shape)
            zb = tuple(int(rng.integers(n)) for n in B.elem.value_shape)
        e = term_expr(A, order, al, ps, ent, i, za, bind)
        if bilinear:
            e = gem.Product(e, term_expr(B, order, be, ps, ent2, j, zb, bind))
        if z:
            e = gem.IndexSum(e, z)
        if z:
            r = np.einsum("qiz,qjz->qij", fa[al].reshape(fa[al].shape[:2] + (-1,)), fb[be].reshape(fb[be].shape[:2] + (-1,)))
        else:
            r = fa[al][(slice(None), slice(None)) + za]
            if bilinear:
                r = np.einsum("qi,qj->qij", r, fb[be][(slice(None), slice(None)) + zb])
        if coef:
            # the square of a coefficient in the space of B: two separate evaluations
            zc = tuple(int(rng.integers(n)) for n in B.elem.value_shape)
            for _ in range(int(rng.integers(1, 3))):
                k = B.elem.get_indices()
                u = gem.IndexSum(gem.Product(gem.Indexed(C, k), term_expr(B, order, ga, ps, ent2, k, zc, bind)), k)
                e = gem.Product(e, u)
                uv = fb[ga][(slice(None), slice(None)) + zc] @ cv.reshape(-1)
                r = r * uv.reshape((-1,) + (1,) * (r.ndim - 1))
        terms.append(gem.Product(we, e))
        ref = ref + np.einsum("q,q...->...", wts, r)
    total = terms[0]
    for t in terms[1:]:
        total = gem.Sum(total, t)
    expr = gem.IndexSum(total, ps.indices) if ps.indices else total
    args = i + (j if bilinear else ())
    ref = np.asarray(ref).reshape(-1)
    scale = max(1.0, float(np.abs(ref).max()))
    what = "%s, entities %s %s, %d terms%s%s" % (names if bilinear or coef else names[0], ent, ent2, nterms, ", coefficient" if coef else "", ", bilinear" if bilinear else "")
    rec.note({"elements": names, "entities": str((ent, ent2)), "bilinear": bilinear, "coefficient": coef, "terms": nterms})
    rec.seen("forms")
    rec.seen("bilinear", int(bilinear))
    rec.seen("with_coefficient", int(coef))
    rec.seen("two_sided", int(ent != ent2))
    rec.key(names, ent, ent2, nterms, coef, bilinear, [q.extent for q in ps.indices])
    if not rec.check(set(expr.free_indices) <= set(args), "form:indices", "%s: the assembled form has foreign free indices" % what):
        return
    shape = tuple(q.extent for q in args)

    def verdict(name, val):
        rec.seen("kernels_run")
        err = float(np.abs(np.asarray(val).reshape(-1) - ref).max())
        return rec.check(err < 1e-9 * scale, "form:" + name, "%s: assembled by %s is off by %.3g (scale %.2g)" % (what, name, err, scale))

    if not verdict("direct", gemeval.arr(expr, args, bind)):
        return
    for name, f in PASSES.items():
        verdict(name, f(expr, args, shape, bind, ps))




def by_unconcatenation(expr, args, shape, bind, ps, after=None):
    import gem
    from gem.optimise import constant_fold_zero, remove_componenttensors
    from gem.unconcatenate import unconcatenate
    size = model.prod(shape)
    T = gem.Variable("A", (size,))
    var, = remove_componenttensors([gem.Indexed(gem.reshape(T, shape), args)]) if shape else [gem.Indexed(gem.reshape(T, ()), ())]
    out = np.zeros(size)
    count = np.zeros(size, int)
    for v, e in unconcatenate([(var, expr)]):
        e, = constant_fold_zero([e])
        if after is not None:
            e = after(e)
        fi = tuple(v.free_indices)
        pos = gemeval.arr(v, fi, {T: np.arange(size, dtype=float)}).astype(int).reshape(-1)
        val = gemeval.arr(e, fi, bind).reshape(-1)
        out[pos] += val
        count[pos] += 1
    if not (count == 1).all():
        return np.full(size, np.nan)
    return out


def factorised(expr, args, shape, bind, ps):
    from gem.optimise import contraction, make_sum, traverse_sum
    import gem

    def after(e):
        # the quadrature sum distributed over the terms
        if isinstance(e, gem.IndexSum):
            parts = []
            for t in traverse_sum(e.children[0]):
                t = gem.IndexSum(t, e.multiindex)
                try:
                    t = contraction(t)
                except NotImplementedError:
                    pass  # too many indices for the optimiser
                parts.append(t)
            return make_sum(parts)
        return e
    return by_unconcatenation(expr, args, shape, bind, ps, after)


def unrolled(expr, args, shape, bind, ps):
    from gem.optimise import constant_fold_zero, remove_componenttensors, replace_delta, unroll_indexsum
    e, = unroll_indexsum([expr], predicate=lambda i: i not in ps.indices and i.extent <= 3)
    e, = remove_componenttensors([e])
    e, = replace_delta([e])
    e, = constant_fold_zero([e])
    return gemeval.arr(e, args, bind)


PASSES = {"unconcatenation": by_unconcatenation, "sum factorisation": factorised, "unrolling": unrolled}
