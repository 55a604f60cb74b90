import json

import numpy as np

from rv import model, tabcheck, core, geom, gemeval

PROPERTY = "C02"
RULE = ("a case is an element (catalogue leaf or drawn composite), a derivative order, an entity and a coordinate expression "
        "(literal point, run-time variable with one or two free indices, or a computed expression); the returned expression is "
        "executed at the points and compared with the independent reference model. Distinct by (element, order, entity, "
        "coordinate kind).")
MIN = {"point_evaluation_calls": 150, "values": 3000}
ASSUMPTIONS = ["FIAT tabulates numerically correctly", "gem.interpreter executes GEM faithfully"]

KINDS = ["literal", "var1", "var2", "expr"]


def coords(rng, x, kind):
    """GEM expression whose evaluation yields the rows of x; returns
    (expr, indices, bindings)."""
    import gem
    n, d = x.shape
    if kind == "literal" or d == 0:
        return gem.Literal(x[0]), (), {}, x[:1]
    if kind == "var1":
        q, k = gem.Index(extent=n), gem.Index(extent=d)
        X = gem.Variable("X", (n, d))
        return gem.ComponentTensor(gem.Indexed(X, (q, k)), (k,)), (q,), {X: x}, x
    if kind == "var2":
        m = n // 2
        y = x[:2 * m].reshape(2, m, d)
        q, r, k = gem.Index(extent=2), gem.Index(extent=m), gem.Index(extent=d)
        X = gem.Variable("X", y.shape)
        return gem.ComponentTensor(gem.Indexed(X, (q, r, k)), (k,)), (q, r), {X: y}, x[:2 * m]
    # computed: x = b + A s with A random invertible
    A = np.eye(d) + 0.3 * rng.uniform(-1, 1, (d, d))
    b = rng.uniform(-1, 1, d)
    s = np.linalg.solve(A, (x - b).T).T
    q = gem.Index(extent=n)
    S = gem.Variable("S", (n, d))
    comps = []
    for i in range(d):
        e = gem.Literal(b[i])
        for j in range(d):
            e = gem.Sum(e, gem.Product(gem.Literal(A[i, j]), gem.Indexed(S, (q, j))))
        comps.append(e)
    return gem.ListTensor(comps), (q,), {S: s}, x


def too_big(m, d):
    return model.prod(m.index_shape) * model.prod(m.value_shape) > (60 if d == 3 else 90)


def symbolic_ok(mod, order):
    import sympy
    for l in mod.leaves:
        try:
            l.fiat.tabulate(order, [sympy.symbols("X Y Z")[:l.cell.get_spatial_dimension()]])
        except Exception:
            return False
    return True


def cases(rng, tier):
    cat = model.leaf_catalog()
    out = []
    reps = 1 if tier == "quick" else 5
    for r in range(reps):
        for s in cat:
            deg = s[3]
            d = geom.DIM[s[2]]
            if deg > {1: 6, 2: 4, 3: 2}[d] and tier == "quick":
                continue
            if d == 3 and s[1].startswith("Trimmed") and deg > 1:
                continue
            if s[2] == "hexahedron" and deg > 2:
                continue
            if tier == "quick" and rng.random() > .6:
                continue
            out.append({"spec": s, "seed": int(rng.integers(1 << 30))})
    # derivatives of an order above the nominal degree
    for s in cat:
        if s[3] <= 2 and not (s[2] == "hexahedron" and s[3] > 1) and not (geom.DIM[s[2]] == 3 and s[3] > 1):
            out.append({"spec": s, "seed": int(rng.integers(1 << 30)), "high": True})
    nc = 500 if tier == "quick" else 700
    for _ in range(nc):
        cell = model.pick(rng, model.CELLS)
        if rng.random() < .2:
            s = model.safe(model.rand_hwrap, rng)
        else:
            s = model.safe(model.rand_any, rng, cell)
        out.append({"spec": s, "seed": int(rng.integers(1 << 30))})
    return [out[i] for i in rng.permutation(len(out))]


def run(case, rec):
    rng = core.rng_for(case["seed"], "c02")
    spec = case["spec"]
    name = json.dumps(spec)
    mod = model.model(spec)
    d = mod.cell.get_spatial_dimension()
    if too_big(mod, d):
        raise core.Skip("too large for symbolic tabulation")
    elem = model.build(spec)
    rec.note({"element": spec})
    ents = [None] + geom.entities(mod.cell)
    chosen = [ents[0], ents[int(rng.integers(len(ents)))]]
    for ent in chosen:
        order = int(rng.integers(0, 3)) if model.prod(mod.index_shape + mod.value_shape) < 30 else int(rng.integers(0, 2))
        if case.get("high") and ent is chosen[0]:
            order = min(3, spec[3] + 1)
        sub = tabcheck.sub_of(mod.cell, ent)
        if mod.macro and ent is not None and geom.entity_sdim(ent[0]) < d:
            order = 0
        kind = KINDS[int(rng.integers(len(KINDS)))]
        x = geom.random_points(rng, sub, int(rng.integers(2, 6)))
        expr, idx, bind, x = coords(rng, x, kind)
        want = mod.tab(order, x, ent)
        try:
            res = elem.point_evaluation(order, expr, ent)
        except Exception:
            # does the trusted library itself support symbolic coordinates here?
            if not symbolic_ok(mod, order):
                raise core.Skip("FIAT cannot tabulate symbolically")
            raise
        rec.seen("point_evaluation_calls")
        rec.key(name, order, ent, kind)
        got = {}
        for a, e in res.items():
            extra = set(e.free_indices) - set(idx)
            rec.check(not extra, "point:free_indices", "%s: result has free indices not present in the coordinates" % name)
            v = gemeval.arr(e, idx, bind)
            got[a] = v.reshape((len(x),) + tuple(e.shape))
        tabcheck.compare(rec, "point", got, want, "%s on entity %s, %s coordinates" % (name, ent, kind), rtol=1e-8)
