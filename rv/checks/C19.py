import itertools
import json

import numpy as np

from rv import core, gemeval

PROPERTY = "C19"
ROUNDS = 10
RULE = ("a case is a drawn (nested) point set: its points, symbolic expression, indices and dimension must describe the same points in the same "
        "order (first factor slowest), run-time sets must follow the bound array, and approximate equality must hold exactly for sets "
        "of the same structure with coordinates within the tolerance. Distinct by structure.")
MIN = {"point_sets": 300, "comparisons": 1000, "runtime_sets": 50}


def draw(rng, depth):
    u = rng.random()
    d = int(rng.integers(0, 4))
    n = int(rng.integers(1, 6))
    if depth > 0 and u < .45:
        return ["tensor", [draw(rng, depth - 1) for _ in range(int(rng.integers(1, 4)))]]
    if u < .6:
        return ["single", d]
    if u < .7:
        return ["gl", n]
    if u < .8:
        return ["gll", n]
    if u < .88:
        return ["unknown", n, d]
    return ["set", n, d]


def cases(rng, tier):
    n = 10000 if tier == "quick" else 300000
    return [{"spec": draw(rng, int(rng.integers(0, 4))), "seed": int(rng.integers(1 << 30))} for _ in range(n)]


class Truth:
    """What the set should be: list of axes arrays."""

    def __init__(self, axes, runtime):
        self.axes, self.runtime = axes, runtime


def build(spec, rng, bindings, perturb=0.0):
    """(point set, [array per leaf], structure) ; perturb shifts one
    coordinate of one leaf."""
    import gem
    from finat.point_set import (GaussLegendrePointSet, GaussLobattoLegendrePointSet, PointSet, PointSingleton,
                                 TensorPointSet, UnknownPointSet)
    op = spec[0]
    if op == "tensor":
        sub = [build(s, rng, bindings) for s in spec[1]]
        return TensorPointSet(iter([s[0] for s in sub])), [a for s in sub for a in s[1]]
    if op == "single":
        x = rng.uniform(-1, 1, (1, spec[1]))
        return PointSingleton(x[0]), [x]
    if op in ("gl", "gll"):
        x = rng.uniform(-1, 1, (spec[1], 1))
        return (GaussLegendrePointSet if op == "gl" else GaussLobattoLegendrePointSet)(x), [x]
    x = rng.uniform(-1, 1, (spec[1], spec[2]))
    if op == "unknown":
        v = gem.Variable("rt_:X%d" % len(bindings), x.shape)
        bindings[v] = x
        return UnknownPointSet(v), [x]
    if rng.random() < .3:
        return PointSet(x.tolist() if x.size else x), [x]
    return PointSet(x), [x]


def has_unknown(s):
    return s[0] == "unknown" or s[0] == "tensor" and any(has_unknown(x) for x in s[1])


def leaves(s):
    return [l for x in s[1] for l in leaves(x)] if s[0] == "tensor" else [s]


def run(case, rec):
    import gem
    from finat.point_set import PointSet, TensorPointSet
    rng = core.rng_for(case["seed"], "c19")
    spec = case["spec"]
    name = json.dumps(spec)
    b = {}
    ps, arrs = build(spec, rng, b)
    rec.seen("point_sets")
    rec.key(name)
    rec.note({"point set": spec})
    dim = sum(a.shape[1] for a in arrs)
    n = int(np.prod([len(a) for a in arrs]))
    if n > 3000:
        return
    X = np.array([np.concatenate(t) for t in itertools.product(*arrs)]).reshape(n, dim)
    ext = tuple(len(a) for a, l in zip(arrs, leaves(spec)) if l[0] != "single")
    rec.check(tuple(i.extent for i in ps.indices) == ext, "indices", "%s: indices of extents %s, expected %s" % (name, [i.extent for i in ps.indices], ext))
    rec.check(len(set(ps.indices)) == len(ps.indices), "indices:distinct", "%s: repeated indices" % name)
    rec.check(ps.indices == ps.indices, "stable", "%s: indices are not stable" % name)
    if not has_unknown(spec):
        p = np.asarray(ps.points, float)
        rec.check(ps.dimension == dim, "dimension", "%s: dimension %s" % (name, ps.dimension))
        rec.check(p.shape == (n, dim) and np.array_equal(p, X), "points", "%s: points differ (shape %s)" % (name, p.shape))
    elif spec[0] == "unknown":
        rec.seen("runtime_sets")
        rec.check(len(ps.points) == n and tuple(ps.points.shape) == (n, dim) and ps.dimension == dim, "points", "%s: placeholder shape" % name)
        rec.check(not hasattr(ps.points, "__getitem__"), "points:unknown", "%s: run-time points can be indexed" % name)
    if has_unknown(spec) and spec[0] != "unknown":
        rec.seen("runtime_sets")
    rec.check(ps.dimension == dim, "dimension", "%s: dimension %s" % (name, ps.dimension))
    if dim == 0 and spec[0] == "tensor":
        return      # no coordinates to express
    e = ps.expression
    rec.check(e == ps.expression, "stable", "%s: expression is not stable" % name)
    rec.check(e.shape == (dim,) and set(e.free_indices) <= set(ps.indices), "expression:shape", "%s: expression has shape %s" % (name, e.shape))
    if e.shape == (dim,) and dim:
        k = gem.Index(extent=dim)
        A = gemeval.arr(gem.ComponentTensor(gem.Indexed(e, (k,)), (k,)), ps.indices, b).reshape(-1, dim)
        rec.check(A.shape == X.shape and np.allclose(A, X, rtol=0, atol=0), "expression:value", "%s: the symbolic points differ from the points" % name)
        if b:
            # the expression follows the run-time values
            b2 = {v: x + .5 for v, x in b.items()}
            B = gemeval.arr(gem.ComponentTensor(gem.Indexed(e, (k,)), (k,)), ps.indices, b2).reshape(-1, dim)
            off, moved = 0, []
            for a, l in zip(arrs, leaves(spec)):
                moved += [l[0] == "unknown"] * a.shape[1]
            rec.check(np.allclose(B - A, np.where(moved, .5, 0.)), "expression:runtime", "%s: the expression does not follow the run-time points" % name)
    if has_unknown(spec) or any(l[0] == "single" for l in leaves(spec)):
        return
    # approximate equality
    tols = [None, 1e-12, 1e-6, 1e-3]
    for _ in range(4):
        tol = tols[int(rng.integers(4))]
        kw = {} if tol is None else {"tolerance": tol}
        t = tol or 1e-12
        for factor, want in ((0.0, True), (.4, True), (3.0, False), (1e4, False)):
            i = int(rng.integers(len(arrs)))
            if not arrs[i].size:
                continue
            moved = [a.copy() for a in arrs]
            r, c = int(rng.integers(arrs[i].shape[0])), int(rng.integers(arrs[i].shape[1]))
            moved[i][r, c] += factor * t * (1 if rng.integers(2) else -1)
            other = rebuild(spec, iter(moved))
            rec.seen("comparisons")
            rec.check(bool(ps.almost_equal(other, **kw)) == want and bool(other.almost_equal(ps, **kw)) == want, "almost_equal",
                      "%s: moved by %s tolerances, tolerance %s, compared %s" % (name, factor, tol, not want))
    # other structures are never equal
    others = [PointSet(X), PointSet(np.concatenate([X, X[:1]])), TensorPointSet([PointSet(X)])]
    if spec[0] == "tensor":
        others.append(TensorPointSet(list(ps.factors) + [PointSet(np.zeros((1, 1)))]))
        others.append(TensorPointSet(ps.factors[:-1]))
    for o in others:
        same = structure(ps) == structure(o)
        rec.seen("comparisons")
        rec.check(same or not ps.almost_equal(o) and not o.almost_equal(ps), "almost_equal:structure", "%s: equal to a set of another structure" % name)


def structure(ps):
    if hasattr(ps, "factors"):
        return (type(ps).__name__,) + tuple(structure(f) for f in ps.factors)
    return (type(ps).__name__, tuple(ps.points.shape))


def rebuild(spec, it):
    from finat.point_set import GaussLegendrePointSet, GaussLobattoLegendrePointSet, PointSet, TensorPointSet
    if spec[0] == "tensor":
        return TensorPointSet([rebuild(s, it) for s in spec[1]])
    return {"gl": GaussLegendrePointSet, "gll": GaussLobattoLegendrePointSet, "set": PointSet}[spec[0]](next(it))
