import itertools
import json

import numpy as np

from rv import core, gemeval, geom

PROPERTY = "C14"
ROUNDS = 12
RULE = ("a case is a quadrature element (plain, blocked, inside a tensor product, of a drawn rule or of make_quadrature) and a request: its "
        "own points give the identity, an equal copy of them too; any other point set, derivative, sub-entity or run-time point "
        "must be refused with ValueError/NotImplementedError. Distinct by (rule, request).")
MIN = {"identities": 100, "refusals": 300}
CELLS = ["interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", ["interval", "interval"], ["triangle", "interval"],
         ["interval", "interval", "interval"]]


def cases(rng, tier):
    out = []
    n = 2000 if tier == "quick" else 40000
    for _ in range(n):
        c = CELLS[int(rng.integers(len(CELLS)))]
        m = {"hexahedron": 3, "tetrahedron": 4}.get(c if isinstance(c, str) else "", 6)
        out.append({"cell": c, "degree": int(rng.integers(0, m)), "kind": ["make", "make", "random", "scheme"][int(rng.integers(4))],
                    "seed": int(rng.integers(1 << 30))})
    return out


def random_rule(rng, K):
    from finat.point_set import PointSet, TensorPointSet
    from finat.quadrature import QuadratureRule, TensorProductQuadratureRule
    if hasattr(K, "cells"):
        parts = [random_rule(rng, c) for c in K.cells]
        for i in rng.permutation(len(parts)):
            parts[i].point_set.indices      # index creation order is arbitrary
        return TensorProductQuadratureRule(parts, ref_el=K)
    n = int(rng.integers(1, 5))
    return QuadratureRule(PointSet(geom.random_points(rng, K, n)), rng.uniform(.1, 1, n), ref_el=K)


def copy_ps(ps, f):
    """A fresh point set object of the same structure with coordinates f(x)."""
    from finat.point_set import TensorPointSet
    if isinstance(ps, TensorPointSet):
        return TensorPointSet([copy_ps(p, f) for p in ps.factors])
    return type(ps)(f(np.array(ps.points, dtype=float)))


def run(case, rec):
    import FIAT
    import finat
    import gem
    from finat.point_set import PointSet, TensorPointSet
    from finat.quadrature import make_quadrature
    rng = core.rng_for(case["seed"], "c14")
    K = geom.cell_from(case["cell"])
    kind, deg = case["kind"], case["degree"]
    if kind == "make":
        elem = finat.quadrature_element.make_quadrature_element(K, deg)
        rule = make_quadrature(K, deg)
    elif kind == "scheme":
        elem = finat.quadrature_element.make_quadrature_element(K, deg, scheme="canonical")
        rule = make_quadrature(K, deg, scheme="canonical")
    else:
        rule = random_rule(rng, K)
        elem = finat.QuadratureElement(K, rule)
    name = "%s %s %s" % (kind, case["cell"], deg)
    rec.note({"rule": name})
    ps = rule.point_set
    d = K.get_spatial_dimension()
    x = np.asarray(ps.points, float)
    n = len(x)
    ext = tuple(i.extent for i in ps.indices)
    rec.check(tuple(elem.index_shape) == ext and elem.space_dimension() == n, "size", "%s: index_shape %s, %d points" % (name, elem.index_shape, n))
    rec.check(elem.value_shape == () and elem.mapping == "affine" and elem.cell == K and elem.formdegree is None, "attributes", "%s: attributes" % name)
    ed = elem.entity_dofs()
    rec.check(sorted(ed[K.get_dimension()][0]) == list(range(n)) and sum(len(v) for es in ed.values() for v in es.values()) == n,
              "entity_dofs", "%s: dofs are not all in the interior" % name)

    def identity(e, points, what, entity=None):
        res = e.basis_evaluation(0, points, entity)
        rec.seen("identities")
        rec.key(name, what)
        if not rec.check(set(res) == {(0,) * d}, "identity:keys", "%s: %s" % (name, list(res))):
            return
        t = res[(0,) * d]
        beta = e.get_indices()
        zeta = tuple(gem.Index(extent=k) for k in e.value_shape)
        ex = gem.Indexed(t, beta + zeta)
        if not rec.check(set(ex.free_indices) <= set(points.indices) | set(beta) | set(zeta), "identity:free",
                         "%s (%s): foreign free indices" % (name, what)):
            return
        A = gemeval.arr(ex, tuple(points.indices) + beta + zeta)
        vs = int(np.prod(e.value_shape, dtype=int))
        A = A.reshape(n, -1, vs)
        want = np.eye(n * vs).reshape(n, vs, n * vs).transpose(0, 2, 1)
        rec.check(A.shape == want.shape and np.array_equal(A, want), "identity:value", "%s: tabulation at %s is not the identity" % (name, what))

    identity(elem, ps, "own points")
    identity(elem, ps, "own points, explicit cell", (K.get_dimension(), 0))
    identity(elem, copy_ps(ps, lambda y: y), "equal copy")
    identity(elem, copy_ps(ps, lambda y: y + 1e-14), "copy up to roundoff")
    blocked = finat.TensorFiniteElement(elem, (2,))
    identity(blocked, ps, "blocked")
    # values of the rule through the element: sum_i w_i f_i
    try:
        fe = elem.fiat_equivalent
        T = fe.tabulate(0, x)
        T = T[(0,) * d] if isinstance(T, dict) else T
        rec.check(np.allclose(np.asarray(T, float).reshape(n, n), np.eye(n)), "fiat", "%s: fiat_equivalent does not tabulate to the identity" % name)
        w = gemeval.arr(rule.weight_expression, ps.indices).reshape(-1)
        rec.check(np.allclose(np.asarray(fe._weights if hasattr(fe, "_weights") else w).reshape(-1), w), "fiat:weights", "%s: fiat weights" % name)
        identity(elem, ps, "after fiat_equivalent")
    except NotImplementedError:
        pass

    def refused(what, f, kinds=(ValueError, NotImplementedError)):
        rec.seen("refusals")
        rec.key(name, "refuse", what)
        try:
            r = f()
        except kinds:
            return
        except Exception as e:
            rec.fail("refuse:" + what, "%s: %s raised %s(%s)" % (name, what, type(e).__name__, e))
            return
        rec.fail("refuse:" + what, "%s: %s was answered with %r" % (name, what, str(r)[:100]))

    for o in (1, 2):
        refused("derivatives", lambda: elem.basis_evaluation(o, ps))
    refused("other points", lambda: elem.basis_evaluation(0, copy_ps(ps, lambda y: y + 1e-6)))
    j = int(rng.integers(n))

    def bump(y, big=[True]):
        y = y.copy()
        y[-1, 0] += 1e-4
        return y
    refused("one point moved", lambda: elem.basis_evaluation(0, copy_ps(ps, bump)))
    if n > 1 and not isinstance(ps, TensorPointSet):
        perm = np.roll(np.arange(n), 1)
        refused("reordered points", lambda: elem.basis_evaluation(0, copy_ps(ps, lambda y: y[perm])))
        refused("fewer points", lambda: elem.basis_evaluation(0, copy_ps(ps, lambda y: y[:-1])))
    refused("more points", lambda: elem.basis_evaluation(0, copy_ps(ps, lambda y: np.concatenate([y, y[:1]]))))
    if isinstance(ps, TensorPointSet):
        refused("flattened points", lambda: elem.basis_evaluation(0, PointSet(x)))
        if len(ps.factors) == 2 and not np.array_equal(ps.factors[0].points, ps.factors[1].points) and ps.factors[0].dimension == ps.factors[1].dimension:
            refused("swapped factors", lambda: elem.basis_evaluation(0, TensorPointSet(ps.factors[::-1])))
    for dim, e in geom.entities(K):
        if dim != K.get_dimension():
            refused("sub-entity", lambda: elem.basis_evaluation(0, ps, (dim, e)))
            break
    refused("run-time points", lambda: elem.point_evaluation(0, gem.Variable("X", (d,))))
    refused("degree", lambda: elem.degree)
    refused("not a rule", lambda: finat.QuadratureElement(K, ps), (TypeError,))
    other = FIAT.ufc_simplex(2 if d != 2 else 3)
    refused("other dimension", lambda: finat.QuadratureElement(other, rule), (ValueError,))
