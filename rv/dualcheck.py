"""Oracles for dual bases and dual evaluation."""
import numpy as np

from rv import geom, gemeval, model
from rv.core import Skip


def rand_poly(rng, d, vshape, deg):
    """A random polynomial with values of shape vshape: callables for numpy
    points and for GEM point expressions."""
    exps = geom.all_multiindices(d, deg)
    C = rng.uniform(-1, 1, (len(exps),) + tuple(vshape))

    def f(x):
        x = np.asarray(x, dtype=float)
        M = np.array([[np.prod([x[i, j] ** e[j] for j in range(d)]) if d else 1.0 for e in exps] for i in range(len(x))])
        return np.tensordot(M, C, axes=(1, 0))

    def g(expr):
        import gem
        mons = []
        for e in exps:
            m = gem.Literal(1.0)
            for j in range(d):
                for _ in range(e[j]):
                    m = gem.Product(m, gem.Indexed(expr, (j,)))
            mons.append(m)

        def comp(ix):
            s = gem.Literal(0.0)
            for k, m in enumerate(mons):
                s = gem.Sum(s, gem.Product(gem.Literal(float(C[(k,) + ix])), m))
            return s
        if not vshape:
            return comp(())
        t = np.empty(vshape, dtype=object)
        for ix in np.ndindex(*vshape):
            t[ix] = comp(ix)
        return gem.ListTensor(t)
    return f, g


def apply_dual(elem, fn):
    """Run the real dual evaluation; axes are the returned basis indices."""
    expr, idx = elem.dual_evaluation(fn)
    return gemeval.arr(expr, idx), idx


def dual_against_model(rec, key, elem, mod, rng, what, extra_index=False):
    """dual_evaluation(f) vs the functionals applied by numpy."""
    try:
        pts, W = mod.dual()
    except Skip:
        try:
            elem.dual_basis
        except Exception:
            rec.seen("dual_refused")
            return None
        rec.seen("dual_available_without_model")
        return None
    d = mod.cell.get_spatial_dimension()
    f, g = rand_poly(rng, d, mod.value_shape, int(rng.integers(0, 4)))
    vals = f(pts)                                    # [P, *v]
    nv = len(mod.value_shape)
    ni = len(mod.index_shape)
    want = np.tensordot(W, vals, axes=(list(range(ni, ni + 1 + nv)), list(range(0, 1 + nv))))
    got, idx = apply_dual(elem, lambda ps: g(ps.expression))
    rec.seen("dual_evaluations")
    rec.key(what, "dual")
    if not rec.check(got.shape == tuple(mod.index_shape), key + ":dual:index-order",
                     "%s: dual evaluation indices have extents %s, index_shape is %s" % (what, got.shape, mod.index_shape)):
        return None
    scale = max(1.0, float(np.abs(want).max()) if want.size else 1.0, float(np.abs(W).max()) if W.size else 1.0)
    err = float(np.abs(got - want).max()) if want.size else 0.0
    rec.check(err <= 1e-9 * scale, key + ":dual:value",
              "%s: dual evaluation of a random polynomial differs from the dual functionals by %.3g" % (what, err))
    # the structure documented for dual_basis
    Q, x = elem.dual_basis
    rec.check(tuple(Q.shape) == tuple(mod.index_shape) + tuple(mod.value_shape), key + ":dual:Qshape",
              "%s: dual weights have shape %s" % (what, Q.shape))
    rec.check(set(Q.free_indices) <= set(x.indices), key + ":dual:Qfree", "%s: dual weights have foreign free indices" % what)
    Qv = gemeval.flatpts(Q, x)                       # [P, I, v]
    xp = np.asarray(x.points, dtype=float).reshape(-1, d)
    rec.check(len(xp) == len(Qv), key + ":dual:npoints", "%s: %d dual points, weights for %d" % (what, len(xp), len(Qv)))
    fv = f(xp)
    nat = np.tensordot(Qv, fv, axes=([0] + list(range(1 + ni, 1 + ni + nv)), [0] + list(range(1, 1 + nv))))
    err = float(np.abs(nat - want).max()) if want.size else 0.0
    rec.check(err <= 1e-9 * scale, key + ":dual:weights", "%s: contracting the dual weights by hand differs by %.3g" % (what, err))
    return W
