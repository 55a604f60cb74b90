"""Oracle comparison of tabulations."""
import numpy as np

from rv import geom, gemeval, model


def scale_of(tabs):
    m = 1.0
    for t in tabs.values():
        if t.size:
            m = max(m, float(np.abs(t).max()))
    return m


def compare(rec, key, got, want, what, rtol=1e-9, zero_above=None):
    """got/want: {alpha: [n, ...]}."""
    if not rec.check(set(got) == set(want), key + ":keys", "%s: derivative multi-indices %s, expected %s"
                     % (what, sorted(map(str, got))[:8], sorted(map(str, want))[:8])):
        return False
    scale = scale_of(want)
    ok = True
    for a in sorted(want):
        g, w = got[a], want[a]
        if zero_above is not None and sum(a) > zero_above:
            w = np.zeros_like(w)
        if not rec.check(g.shape == w.shape, key + ":shape", "%s: d%s has shape %s, expected %s" % (what, a, g.shape, w.shape)):
            return False
        if g.size == 0:
            continue
        err = float(np.abs(g - w).max())
        tol = rtol * scale * 10 ** min(sum(a), 4)
        good = err <= tol and bool(np.isfinite(g).all())
        rec.check(good, key + ":value", "%s: d%s differs from the reference by %.3g (scale %.3g)" % (what, a, err, scale))
        ok = ok and good
        rec.seen("tables")
        rec.seen("values", int(g.size))
    return ok


def entity_list(cell, rng, how):
    """Entities to visit: None (cell interior, implicit) plus a sample."""
    ents = geom.entities(cell)
    if how == "all":
        return [None] + ents
    k = min(len(ents), how)
    sel = rng.permutation(len(ents))[:k]
    return [None] + [ents[i] for i in sel]


def sub_of(cell, entity):
    return cell.construct_subelement(entity[0] if entity is not None else cell.get_dimension())


def run_tab(rec, key, elem, mod, order, rng, entities, what, macro_safe=True, kinds=None):
    """Tabulate ``elem`` on each entity with random point sets and compare with
    the reference model."""
    for ent in entities:
        o = order
        interior = False
        if mod.macro and macro_safe:
            interior = True
            if ent is not None and geom.entity_sdim(ent[0]) < mod.cell.get_spatial_dimension():
                o = 0
        ps, x, kind = _points(rng, sub_of(mod.cell, ent), interior, kinds)
        want = mod.tab(o, x, ent)
        got = gemeval.tab(elem, o, ps, ent)
        got = {k: v for k, v in got.items()}
        rec.key(key, what, "order%d" % o, ent, kind)
        rec.seen("basis_evaluation_calls")
        rec.check(np.allclose(np.asarray(ps.points).reshape(x.shape), x), key + ":points",
                  "point set reports different points")
        compare(rec, key, got, want, "%s on entity %s, %s points" % (what, ent, kind))


def _points(rng, sub, interior, kinds):
    from rv.points import make_ps
    return make_ps(rng, sub, interior=interior, kind=(kinds[int(rng.integers(len(kinds)))] if kinds else None))


def shape_facts(rec, key, elem, mod, what):
    rec.check(tuple(elem.index_shape) == tuple(mod.index_shape), key + ":index_shape",
              "%s: index_shape %s, expected %s" % (what, elem.index_shape, mod.index_shape))
    rec.check(tuple(elem.value_shape) == tuple(mod.value_shape), key + ":value_shape",
              "%s: value_shape %s, expected %s" % (what, elem.value_shape, mod.value_shape))
    rec.check(int(elem.space_dimension()) == mod.space_dimension, key + ":space_dimension",
              "%s: space_dimension %s, expected %s" % (what, elem.space_dimension(), mod.space_dimension))
    rec.check(elem.cell == mod.cell, key + ":cell", "%s: wrong cell %s" % (what, elem.cell))
    rec.check(elem.mapping == mod.mapping, key + ":mapping", "%s: mapping %s, expected %s" % (what, elem.mapping, mod.mapping))
    rec.check(elem.mapping == mod.mapping, key + ":mapping", "%s: mapping %s, expected %s" % (what, elem.mapping, mod.mapping))
    deg = model.degree_tree(mod)
    if deg is not None:
        rec.check(elem.degree == deg, key + ":degree", "%s: degree %s, expected %s" % (what, elem.degree, deg))
        rec.seen("degrees")
    cx = model.complex_of(mod)
    if cx is not None:
        rec.check(elem.complex == cx, key + ":complex", "%s: complex %s, expected %s" % (what, elem.complex, cx))
    if mod.formdegree != "undefined":
        rec.check(elem.formdegree == mod.formdegree, key + ":formdegree",
                  "%s: formdegree %s, expected %s" % (what, elem.formdegree, mod.formdegree))
    rec.seen("shape_facts")


def dof_facts(rec, key, elem, mod, what):
    got = {d: {e: [int(x) for x in v] for e, v in es.items()} for d, es in elem.entity_dofs().items()}
    want = {d: {e: [int(x) for x in v] for e, v in es.items()} for d, es in mod.entity_dofs().items()}
    rec.check(got == want, key + ":entity_dofs", "%s: entity_dofs %s, expected %s" % (what, str(got)[:300], str(want)[:300]))
    rec.seen("entity_dofs_maps")
