import itertools
import json

import numpy as np

from rv import model, tabcheck, core, geom, gemeval

PROPERTY = "C07"
ROUNDS = 5
RULE = ("a case is a drawn H(div)/H(curl) wrapper of a tensor product (quad, hex, prism; scalar and Piola-mapped bases), tabulated and "
        "compared with the reference value placement, with FIAT's own Hdiv/Hcurl, and checked for conformity: functions whose dof "
        "does not belong to the closure of a facet have zero normal (tangential) trace there. Distinct by (element, order, entity, "
        "point kind).")
MIN = {"basis_evaluation_calls": 150, "facet_traces": 200}
ASSUMPTIONS = ["FIAT tabulates leaf elements correctly"]


def draw(rng):
    w = model.rand_hwrap(rng, cap=3)
    dim = geom.spec_dim(model.cell_of(w))
    u = rng.random()
    if u < .35:
        return ["flat", w] if "triangle" not in json.dumps(w) else w
    if u < .5 and dim == 2:
        a, b = w[1][1]
        return ["flat", ["enr", [w, [w[0], ["tpe", [b, a]]]]]]
    return w


def cases(rng, tier):
    n = 1500 if tier == "quick" else 20000
    return [{"spec": model.safe(draw, rng), "seed": int(rng.integers(1 << 30)), "tier": tier} for _ in range(n)]


def facet_normal(cell, ent):
    """Unit normal of a facet (up to sign) from the images of the reference facet."""
    d = cell.get_spatial_dimension()
    fd = d - 1
    n = geom.entity_sdim(ent[0])
    assert n == fd
    o = np.zeros((1, fd)) + .2
    P = geom.map_points(cell, ent[0], ent[1], np.concatenate([o, o + .1 * np.eye(fd)]))
    T = P[1:] - P[0]
    return np.linalg.svd(np.concatenate([T, np.zeros((d - fd, d))]))[2][-1], T


def wrappers(spec):
    if spec[0] in ("hdiv", "hcurl"):
        return {spec[0]}
    if spec[0] == "flat":
        return wrappers(spec[1])
    if spec[0] == "enr":
        return set().union(*map(wrappers, spec[1]))
    return set()


def run(case, rec):
    import FIAT
    rng = core.rng_for(case["seed"], "c07")
    spec = case["spec"]
    name = json.dumps(spec)
    mod = model.model(spec)
    elem = model.build(spec)
    rec.note({"element": spec})
    tabcheck.shape_facts(rec, "hwrap", elem, mod, name)
    tabcheck.dof_facts(rec, "hwrap", elem, mod, name)
    big = model.prod(mod.index_shape) * model.prod(mod.value_shape)
    order = int(rng.integers(0, 3)) if big < 100 else int(rng.integers(0, 2))
    tabcheck.run_tab(rec, "hwrap", elem, mod, order, rng,
                     tabcheck.entity_list(mod.cell, rng, 2 if case["tier"] == "quick" else 4), name)
    # conformity
    op, = wrappers(spec)
    d = mod.cell.get_spatial_dimension()
    clos = elem.entity_closure_dofs()
    facets = [e for e in geom.entities(mod.cell) if geom.entity_sdim(e[0]) == d - 1]
    nodal_h1 = {"Lagrange", "GaussLobattoLegendre", "IntegratedLegendre", "FDMLagrange"}
    for ent in facets:
        sub = tabcheck.sub_of(mod.cell, ent)
        x = geom.random_points(rng, sub, 3)
        from finat.point_set import PointSet
        t = gemeval.tab(elem, 0, PointSet(x), ent)
        v = t[(0,) * d].reshape(3, -1, d)
        nrm, T = facet_normal(mod.cell, ent)
        tr = v @ nrm if op == "hdiv" else v @ T.T
        mag = np.abs(tr).reshape(3, v.shape[1], -1).max(axis=(0, 2))
        own = set(int(i) for i in clos[ent[0]][ent[1]])
        bad = [i for i in range(len(mag)) if i not in own and mag[i] > 1e-9 * max(1, np.abs(v).max())]
        rec.check(not bad, "hwrap:conformity", "%s: functions %s have a nonzero %s trace on facet %s although their dofs are not on it"
                  % (name, bad[:6], "normal" if op == "hdiv" else "tangential", ent))
        rec.seen("facet_traces")
    # FIAT's wrapper, built here from FIAT leaves (two-factor, leaf-only)
    if spec[0] in ("hdiv", "hcurl") and all(s[0] == "leaf" for s in spec[1][1]):
        fs = [model.model(s).fiat for s in spec[1][1]]
        try:
            F = (FIAT.Hdiv if op == "hdiv" else FIAT.Hcurl)(FIAT.TensorProductElement(*fs))
        except NotImplementedError:
            rec.seen("fiat_wrapper_unsupported")
            return
        x = geom.random_points(rng, mod.cell, 3)
        from finat.point_set import PointSet
        ft = F.tabulate(1, x, (mod.cell.get_dimension(), 0))
        want = {a: np.moveaxis(t, -1, 0).reshape(3, -1, d) for a, t in ft.items()}
        got = {a: t.reshape(3, -1, d) for a, t in gemeval.tab(elem, 1, PointSet(x)).items()}
        tabcheck.compare(rec, "hwrap:FIAT", got, want, name)
        rec.seen("fiat_wrapper_comparisons")
