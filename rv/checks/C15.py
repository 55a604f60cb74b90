import itertools
import json

import numpy as np

from rv import core, gemeval, geom, model, tabcheck

PROPERTY = "C15"
ROUNDS = 5
RULE = ("a case is a Gauss-Lobatto-Legendre or Gauss-Legendre element, or a product, flattened, blocked, enriched or H(div)/H(curl)-wrapped "
        "composition of them, with labelled Gauss point sets of matching, smaller or larger size on the cell and on its entities, any "
        "derivative order; every table is compared with the reference, and matching interval tables must be exactly the identity. "
        "Distinct by (element, point sets, entity).")
MIN = {"collocated": 60, "tabulations": 300}
ASSUMPTIONS = ["FIAT's GL/GLL nodes and quadrature points coincide"]
CELLS = ["interval", "quadrilateral", "hexahedron", ["interval", "interval"], ["interval", "interval", "interval"], ["triangle", "interval"],
         ["quadrilateral", "interval"]]


def g(rng):
    nm = ["GaussLobattoLegendre", "GaussLegendre"][int(rng.integers(2))]
    return ["leaf", nm, "interval", int(rng.integers(1 if nm[5] == "L" and nm[6] == "o" else 0, 6)), {}]


def draw(rng, cell):
    if cell == "interval":
        return g(rng)
    if cell == "quadrilateral":
        return ["flat", ["tpe", [g(rng), g(rng)]]]
    if cell == "hexahedron":
        return ["flat", ["tpe", [g(rng), g(rng), g(rng)]]]
    if cell == "triangle":
        return ["leaf", "Lagrange", "triangle", int(rng.integers(1, 3)), {}]
    return ["tpe", [draw(rng, c) for c in cell]]


def cases(rng, tier):
    out = []
    for nm, lo in (("GaussLobattoLegendre", 1), ("GaussLegendre", 0)):
        for d in range(lo, 17):
            out.append({"spec": ["leaf", nm, "interval", d, {}], "seed": d, "n": None})
            for n in (d, d + 1, d + 2):
                out.append({"spec": ["leaf", nm, "interval", d, {}], "seed": d, "n": n})
    k = 2500 if tier == "quick" else 60000
    for _ in range(k):
        cell = CELLS[int(rng.integers(len(CELLS)))]
        s = draw(rng, cell)
        u = rng.random()
        if u < .15:
            s = ["tensor", s, [2], bool(rng.integers(2))]
        elif u < .25:
            s = ["disc", s]
        elif u < .35:
            s = ["enr", [s, draw(rng, cell)]]
        elif u < .5 and cell in ("quadrilateral", ["interval", "interval"]):
            d = int(rng.integers(1, 4))
            a, b = ["leaf", "GaussLobattoLegendre", "interval", d, {}], ["leaf", "GaussLegendre", "interval", d - 1, {}]
            t = ["tpe", [a, b] if rng.integers(2) else [b, a]]
            s = ["hdiv" if rng.integers(2) else "hcurl", t]
            if cell == "quadrilateral":
                s = ["flat", s] if False else s
        out.append({"spec": s, "seed": int(rng.integers(1 << 30)), "n": None})
    return out


def gauss(kind, n, K):
    from FIAT.quadrature import GaussLegendreQuadratureLineRule, GaussLobattoLegendreQuadratureLineRule
    from finat.point_set import GaussLegendrePointSet, GaussLobattoLegendrePointSet
    if kind == "gll" and n > 1:
        return GaussLobattoLegendrePointSet(GaussLobattoLegendreQuadratureLineRule(K, n).get_points())
    return GaussLegendrePointSet(GaussLegendreQuadratureLineRule(K, n).get_points())


def line_sizes(spec):
    """Per axis of the cell, numbers of points worth trying."""
    op = spec[0]
    if op == "leaf":
        return [[spec[3] + 1]] if spec[2] == "interval" else [None]
    if op in ("tpe",):
        return [x for s in spec[1] for x in line_sizes(s)]
    if op == "enr":
        return [(a or []) + (b or []) if a or b else None for a, b in zip(line_sizes(spec[1][0]), line_sizes(spec[1][1]))]
    return line_sizes(spec[1])


def kinds_of(spec):
    op = spec[0]
    if op == "leaf":
        return [["gll"] if spec[1] == "GaussLobattoLegendre" else ["gl"]] if spec[2] == "interval" else [None]
    if op == "tpe":
        return [x for s in spec[1] for x in kinds_of(s)]
    if op == "enr":
        return [(a or []) + (b or []) if a or b else None for a, b in zip(kinds_of(spec[1][0]), kinds_of(spec[1][1]))]
    return kinds_of(spec[1])


def build_ps(rng, sub, axes, alive):
    """Point set on the sub-cell: Gauss sets on interval axes."""
    import FIAT
    from finat.point_set import PointSet, TensorPointSet
    k = geom.kind(sub)
    if k == "tensor":
        parts = []
        for c in sub.cells:
            m = naxes(c)
            parts.append(build_ps(rng, c, axes[:m], alive))
            axes = axes[m:]
        return TensorPointSet(parts)
    d = sub.get_spatial_dimension()
    if d == 0:
        return PointSet(np.zeros((1, 0)))
    if d == 1 or k == "cube":
        parts = []
        for a in axes:
            sizes, kinds = a if a else ([2], ["gl"])
            i = int(rng.integers(len(sizes)))
            n = sizes[i] if rng.random() < .75 else int(rng.integers(1, 5))
            kd = kinds[i] if rng.random() < .8 else ["gl", "gll"][int(rng.integers(2))]
            if rng.random() < .1:
                parts.append(PointSet(rng.uniform(0, 1, (n, 1))))
            else:
                parts.append(gauss(kd, n, FIAT.ufc_simplex(1)))
        return parts[0] if d == 1 else TensorPointSet(parts)
    return PointSet(geom.random_points(rng, sub, 3))


def naxes(c):
    k = geom.kind(c)
    if k == "tensor":
        return sum(naxes(x) for x in c.cells)
    return c.get_spatial_dimension() if k == "cube" else 1


def all_points(ps):
    if hasattr(ps, "factors"):
        return np.array([np.concatenate(t) for t in itertools.product(*[all_points(p) for p in ps.factors])])
    return np.asarray(ps.points, float)


def run(case, rec):
    import FIAT
    import gem
    from rv.checks.C23 import flops
    rng = core.rng_for(case["seed"], "c15")
    spec = case["spec"]
    name = json.dumps(spec)
    mod = model.model(spec)
    if model.prod(mod.index_shape) > 400:
        raise core.Skip("large")
    elem = model.build(spec)
    rec.note({"element": spec})
    K = mod.cell
    if spec[0] == "leaf":
        n = case["n"] or spec[3] + 1
        for kd in ("gl", "gll"):
            ps = gauss(kd, n, K)
            for ent in (None, (1, 0)):
                x = np.asarray(ps.points)
                o = 2
                got = gemeval.tab(elem, o, ps, ent)
                rec.seen("tabulations")
                rec.key(name, kd, n, ent)
                tabcheck.compare(rec, "spectral", got, mod.tab(o, x, ent), "%s at %d %s points" % (name, n, kd), rtol=1e-8)
                if n == spec[3] + 1 and (kd == "gll") == (spec[1] == "GaussLobattoLegendre") and type(ps).__name__.startswith("GaussLobatto") == (kd == "gll"):
                    rec.seen("collocated")
                    rec.check(np.array_equal(got[(0,)], np.eye(n)), "spectral:identity",
                              "%s: not exactly the identity at its %d nodes" % (name, n))
                    i, = elem.get_indices()
                    table = elem.basis_evaluation(o, ps, ent)[(0,)]
                    u = gem.Variable("u", (n,))
                    cost = flops(gem.optimise.contraction(gem.IndexSum(gem.Product(gem.Indexed(table, (i,)), gem.Indexed(u, (i,))), (i,))))
                    rec.seen("collocated_symbolically")
                    rec.check(cost == 0 or n == 1, "spectral:symbolic", "%s entity %s: interpolating at its own nodes takes %d operations" % (name, ent, cost))
        # facets of the interval
        from finat.point_set import PointSet
        for e in (0, 1):
            got = gemeval.tab(elem, 1, PointSet(np.zeros((1, 0))), (0, e))
            tabcheck.compare(rec, "spectral", got, mod.tab(1, np.zeros((1, 0)), (0, e)), "%s at vertex %d" % (name, e), rtol=1e-8)
        return
    axes = [None if s is None else (s, k) for s, k in zip(line_sizes(spec), kinds_of(spec))]
    for ent in tabcheck.entity_list(K, rng, 3):
        sub = tabcheck.sub_of(K, ent)
        ax = list(axes)
        if geom.kind(K) == "cube" and ent is not None and ent[0] < K.get_spatial_dimension():
            # axes along which the entity extends
            V = geom.entity_vertices(K, *ent)
            ax = [a for a, w in zip(axes, np.ptp(V, axis=0)) if w > .5]
            if not ax:
                ax = []
        if sub.get_spatial_dimension() == 0 and geom.kind(sub) != "tensor":
            from finat.point_set import PointSet
            ps = PointSet(np.zeros((1, 0)))
        else:
            ps = build_ps(rng, sub, ax, None)
        x = all_points(ps)
        o = int(rng.integers(0, 3))
        got = gemeval.tab(elem, o, ps, ent)
        rec.seen("tabulations")
        rec.key(name, ent, str([len(getattr(p, "points", [])) for p in getattr(ps, "factors", [])]))
        tabcheck.compare(rec, "spectral", got, mod.tab(o, x, ent), "%s on entity %s at Gauss points" % (name, ent), rtol=1e-8)
