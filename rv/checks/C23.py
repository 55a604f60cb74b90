import itertools
import json

import numpy as np

from rv import core, gemeval, geom, model

model.MACRO_RATE = .12
PROPERTY = "C23"
ROUNDS = 20
RULE = ("a case is a product element (products, flattened, blocked, H(div)/H(curl)-wrapped, enriched, mixed) tabulated at a product point set on the cell or on "
        "an entity: the expression may use only the one-directional tables the factors themselves produce, its point indices are one per "
        "direction, and contracting it with coefficients (or dual-evaluating it) costs no more than a small multiple of the best "
        "direction-by-direction cost. Distinct by (element, sizes, entity).")
MIN = {"expressions": 300, "contractions": 100, "dual_contractions": 30, "weights": 30, "samplings": 30}
ASSUMPTIONS = ["gem's contraction routine finds a near-optimal order for a product of at most three factors"]
SLACK = 1.5
NODAL = ("Lagrange", "DiscontinuousLagrange", "GaussLobattoLegendre", "GaussLegendre")


def leaf1d(rng, n):
    return ["leaf", model.pick(rng, ["Lagrange", "DiscontinuousLagrange", "GaussLobattoLegendre", "GaussLegendre", "Legendre", "IntegratedLegendre"]), "interval", n, {}]


def cases(rng, tier):
    out = []
    for i in range(260 if tier == "quick" else 4000):
        n = int(rng.integers(2, 4)) if rng.random() < .6 else 2
        tri = rng.random() < .3
        d = int(rng.integers(3, 8))
        same = rng.random() < .5
        degs = [d if same else int(rng.integers(1, 8)) for _ in range(n)]
        if tri:
            fs = [["leaf", model.pick(rng, ["Lagrange", "DiscontinuousLagrange"]), "triangle", int(rng.integers(1, 4)), {}], leaf1d(rng, degs[0])]
        else:
            fs = [leaf1d(rng, k) for k in degs]
        if len(fs) == 3 and rng.random() < .4:
            spec = ["tpe", [["tpe", fs[:2]], fs[2]]] if rng.random() < .5 else ["tpe", [["flat", ["tpe", fs[:2]]], fs[2]]]
        else:
            spec = ["tpe", fs]
        kind = model.pick(rng, ["plain", "plain", "flat", "flat", "tensor", "enr", "mix", "disc", "hwrap"])
        if kind == "hwrap":
            k = int(rng.integers(2, 8))
            spec = ["hdiv" if rng.random() < .5 else "hcurl", ["tpe", [["leaf", "Lagrange", "interval", k, {}], ["leaf", "DiscontinuousLagrange", "interval", k - 1, {}]]]]
            if rng.random() < .5:
                spec = ["flat", spec]
        elif kind == "flat" and not tri:
            spec = ["flat", spec]
        elif kind == "tensor":
            spec = ["tensor", spec if tri else ["flat", spec], [int(rng.integers(2, 4))], bool(rng.integers(2))]
        elif kind in ("enr", "mix") and not tri:
            other = ["tpe", [leaf1d(rng, 2) for _ in fs]]
            if spec[1][0][0] != "leaf":
                spec = ["tpe", fs]
            spec = [kind, [spec, other]]
            if rng.random() < .5:
                spec = [kind, [["flat", s] for s in spec[1]]]
        elif kind == "disc":
            spec = ["disc", spec]
        out.append({"spec": spec, "order": int(rng.integers(0, 3)), "seed": int(rng.integers(1 << 30))})
    return out


def leaves(spec):
    """Leaf factors in order, for a spec without sums."""
    if spec[0] == "leaf":
        return [spec]
    if spec[0] == "tpe":
        return [x for s in spec[1] for x in leaves(s)]
    return leaves(spec[1])


def summands(spec):
    if spec[0] in ("enr", "mix"):
        return [x for s in spec[1] for x in summands(s)]
    return [spec]


def nodes(roots):
    from gem.node import traversal
    return traversal(roots)


def literals(roots):
    from gem import gem as G
    return {(n.array.shape, np.asarray(n.array).tobytes()): int(np.prod(n.array.shape)) for n in nodes(roots) if isinstance(n, G.Literal)}


def flops(expr):
    """Scalar operations needed to evaluate the expression with every node computed once."""
    from gem import gem as G
    total = 0
    for n in nodes([expr]):
        ext = 1
        for i in n.free_indices:
            ext *= i.extent
        if isinstance(n, G.IndexSum):
            for i in n.multiindex:
                ext *= i.extent
            total += ext
        elif isinstance(n, (G.Product, G.Sum, G.Division)):
            total += ext
    return total


def best_cost(sizes):
    """min over orders of the cost of contracting u[j1..jk] with A_k[q_k, j_k]."""
    best = None
    for perm in itertools.permutations(range(len(sizes))):
        left = [n for n, q in sizes]
        done, cost = 1, 0
        for k in perm:
            n, q = sizes[k]
            rest = int(np.prod([left[m] for m in range(len(sizes)) if m not in perm[:perm.index(k) + 1]]))
            cost += 2 * done * rest * n * q
            done *= q
        best = cost if best is None else min(best, cost)
    return best


def flat_factors(cell):
    """Leaf cells of a (nested, flattened) product, in order."""
    k = geom.kind(cell)
    if k == "tensor":
        return [x for c in cell.cells for x in flat_factors(c)]
    if k == "cube" and cell.get_spatial_dimension() > 1:
        return flat_factors(cell.product)
    return [cell]


def points_for(rng, spec, ent):
    """A product point set nested like the element; returns (ps, leaf point sets, leaf entities)."""
    from finat.point_set import PointSet, PointSingleton, TensorPointSet
    kind = spec[0]
    cell = model.build(spec).cell
    if kind == "leaf":
        d = cell.get_spatial_dimension() if ent is None else ent[0]
        if d == 0:
            p = PointSingleton(np.zeros(0))
        else:
            p = PointSet(geom.random_points(rng, cell.construct_subelement(d), int(rng.integers(4, 10))))
        return p, [p], [ent]
    if kind == "tpe":
        ents = [None] * len(spec[1]) if ent is None else geom.factor_entity(cell, *ent)
        parts = [points_for(rng, s, e) for s, e in zip(spec[1], ents)]
        return TensorPointSet([p[0] for p in parts]), [x for p in parts for x in p[1]], [x for p in parts for x in p[2]]
    if kind == "flat":
        if ent is not None:
            from FIAT.reference_element import compute_unflattening_map
            ent = compute_unflattening_map(model.build(spec[1]).cell.get_topology())[ent]
        return points_for(rng, spec[1], ent)
    if kind in ("enr", "mix"):
        return points_for(rng, spec[1][0], ent)
    return points_for(rng, spec[1], ent)


def run(case, rec):
    import gem
    rng = core.rng_for(case["seed"], "c23")
    spec, order = case["spec"], case["order"]
    name = json.dumps(spec)
    elem = model.build(spec)
    cell = elem.cell
    rec.note({"element": spec})
    for ent in [None] + ([geom.entities(cell)[int(rng.integers(len(geom.entities(cell))))]] if rng.random() < .5 else []):
        dim = cell.get_dimension() if ent is None else ent[0]
        if geom.entity_sdim(dim) == 0:
            continue
        ps, parts, ents = points_for(rng, spec, ent)
        table = elem.basis_evaluation(order, ps, ent)
        rec.key(name, order, ent, tuple(len(p.points) for p in parts))
        rec.seen("expressions")
        # point indices: exactly those of the point set, never more
        for a, e in table.items():
            rec.check(set(e.free_indices) <= set(ps.indices), "sumfact:indices", "%s on %s: free indices %s of d%s are not point indices"
                      % (name, ent, e.free_indices, a))
        # only one-directional tables
        allowed, biggest, total = {}, 0, 0
        for s in summands(spec):
            for lf, p, e in zip(leaves(s), parts, ents):
                le = model.build(lf)
                lits = literals(list(le.basis_evaluation(order, p, e).values()))
                total += sum(lits.values())
                biggest = max([biggest] + list(lits.values()))
        got = literals(list(table.values()))
        small = 3 * cell.get_spatial_dimension() ** 2
        rec.check(max(list(got.values()) + [0]) <= max(biggest, small), "sumfact:table-size",
                  "%s on %s at %s points: a table of %d entries, the factors need at most %d" % (name, ent, [len(p.points) for p in parts], max(list(got.values()) + [0]), biggest))
        rec.check(sum(got.values()) <= total + 16 * small, "sumfact:table-total",
                  "%s on %s: %d tabulated entries, the factors need %d" % (name, ent, sum(got.values()), total))
        # contraction with coefficients
        if spec[0] in ("enr", "mix"):
            continue
        sizes = [(model.build(lf).space_dimension(), len(p.points)) for lf, p in zip(leaves(spec), parts)]
        naive = 2 * int(np.prod([n * q for n, q in sizes]))
        ncomp = model.prod(elem.value_shape) or 1
        block = model.prod(spec[2]) if spec[0] == "tensor" else 1
        bound = best_cost(sizes) * ncomp * SLACK + 60 * ncomp
        ii = elem.get_indices()
        vi = elem.get_value_indices()
        for a in sorted(table)[:3]:
            u = gem.Variable("u", elem.index_shape)
            expr = gem.IndexSum(gem.Product(gem.Indexed(table[a], ii + vi), gem.Indexed(u, ii)), ii)
            got_cost = flops(gem.optimise.contraction(expr))
            rec.check(got_cost <= bound, "sumfact:cost", "%s on %s: contracting d%s costs %d operations, direction by direction needs %d, unfactorised %d"
                      % (name, ent, a, got_cost, best_cost(sizes) * ncomp, naive * ncomp * block))
            rec.seen("contractions")
            if naive * ncomp * block > 2 * bound:
                rec.seen("contractions_where_naive_exceeds_bound")
    # dual evaluation of the same kind of function
    if spec[0] in ("enr", "mix", "hdiv", "hcurl", "disc") or "hdiv" in name or "hcurl" in name:
        pass
    else:
        try:
            Q, x = elem.dual_basis
        except (NotImplementedError, AttributeError):
            Q = None
        if Q is not None:
            got = literals([Q])
            mx = max([max(list(literals([model.build(lf).dual_basis[0]]).values()) + [0]) for lf in leaves(spec)])
            rec.check(max(list(got.values()) + [0]) <= max(mx, 9), "sumfact:dual-size", "%s: dual weights of %d entries, the factors need at most %d"
                      % (name, max(list(got.values()) + [0]), mx))
            u = gem.Variable("u", elem.index_shape)

            def fn(ps):
                t = elem.basis_evaluation(0, ps)
                e, = t.values()
                ii, vi = elem.get_indices(), elem.get_value_indices()
                return gem.ComponentTensor(gem.IndexSum(gem.Product(gem.Indexed(e, ii + vi), gem.Indexed(u, ii)), ii), vi) if vi else \
                    gem.IndexSum(gem.Product(gem.Indexed(e, ii), gem.Indexed(u, ii)), ii)
            expr, idx = elem.dual_evaluation(fn)
            duals = [(model.build(lf).space_dimension(), model.build(lf).dual_basis[1]) for lf in leaves(spec)]
            sizes = [(n, len(p.points)) for n, p in duals]
            ncomp = model.prod(elem.value_shape) or 1
            bound = (best_cost(sizes) + best_cost([(q, n) for n, q in sizes])) * ncomp * SLACK + 400 * ncomp
            cost = flops(expr)
            naive = 2 * int(np.prod([n * q for n, q in sizes])) * ncomp
            rec.check(cost <= bound, "sumfact:dual-cost", "%s: dual evaluation costs %d operations, direction by direction needs about %d" % (name, cost, bound / SLACK))
            rec.seen("dual_contractions")
            if 2 * naive > bound:
                rec.seen("dual_contractions_where_naive_exceeds_bound")
    # the dual of point-nodal elements is pure sampling
    if "hdiv" not in name and "hcurl" not in name and spec[0] in ("tpe", "flat", "tensor") and all(lf[1] in NODAL for lf in leaves(spec)):
        x = elem.dual_basis[1]
        ext = tuple(i.extent for i in x.indices)
        shape = tuple(elem.value_shape)

        def sample(ps):
            vi = tuple(gem.Index(extent=n) for n in shape)
            e = gem.Indexed(gem.Variable("f", ext + shape), tuple(ps.indices) + vi)
            return gem.ComponentTensor(e, vi) if vi else e
        expr, idx = elem.dual_evaluation(sample)
        got = flops(expr)
        rec.check(got == 0, "sumfact:sampling", "%s: evaluating the dofs of a nodal element takes %d operations" % (name, got))
        rec.seen("samplings")
    # quadrature weights stay factorised
    if rng.random() < .3 and spec[0] in ("tpe", "flat"):
        from finat.quadrature import make_quadrature
        deg = [int(rng.integers(3, 10)) for _ in flat_factors(cell)]
        c = cell.product if geom.kind(cell) == "cube" else cell
        if geom.kind(c) == "tensor" and all(geom.kind(s) == "simplex" for s in c.cells):
            rule = make_quadrature(c, tuple(deg))
            fac = [make_quadrature(s, k) for s, k in zip(c.cells, deg)]
            got = literals([rule.weight_expression])
            rec.check(max(got.values()) <= max(len(f.point_set.points) for f in fac), "sumfact:weights",
                      "%s degree %s: weight table of %d entries" % (c, deg, max(got.values())))
            rec.check(len(rule.point_set.indices) == len(c.cells), "sumfact:weight-indices", "%s: point indices %s" % (c, rule.point_set.indices))
            rec.seen("weights")
