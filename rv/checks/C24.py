import json

import numpy as np

from rv import core, dualcheck, gemeval, geom, model, tabcheck, zany
from rv.points import make_ps

PROPERTY = "C24"
RULE = ("a case is a set of elements sharing sub-element, cell and point-set objects, and a random history of queries (tabulations, point evaluations, dof maps, "
        "permutations, duals, derived elements, physical geometries). Every answer must equal the answer of a fresh object asked only that, "
        "before and after the history; and nothing handed out earlier, nor any argument, may have changed at the end. Distinct by (element, query, position in history).")
MIN = {"queries": 3000, "answers_compared": 6000, "snapshots_rechecked": 3000}
ASSUMPTIONS = ["numerical agreement to 1e-12 means equal answers"]

DOMAINS = ["interior", "vertex", "edge", "face", "facet"]


def cases(rng, tier):
    out = []
    cat = zany.catalog()
    cheap = [c for c in cat if not (c["dim"] == 3 and (c["kw"].get("degree", 0) > 0 or c["kw"].get("order", 0) > 0 or c["name"].startswith("GuzmanNeilan")))
             and c["dim"] > 1 and not (c["name"] == "HuZhang" and c["kw"]["degree"] > 3) and not (c["name"] == "Argyris" and c["kw"]["degree"] > 6)]
    for i in range(300 if tier == "quick" else 5000):
        if rng.random() < .3:
            cs = [cheap[int(rng.integers(len(cheap)))]]
            same = [c for c in cheap if c["dim"] == cs[0]["dim"]]
            cs.append(same[int(rng.integers(len(same)))])
            out.append({"zany": cs, "n": 5 if tier == "quick" else 8, "seed": int(rng.integers(1 << 30))})
            continue
        cell = model.pick(rng, model.CELLS)
        base = model.safe(model.rand_any, rng, cell, 0)
        specs = [base]
        for _ in range(2):
            u = rng.random()
            if u < .3:
                specs.append(["tensor", base, [int(rng.integers(1, 4))], bool(rng.integers(2))])
            elif u < .5:
                specs.append(["mix", [base, base]])
            elif u < .6:
                specs.append(["enr", [base, base]])
            elif u < .7:
                specs.append(["disc", base])
            elif u < .85 and not model.model(base).value_shape:
                specs.append(["tpe", [base, base]] if model.model(base).cell.get_spatial_dimension() == 1 else ["tpe", [base, ["leaf", "Lagrange", "interval", 2, {}]]])
            else:
                specs.append(model.safe(model.rand_any, rng, cell, 2))
        if rng.random() < .3:
            specs.append(model.safe(lambda r: model.rand_hwrap(r, cap=2), rng))
        out.append({"specs": specs, "n": 14, "seed": int(rng.integers(1 << 30))})
    return out


def build_shared(spec, memo, cells):
    """Build with one object per distinct sub-specification and one cell object per cell."""
    import finat
    key = json.dumps(spec)
    if key in memo:
        return memo[key]
    op = spec[0]
    if op == "leaf":
        _, name, cell, degree, kw = spec
        ck = json.dumps(cell)
        if ck not in cells:
            cells[ck] = geom.cell_from(cell)
        e = getattr(finat, name)(cells[ck], degree, **kw)
    elif op in ("tpe", "enr", "mix", "nodal"):
        cls = {"tpe": finat.TensorProductElement, "enr": finat.EnrichedElement, "mix": finat.MixedElement, "nodal": finat.NodalEnrichedElement}[op]
        e = cls([build_shared(s, memo, cells) for s in spec[1]])
    elif op == "tensor":
        e = finat.TensorFiniteElement(build_shared(spec[1], memo, cells), tuple(spec[2]), transpose=bool(spec[3]))
    else:
        cls = {"flat": finat.FlattenedDimensions, "hdiv": finat.HDivElement, "hcurl": finat.HCurlElement, "disc": finat.DiscontinuousElement}[op]
        e = cls(build_shared(spec[1], memo, cells))
    memo[key] = e
    return e


def canon(x):
    """Deep copy of a (possibly mutable) answer as nested tuples and arrays."""
    if isinstance(x, dict):
        return ("dict", tuple((repr(k), canon(v)) for k, v in sorted(x.items(), key=lambda kv: repr(kv[0]))))
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(canon(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if isinstance(x, range):
        return ("seq", tuple(int(v) for v in x))
    if isinstance(x, np.ndarray):
        return np.array(x, copy=True)
    if isinstance(x, (np.integer,)):
        return int(x)
    return x if isinstance(x, (int, float, str, type(None), bool)) else repr(x)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and (a.size == 0 or np.allclose(a, b, rtol=1e-12, atol=1e-12 * max(1.0, float(np.abs(a).max()))))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))
    return a == b


def numbers(tabs):
    return {str(k): v for k, v in tabs.items()}


class World:
    """Arguments shared by every query of a case."""

    def __init__(self, rng, cell, geos=()):
        self.cell = cell
        self.geos = list(geos)
        self.points = {}
        self.rng = rng

    def ps(self, ent, which, interior):
        key = (ent[0] if ent is not None else None, which, interior)
        if key not in self.points:
            sub = tabcheck.sub_of(self.cell, ent)
            self.points[key] = make_ps(self.rng, sub, interior=interior)
        return self.points[key][0]


def ask(elem, q, world):
    """The answer to one query as a canonical, evaluated value, plus the raw answer."""
    import finat
    kind = q["kind"]
    ent = q.get("ent")
    ent = None if ent is None else ((tuple(ent[0]) if isinstance(ent[0], (list, tuple)) else ent[0]), ent[1])
    kw = {}
    if world.geos:
        kw = {"coordinate_mapping": world.geos[q["geo"]]}
    raw = None
    try:
        if kind == "tab":
            ps = world.ps(ent, q["which"], q["interior"])
            raw = elem.basis_evaluation(q["order"], ps, ent, **kw)
            ans = numbers({a: gemeval.flatpts(v, ps) for a, v in raw.items()})
        elif kind == "ptab":
            X = np.asarray(world.ps(ent, q["which"], q["interior"]).points).reshape(-1, geom.entity_sdim(ent[0] if ent else world.cell.get_dimension()))
            ans, raw = gemeval.ptab(elem, q["order"], X, ent)
            ans = numbers(ans)
        elif kind == "maps":
            raw = [elem.entity_dofs(), elem.entity_closure_dofs(), elem.index_shape, elem.value_shape, elem.space_dimension(), elem.mapping]
            ans = raw
        elif kind == "support":
            raw = elem.entity_support_dofs()
            ans = raw
        elif kind == "perms":
            raw = elem.entity_permutations
            ans = raw
        elif kind == "meta":
            out = []
            for n in ("degree", "formdegree"):
                try:
                    out.append(canon(getattr(elem, n)))
                except (ValueError, NotImplementedError, AttributeError, TypeError) as e:
                    out.append(type(e).__name__)
            ans = out
        elif kind == "dual":
            Q, x = elem.dual_basis
            raw = [Q]
            ans = [gemeval.arr(Q, x.indices), np.asarray(x.points)]
        elif kind == "dualeval":
            r = np.random.default_rng(q["seed"])
            _, g = dualcheck.rand_poly(r, world.cell.get_spatial_dimension(), elem.value_shape, 2)
            ans, _ = dualcheck.apply_dual(elem, lambda ps: g(ps.expression))
        elif kind == "fiat":
            f = elem.fiat_equivalent
            ps = world.ps(None, 0, True)
            if not world.geos:
                x = np.asarray(ps.points).reshape(-1, world.cell.get_spatial_dimension())
                t = f.tabulate(0, x, (world.cell.get_dimension(), 0))
                ans = {str(k): v for k, v in t.items()}
            else:
                ans = f.space_dimension()
        elif kind == "restrict":
            e = finat.RestrictedElement(elem, q["domain"])
            ps = world.ps(None, q["which"], True)
            ans = [e.entity_dofs(), numbers(gemeval.tab(e, 0, ps, None, **kw))]
        elif kind == "disc":
            e = finat.DiscontinuousElement(elem)
            ps = world.ps(None, q["which"], True)
            ans = [e.entity_dofs(), numbers(gemeval.tab(e, 0, ps, None, **kw))]
        elif kind == "block":
            e = finat.TensorFiniteElement(elem, (2,), transpose=bool(q["seed"] % 2))
            ps = world.ps(None, q["which"], True)
            ans = [e.entity_dofs(), numbers(gemeval.tab(e, 0, ps, None, **kw))]
        elif kind == "transform":
            raw = elem.basis_transformation(world.geos[q["geo"]])
            ans = gemeval.arr(raw)
        else:
            raise ValueError(kind)
    except (NotImplementedError, ValueError, AttributeError, TypeError, AssertionError, RecursionError, KeyError, gemeval.UndefinedValue) as e:
        ans = "refused:" + type(e).__name__
    return canon(ans), raw


def recheck(elem, q, world, raw):
    """Re-evaluate an answer handed out earlier."""
    kind = q["kind"]
    ent = q.get("ent")
    ent = None if ent is None else ((tuple(ent[0]) if isinstance(ent[0], (list, tuple)) else ent[0]), ent[1])
    if kind == "tab":
        ps = world.ps(ent, q["which"], q["interior"])
        return canon(numbers({a: gemeval.flatpts(v, ps) for a, v in raw.items()}))
    if kind == "transform":
        return canon(gemeval.arr(raw))
    if kind in ("maps", "support", "perms"):
        return canon(raw)
    return None


def cell_state(cell):
    out = [canon(cell.get_vertices()), canon(cell.get_topology())]
    if geom.kind(cell) == "simplex" and cell.get_spatial_dimension() > 0:
        d = cell.get_spatial_dimension()
        try:
            out += [canon([cell.compute_normal(i) for i in cell.get_topology()[d - 1]]),
                    canon([cell.compute_edge_tangent(i) for i in cell.get_topology()[1]]),
                    canon([cell.compute_normalized_edge_tangent(i) for i in cell.get_topology()[1]]),
                    canon([cell.compute_tangents(d - 1, i) for i in cell.get_topology()[d - 1]])]
        except Exception as e:
            out.append(type(e).__name__)
    return ("seq", tuple(out))


def run(case, rec):
    rng = core.rng_for(case["seed"], "c24")
    if "zany" in case:
        import FIAT
        dim = case["zany"][0]["dim"]
        cell = FIAT.ufc_simplex(dim)
        names = [zany.label(c) for c in case["zany"]]
        fresh = [lambda c=c: zany.build(c, FIAT.ufc_simplex(dim)) for c in case["zany"]]
        shared = [zany.build(c, cell) for c in case["zany"]]
        cells = [cell] * len(shared)
        geos = []
        for _ in range(2):
            g = zany.Geometry(FIAT.ufc_simplex(dim), zany.random_simplex(rng, dim), h=rng.uniform(.5, 2, dim + 1))
            if dim == 3:
                g.normals = rng.standard_normal((4, 3))
                g.tangents = rng.standard_normal((6, 3))
                g.tangents /= np.linalg.norm(g.tangents, axis=1)[:, None]
                g.normals /= np.linalg.norm(g.normals, axis=1)[:, None]
            geos.append(frozen(g.mapping()))
        kinds = ["tab", "tab", "tab", "transform", "transform", "maps", "meta", "fiat", "restrict", "disc", "block", "support", "dual"]
    else:
        names = [json.dumps(s) for s in case["specs"]]
        memo, cellmemo = {}, {}
        shared = [build_shared(s, memo, cellmemo) for s in case["specs"]]
        fresh = [lambda s=s: model.build(s) for s in case["specs"]]
        cells = [model.model(s).cell for s in case["specs"]]
        geos = []
        for s in case["specs"]:
            m = model.model(s)
            if model.prod(m.index_shape) * model.prod(m.value_shape) > 400:
                raise core.Skip("large")
        kinds = ["tab", "tab", "tab", "ptab", "maps", "support", "perms", "meta", "dual", "dualeval", "fiat", "restrict", "disc", "block"]
    rec.note({"elements": names})
    worlds = []
    ids = {}
    for k, c in enumerate(cells):
        key = "zany" if "zany" in case else json.dumps(model.cell_of(case["specs"][k])) + type(c).__name__
        if key not in ids:
            ids[key] = World(rng, c, geos)
        worlds.append(ids[key])
    # the queries
    queries = []
    for _ in range(case["n"]):
        k = int(rng.integers(len(shared)))
        kind = kinds[int(rng.integers(len(kinds)))]
        q = {"kind": kind, "seed": int(rng.integers(1 << 30)), "which": int(rng.integers(2)), "order": int(rng.integers(0, 3)), "interior": bool(rng.integers(2)),
             "geo": int(rng.integers(2)), "domain": DOMAINS[int(rng.integers(len(DOMAINS)))]}
        ents = geom.entities(cells[k])
        if kind in ("tab", "ptab") and rng.random() < .5:
            q["ent"] = ents[int(rng.integers(len(ents)))]
        if "zany" not in case and (model.model(case["specs"][k]).macro or model.prod(model.model(case["specs"][k]).index_shape) > 300):
            q["order"] = 0
        queries.append((k, q))
    if rng.random() < .6:
        # one question about all entities of a dimension, one after the other
        k = int(rng.integers(len(shared)))
        q = dict(queries[int(rng.integers(len(queries)))][1])
        q.update(kind="tab" if "zany" in case else ["tab", "ptab", "ptab"][int(rng.integers(3))], order=int(rng.integers(0, 2)))
        if "zany" not in case and (model.model(case["specs"][k]).macro or model.prod(model.model(case["specs"][k]).index_shape) > 300):
            q["order"] = 0
        dims = sorted({e[0] for e in geom.entities(cells[k])}, key=repr)
        dd = dims[int(rng.integers(len(dims)))]
        es = [e for e in geom.entities(cells[k]) if e[0] == dd]
        for i in rng.permutation(len(es))[:4]:
            queries.append((k, dict(q, ent=es[int(i)])))
    if rng.random() < .5:
        # ask some questions again later
        queries += [queries[int(i)] for i in rng.integers(0, len(queries), 4)]
    # make the arguments up front so that every phase uses the same ones
    for k, q in queries:
        ent = q.get("ent")
        worlds[k].ps(ent, q["which"], q["interior"])
        worlds[k].ps(None, q["which"], True)
        worlds[k].ps(None, 0, True)
    args0 = canon([[np.asarray(p[0].points) for _, p in sorted(w.points.items(), key=lambda kv: repr(kv[0]))] for w in worlds])
    geo0 = canon([geo_state(g) for g in geos])
    state0 = [cell_state(c) for c in cells]
    def reference():
        out = {}
        for i in rng.permutation(len(queries)):
            k, q = queries[int(i)]
            key = (k, json.dumps(q, default=str))
            if key not in out:
                out[key] = ask(fresh[k](), q, worlds[k])[0]
        return out
    before = reference()
    held = []
    for pos, (k, q) in enumerate(queries):
        ans, raw = ask(shared[k], q, worlds[k])
        key = (k, json.dumps(q, default=str))
        rec.seen("queries")
        rec.seen("queries_" + q["kind"])
        if isinstance(ans, str) and ans.startswith("refused"):
            rec.seen("refusals")
        rec.key(names[k], q["kind"], q.get("ent"), q["order"], pos)
        rec.check(same(ans, before[key]), "history:answer", "%s: query %d (%s) of the history answers differently from a fresh element: %s vs %s; history %s"
                  % (names[k], pos, brief(q), str(ans)[:200], str(before[key])[:200], [(kk, brief(qq)) for kk, qq in queries[:pos]]))
        rec.seen("answers_compared")
        held.append((k, q, raw, ans))
    for k, q, raw, ans in held:
        if raw is not None and not isinstance(ans, str):
            now = recheck(shared[k], q, worlds[k], raw)
            if now is not None:
                rec.check(same(now, ans), "history:mutated", "%s: the answer to %s changed after later queries" % (names[k], brief(q)))
        rec.seen("snapshots_rechecked")
    after = reference()
    for key in before:
        rec.check(same(before[key], after[key]), "history:global", "%s: a fresh element answers %s differently after the history" % (names[key[0]], key[1][:200]))
        rec.seen("answers_compared")
    args1 = canon([[np.asarray(p[0].points) for _, p in sorted(w.points.items(), key=lambda kv: repr(kv[0]))] for w in worlds])
    rec.check(same(args0, args1), "history:arguments", "%s: a point set changed during the history" % names)
    rec.check(same(geo0, canon([geo_state(g) for g in geos])), "history:geometry", "%s: the physical geometry's arrays changed" % names)
    for c, s in zip(cells, state0):
        rec.check(same(s, cell_state(c)), "history:cell", "%s: the cell changed during the history" % names)


def brief(q):
    return " ".join(str(x) for x in (q["kind"], "order", q["order"], "entity", q.get("ent"), q["domain"] if q["kind"] == "restrict" else ""))


GEO = ["cell_size", "reference_normals", "normalized_reference_edge_tangents", "physical_normals", "physical_tangents", "physical_edge_lengths", "physical_vertices"]


def frozen(m):
    """The same geometry, handing out the same objects every time."""
    for n in GEO:
        v = getattr(m, n)()
        setattr(m, n, lambda v=v: v)
    J, D = m.jacobian_at(None), m.detJ_at(None)
    m.jacobian_at = lambda point: J
    m.detJ_at = lambda point: D
    m._all = [getattr(m, n)() for n in GEO] + [J, D]
    return m


def geo_state(m):
    return [np.array(x.array) if hasattr(x, "array") else float(x.value) for x in m._all]
