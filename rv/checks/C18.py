import itertools
import json

import numpy as np

from rv import core, gemeval, geom, model, zany

PROPERTY = "C18"
RULE = ("a case is an element and two cells sharing a facet - two random physical simplices whose local numbering follows a random "
        "global vertex order, or two product cells glued by translation; the traces the element's space promises to share (values, "
        "gradients, normal/tangential components, facet moments) must agree for matched dofs and vanish for dofs outside the facet's "
        "closure. Distinct by (element, local facet pair, geometry).")
MIN = {"facet_pairs": 300, "dof_pairs": 1000, "zero_traces": 1000, "elements": 100}
ASSUMPTIONS = ["FIAT's reference families are conforming under consistently ordered numbering"]

H2 = ("Argyris", "HsiehCloughTocher", "ReducedHsiehCloughTocher", "Bell", "QuadraticPowellSabin6", "QuadraticPowellSabin12")
H1VEC = ("BernardiRaugel", "BernardiRaugelBubble", "GuzmanNeilanFirstKindH1", "GuzmanNeilanSecondKindH1", "GuzmanNeilanBubble",
         "GuzmanNeilanH1div", "AlfeldSorokina", "ChristiansenHu", "ArnoldQin", "ReducedArnoldQin")
TRACE = {"Morley": "morley", "Hermite": "hermite", "MardalTaiWinther": "mtw", "ArnoldWinther": "sn", "ArnoldWintherNC": "snmom",
         "JohnsonMercier": "sn", "HuZhang": "sn", "Regge": "tt", "HellanHerrmannJohnson": "nn",
         "GopalakrishnanLedererSchoberlFirstKind": "nt", "GopalakrishnanLedererSchoberlSecondKind": "nt"}
TRACE.update({n: "c1" for n in H2})
TRACE.update({n: "value" for n in H1VEC})
TRACE.update({"AlfeldSorokina": "valuediv", "GuzmanNeilanH1div": "valuediv"})
LEAF = {"Lagrange": "value", "GaussLobattoLegendre": "value", "Bernstein": "value", "IntegratedLegendre": "value", "FDMLagrange": "value",
        "KongMulderVeldhuizen": "value", "Bubble": "value", "FacetBubble": "value", "CrouzeixRaviart": "mom", "FDMHermite": "value",
        "RaviartThomas": "n", "BrezziDouglasMarini": "n", "BrezziDouglasFortinMarini": "n", "Nedelec": "t", "NedelecSecondKind": "t",
        "Regge": "tt", "HellanHerrmannJohnson": "nn", "GopalakrishnanLedererSchoberlFirstKind": "nt",
        "GopalakrishnanLedererSchoberlSecondKind": "nt"}


def composites(rng, n):
    out = []
    for _ in range(n):
        c = model.pick(rng, ["triangle", "tetrahedron"])
        d = geom.DIM[c]
        lag = model.leaf("Lagrange", c, int(rng.integers(1, 4)))
        u = rng.integers(6)
        if u == 0:
            out.append((["tensor", lag, [int(rng.integers(1, 4))], bool(rng.integers(2))], "value"))
        elif u == 1:
            out.append((["enr", [lag, model.leaf("Bubble", c, d + 1)]], "value"))
        elif u == 2:
            out.append((["nodal", [model.leaf("Lagrange", c, 1), model.leaf("Bubble", c, d + 1)]], "value"))
        elif u == 3:
            out.append((["tensor", ["enr", [lag, model.leaf("Bubble", c, d + 1)]], [d], False], "value"))
        elif u == 4:
            a, b = model.leaf("RaviartThomas", c, 1), model.leaf("BrezziDouglasMarini", c, 1)
            out.append((["enr", [a, b]], "n"))
        else:
            out.append((["mix", [lag, model.leaf("Bubble", c, d + 1)]], "value"))
    return out


def cases(rng, tier):
    reps = 2 if tier == "quick" else 25
    out = []
    for r in range(reps):
        for c in zany.catalog():
            heavy = c["dim"] == 3 and c["kw"].get("order", 0) == 2
            if heavy and r % 5:
                continue
            out.append({"zany": c, "seed": int(rng.integers(1 << 30))})
        for s in model.leaf_catalog():
            if s[1] in LEAF and isinstance(s[2], str) and geom.is_simplex_spec(s[2]):
                out.append({"spec": s, "trace": LEAF[s[1]], "seed": int(rng.integers(1 << 30))})
        for s, t in composites(rng, 40):
            out.append({"spec": s, "trace": t, "seed": int(rng.integers(1 << 30))})
    for _ in range(250 if tier == "quick" else 4000):
        s = model.safe(draw_product, rng)
        if s is not None:
            out.append({"glue": s, "trace": {"hdiv": "n", "hcurl": "t"}.get((s[1] if s[0] == "flat" else s)[0], "value"), "seed": int(rng.integers(1 << 30))})
    return out


def draw_product(rng):
    u = rng.random()
    if u < .5:
        w = model.rand_hwrap(rng, cap=3)
        if "triangle" not in json.dumps(w) and rng.random() < .5:
            w = ["flat", w]
        return w
    if u < .6:
        return ["leaf", "Serendipity", model.pick(rng, ["quadrilateral", "hexahedron"]), int(rng.integers(1, 4)), {}]
    h1 = ["Lagrange", "GaussLobattoLegendre", "IntegratedLegendre", "Bernstein", "FDMLagrange"]
    n = int(rng.integers(2, 4))
    fs = [model.leaf(model.pick(rng, h1), "interval", int(rng.integers(1, 5))) for _ in range(n)]
    if rng.random() < .3:
        s = ["tpe", [model.leaf("Lagrange", "triangle", int(rng.integers(1, 4))), fs[0]][::int(rng.choice([1, -1]))]]
    else:
        same = rng.random() < .5
        if same:
            d = fs[0][3]
            fs = [model.leaf(f[1], "interval", d) for f in fs]
        s = ["tpe", fs]
        if same and rng.random() < .7:
            s = ["flat", s]
    if rng.random() < .3:
        s = ["tensor", s, [int(rng.integers(1, 4))], bool(rng.integers(2))]
    return s


def trace(kind, T, pts, verts, dim):
    """Array (n, samples) of the shared trace from physical tables."""
    zero = (0,) * dim
    v = T[zero]
    npts, n = v.shape[:2]
    ey = [tuple(int(i == j) for j in range(dim)) for i in range(dim)]
    if dim == 1:
        tang = np.zeros((0, 1))
        nrm = np.array([1.0])
    else:
        tang = np.array([verts[i] - verts[0] for i in range(1, dim)])
        tang = tang / np.linalg.norm(tang, axis=1)[:, None]
        q, _ = np.linalg.qr(np.concatenate([tang, np.eye(dim)]).T)
        nrm = q[:, dim - 1]

    def cols(a):
        return np.moveaxis(a, 1, 0).reshape(n, -1)
    if kind == "value":
        return cols(v)
    if kind in ("c1", "hermite"):
        grad = np.stack([T[e] for e in ey], axis=-1)
        return np.concatenate([cols(v), cols(grad)], axis=1) if kind == "c1" or dim == 1 else cols(v)
    if kind == "valuediv":
        return np.concatenate([cols(v), cols(sum(T[e][..., i] for i, e in enumerate(ey)))], axis=1)
    if kind == "n":
        return cols(v @ nrm)
    if kind == "t":
        return cols(v @ tang.T)
    if kind == "sn":
        return cols(v @ nrm)
    if kind == "nn":
        return cols(np.einsum("pnij,i,j->pn", v, nrm, nrm))
    if kind == "tt":
        return cols(np.einsum("pnij,ai,bj->pnab", v, tang, tang))
    if kind == "nt":
        # rows are covariant, columns contravariant
        return cols(np.einsum("pnij,ai,j->pna", v, tang, nrm))
    raise KeyError(kind)


def facet_rule(dim, deg):
    """Points and weights on the reference facet simplex (numpy Gauss, collapsed)."""
    x, w = np.polynomial.legendre.leggauss(deg // 2 + 2)
    x, w = (x + 1) / 2, w / 2
    if dim == 0:
        return np.zeros((1, 0)), np.ones(1)
    if dim == 1:
        return x[:, None], w
    P, W = [], []
    for (a, wa), (b, wb) in itertools.product(zip(x, w), zip(x, w)):
        P.append((a, b * (1 - a)))
        W.append(wa * wb * (1 - a))
    return np.array(P), np.array(W)


def run(case, rec):
    if "glue" in case:
        return glue(case, rec)
    import FIAT
    rng = core.rng_for(case["seed"], "c18")
    if "zany" in case:
        c = case["zany"]
        dim, name, kind = c["dim"], zany.label(c), TRACE[c["name"]]
        elem = zany.build(c, FIAT.ufc_simplex(dim))
    else:
        spec = case["spec"]
        try:
            elem = model.build(spec)
        except Exception as e:
            raise core.Skip(str(e)[:80])
        dim, name, kind = elem.cell.get_spatial_dimension(), json.dumps(spec), case["trace"]
    ref = FIAT.ufc_simplex(dim)
    nv = dim + 2
    # shared facet: dim vertices; two apexes on opposite sides
    while True:
        va = zany.random_simplex(rng, dim, qmin=0.12)
        apex = rng.uniform(-1.5, 1.5, size=dim) + va.mean(0)
        F = va[:dim]
        if "zany" in case and case["zany"]["name"] == "QuadraticPowellSabin6":
            # C1 only where the line through the split points meets the edge midpoint, as on a parallelogram
            apex = F[0] + F[1] - va[2]
        side = [np.sign(np.linalg.det(np.array([p - F[0]] + [F[i] - F[0] for i in range(1, dim)]))) for p in (va[dim], apex)]
        vb = np.concatenate([F, apex[None]])
        if side[0] * side[1] < 0 and zany.quality(vb) > 0.12:
            break
    number = rng.permutation(nv)
    xyz = {int(number[i]): p for i, p in enumerate(list(va) + [apex])}
    cells = [sorted(int(number[i]) for i in idx) for idx in (list(range(dim + 1)), list(range(dim)) + [dim + 1])]
    shared = sorted(int(number[i]) for i in range(dim))
    hs = {g: float(np.exp(rng.uniform(-1, 1))) for g in xyz} if rng.random() < .5 else {g: 1.0 for g in xyz}
    deg = elem.degree if np.isscalar(elem.degree) else max(elem.degree)
    moments = kind in ("mom", "morley", "mtw", "snmom")
    pts, wts = facet_rule(dim - 1, 2 * int(deg)) if moments else (geom.random_points(rng, FIAT.ufc_simplex(dim - 1), 5), None)
    if dim == 1:
        pts = np.zeros((1, 0))
    top = ref.get_topology()
    data = []
    order = 1 if kind in ("c1", "hermite", "valuediv", "morley") else 0
    verts = np.array([xyz[g] for g in shared])
    bary = np.concatenate([1 - pts.sum(1, keepdims=True), pts], axis=1)
    for cell in cells:
        loc = [cell.index(g) for g in shared]
        f, = [e for e, t in top[dim - 1].items() if sorted(t) == loc]
        X = bary @ np.asarray(ref.vertices, float)[loc]
        geo = zany.Geometry(ref, [xyz[g] for g in cell], [hs[g] for g in cell])
        T = zany.physical_tables(elem, geo, X, order)
        ents = {}
        for d, es in elem.entity_dofs().items():
            for e, dofs in es.items():
                ents[tuple(sorted(cell[i] for i in top[d][e]))] = list(dofs)
        data.append((f, T, ents))
    rec.seen("elements")
    rec.note({"element": name, "cells": cells, "vertices": {k: v.tolist() for k, v in xyz.items()}})
    what = "%s on cells %s sharing %s" % (name, cells, shared)
    rec.seen("facet_pairs")
    rec.key(name, data[0][0], data[1][0], np.round(verts, 3).tolist())

    def traces(T):
        if kind == "morley":
            # vertex values are checked through the vertex functions below
            grad = np.stack([T[tuple(int(i == j) for j in range(dim))] for i in range(dim)], axis=-1)
            t = verts[1] - verts[0]
            nrm = zany.R2 @ t / np.linalg.norm(t)
            return np.einsum("p,pni,i->n", wts, grad, nrm)[:, None]
        if kind == "mom":
            v = T[(0,) * dim]
            phi = [np.prod(pts ** np.array(a), axis=1) if len(a) else np.ones(len(pts))
                   for a in itertools.product(range(int(deg)), repeat=dim - 1) if sum(a) <= deg - 1]
            return np.stack([np.einsum("p,pn->n", wts * p, v) for p in phi], axis=1)
        if kind == "mtw":
            nt = trace("n", T, pts, verts, dim)
            tt = trace("t", T, pts, verts, dim)
            return np.concatenate([nt, (tt.reshape(len(nt), -1) @ wts)[:, None]], axis=1)
        if kind == "snmom":
            s = trace("sn", T, pts, verts, dim).reshape(elem.space_dimension(), len(pts), -1)
            return np.concatenate([np.einsum("p,npi->ni", wts * p, s) for p in (1 + 0 * pts[:, 0], pts[:, 0])], axis=1)
        return trace(kind, T, pts, verts, dim)
    tr = [traces(d[1]) for d in data]
    scale = max(1.0, *(float(np.abs(v).max()) for d in data for v in d[1].values()))
    tol = 1e-8 * scale
    closure = [tuple(s) for k in range(1, dim + 1) for s in itertools.combinations(shared, k)]
    inside = [set(), set()]
    for s in closure:
        a, b = data[0][2].get(s, []), data[1][2].get(s, [])
        if not rec.check(len(a) == len(b), "conform:count", "%s: %d and %d dofs on %s" % (what, len(a), len(b), s)):
            return
        for i, j in zip(a, b):
            inside[0].add(i)
            inside[1].add(j)
            rec.seen("dof_pairs")
            err = float(np.abs(tr[0][i] - tr[1][j]).max())
            if not rec.check(err <= tol, "conform:match:" + kind, "%s: traces of the dof pair (%d, %d) on %s differ by %.2g (relative)"
                             % (what, i, j, s, err / scale)):
                return
    for side in (0, 1):
        for i in range(len(tr[side])):
            if i in inside[side]:
                continue
            rec.seen("zero_traces")
            err = float(np.abs(tr[side][i]).max())
            if not rec.check(err <= tol, "conform:zero:" + kind, "%s: function %d of cell %d, not on the shared facet, has trace %.2g there"
                             % (what, i, side, err / scale)):
                return


def glue(case, rec):
    from finat.point_set import PointSet
    rng = core.rng_for(case["seed"], "c18g")
    spec, kind = case["glue"], case["trace"]
    mod = model.model(spec)
    if model.prod(mod.index_shape) > 700:
        raise core.Skip("too large")
    elem = model.build(spec)
    cell = elem.cell
    dim = cell.get_spatial_dimension()
    cs = model.cell_of(spec)
    # reference coordinate directions along which translation by one maps facet to facet
    dirs, at = [], 0
    flat = []

    def expand(s):
        if s in ("quadrilateral", "hexahedron"):
            return ["interval"] * geom.DIM[s]
        return [s] if isinstance(s, str) else [y for x in s for y in expand(x)]
    flat = expand(cs)
    for s in flat:
        if s == "interval":
            dirs.append(at)
        at += geom.DIM[s]
    V = {e: geom.entity_vertices(cell, *e) for e in geom.entities(cell)}
    dofs = elem.entity_dofs()
    name = json.dumps(spec)
    rec.seen("elements")
    n = elem.space_dimension()
    vs = tuple(elem.value_shape)
    for k in dirs:
        lo = [e for e, v in V.items() if np.abs(v[:, k]).max() < 1e-12]
        hi = {}
        for e, v in V.items():
            if np.abs(v[:, k] - 1).max() < 1e-12:
                hi[tuple(sorted(map(tuple, np.delete(v, k, 1).round(9) + 0.0)))] = e
        x = geom.random_points(rng, cell, 4)
        tabs = []
        for val in (0.0, 1.0):
            X = x.copy()
            X[:, k] = val
            ps = PointSet(X)
            v, = elem.basis_evaluation(0, ps).values()
            t = gemeval.flatpts(v, ps).reshape((len(X), n) + vs)
            comp = {"value": list(range(vs[0])) if vs else None, "n": [k], "t": [j for j in range(dim) if j != k]}[kind]
            if comp is not None:
                t = t[:, :, comp]
            tabs.append(np.moveaxis(t, 1, 0).reshape(n, -1))
        rec.seen("facet_pairs")
        rec.key(name, "translate", k)
        used = [set(), set()]
        scale = max(1.0, float(np.abs(tabs[0]).max()), float(np.abs(tabs[1]).max()))
        for e in lo:
            f = hi[tuple(sorted(map(tuple, np.delete(V[e], k, 1).round(9) + 0.0)))]
            a, b = dofs[e[0]][e[1]], dofs[f[0]][f[1]]
            if not rec.check(len(a) == len(b), "conform:count", "%s: %s has %d dofs but the opposite %s has %d" % (name, e, len(a), f, len(b))):
                return
            for i, j in zip(a, b):
                used[0].add(i)
                used[1].add(j)
                rec.seen("dof_pairs")
                err = float(np.abs(tabs[0][i] - tabs[1][j]).max()) / scale
                if not rec.check(err < 1e-8, "conform:glue:" + kind, "%s: functions %d on %s and %d on the translated %s have traces differing by %.2g"
                                 % (name, i, e, j, f, err)):
                    return
        for side in (0, 1):
            for i in range(n):
                if i not in used[side]:
                    rec.seen("zero_traces")
                    err = float(np.abs(tabs[side][i]).max()) / scale
                    if not rec.check(err < 1e-8, "conform:gluezero:" + kind, "%s: function %d, not on the facet x%d=%d, has trace %.2g there"
                                     % (name, i, k, side, err)):
                        return
