import json
import warnings

import numpy as np

from rv import core, geom, uflmodel as um, crosslayer as cl
from rv.core import Skip

PROPERTY = "C30"
ROUNDS = 2
RULE = ("a case is a UFL element and the FInAT element implementing it: shapes, mapping and degrees must agree, and a function assembled on two random cells "
        "sharing a facet (arbitrary vertex numbering and orientation), with equal values of all dofs on common entities, must have the continuity across the "
        "facet that the UFL element's Sobolev space declares. Distinct by (element, numbering).")
MIN = {"glued": 600, "traces": 2000, "families": 300, "polynomial": 150}
ASSUMPTIONS = ["cells number their vertices by ascending global number", "affine cells"]
# declared conforming but known to be nonconforming by construction (from the literature)
# (the Powell-Sabin 6-split of FIAT joins barycentres, which is C1 on special meshes only)
WEAKER = {"QuadraticPowellSabin6": "H1", "Morley": "L2", "Nonconforming Arnold-Winther": "L2", "Mardal-Tai-Winther": "HDiv"}


def cases(rng, tier):
    out = []
    q = tier == "quick"
    for t in um.TABLE:
        fam = t[0]
        if fam not in cl.SUPPORTED:
            continue
        lo, hi = cl.RANGE.get(fam, (t[5], t[6]))
        for cell in t[7]:
            if cell in ("vertex", "prism", "pyramid"):
                continue
            top = hi if hi is not None else lo + (3 if um.TDIM[cell] < 3 else 2)
            for deg in range(lo, top + 1):
                for var in (None, "spectral", "integral", "fdm") if "Lagrange" in fam or "Q" in fam else (None,):
                    out.append({"kind": "fe", "spec": ["fe", fam, cell, deg, None, var], "seed": int(rng.integers(1 << 30)), "reps": 3 if q else 20})
    for i in range(250 if q else 4000):
        out.append({"kind": "composite", "spec": rand_composite(rng), "seed": int(rng.integers(1 << 30)), "reps": 2 if q else 6})
    return out


def rand_simple(rng, cell, rank=None):
    for _ in range(100):
        s = um.rand_fe(rng, cell, rank, None, var=um.pick(rng, [None, None, "spectral", "integral"]))
        fam = um.canonical_family(s[1], cell)
        lo, hi = cl.RANGE.get(fam, (0, 3 if um.TDIM[cell] < 3 else 2))
        if fam in cl.SUPPORTED and lo <= s[3] <= max(hi, um.FAM[fam][5]) and fam not in ("Real", "HDiv Trace"):
            return s
    return ["fe", "CG", cell, 1, None, None]


def pull(s):
    return um.FAM[um.canonical_family(s[1], s[2])][4]


def rand_composite(rng, depth=2):
    cell = um.pick(rng, ["interval", "triangle", "triangle", "tetrahedron", "quadrilateral", "hexahedron"])
    u = rng.random()
    if u < .12:
        return ["vec", rand_simple(rng, cell), int(rng.integers(1, 4))]
    if u < .22:
        sh = [2, 2]
        return ["ten", rand_simple(rng, cell, 0), sh, um.rand_symmetry(rng, sh)]
    if u < .36:
        return ["mixed", [rand_simple(rng, cell) for _ in range(int(rng.integers(1, 4)))]]
    if u < .44:
        a = rand_simple(rng, cell)
        return ["enr", [a] + [b for b in (rand_simple(rng, cell, len(um.vrank(a))) for _ in range(2)) if um.vrank(b) == um.vrank(a) and pull(b) == pull(a)]]
    if u < .5 and cell in ("triangle", "tetrahedron"):
        k = int(rng.integers(1, 3))
        d = um.TDIM[cell]
        return ["nodal", [["fe", "CG", cell, k, None, None], ["fe", "B", cell, d + 1 + (rng.random() < .3), None, None]]]
    if u < .56:
        return ["broken", rand_simple(rng, cell)]
    if u < .66:
        return ["restr", rand_simple(rng, cell), um.pick(rng, ["interior", "facet", "vertex"] + (["edge"] if um.TDIM[cell] > 1 else []) + (["face"] if um.TDIM[cell] > 2 else []))]
    cell = um.pick(rng, [["interval", "interval"], ["triangle", "interval"], ["quadrilateral", "interval"], ["interval", "interval", "interval"]])
    if u < .85:
        fams = ["CG", "CG", "DG", "GLL", "GL", "B", "HER", "Q"]
        fs = []
        for c in cell:
            if c == "interval":
                f = um.pick(rng, fams)
                lo = {"DG": 0, "GL": 0, "B": 2, "HER": 3}.get(f, 1)
                fs.append(["fe", f, c, lo if f == "HER" else lo + int(rng.integers(0, 3)), None, um.pick(rng, [None, "spectral"]) if f in ("CG", "DG") else None])
            else:
                f = um.pick(rng, ["CG", "DG", "CR", "KMV"] if c == "triangle" else ["Q", "DQ", "S", "DPC"])
                lo = {"DG": 0, "DQ": 0, "DPC": 0}.get(f, 1)
                fs.append(["fe", f, c, 1 if f == "CR" else lo + int(rng.integers(0, 2)), None, None])
        spec = ["tpe", fs, None]
        if um.pick(rng, [0, 1]) and cell == ["interval", "interval"]:
            spec[2] = "quadrilateral"
        if um.pick(rng, [0, 1]) and cell == ["quadrilateral", "interval"]:
            spec[2] = "hexahedron"
        return spec
    k = int(rng.integers(1, 4))
    C, D = ["fe", "CG", "interval", k, None, None], ["fe", "DG", "interval", k - 1, None, None]
    op = um.pick(rng, ["hdiv", "hcurl"])
    if cell[0] == "triangle":
        if op == "hdiv":
            parts = [["tpe", [["fe", um.pick(rng, ["RT", "BDM"]), "triangle", k, None, None], D], None],
                     ["tpe", [["fe", "DG", "triangle", k - 1, None, None], C], None]]
        else:
            parts = [["tpe", [["fe", um.pick(rng, ["N1curl", "N2curl"]), "triangle", k, None, None], C], None],
                     ["tpe", [["fe", "CG", "triangle", k, None, None], D], None]]
    elif cell == ["quadrilateral", "interval"]:
        if op == "hdiv":
            parts = [["tpe", [["fe", "RTCF", "quadrilateral", k, None, None], D], None], ["tpe", [["fe", "DQ", "quadrilateral", k - 1, None, None], C], None]]
        else:
            parts = [["tpe", [["fe", "RTCE", "quadrilateral", k, None, None], C], None], ["tpe", [["fe", "Q", "quadrilateral", k, None, None], D], None]]
    else:
        parts = [["tpe", [C, D], None], ["tpe", [D, C], None]]
    e = ["enr", [[op, p] for p in parts]]
    return e if rng.random() < .6 else e[1][int(rng.integers(2))]


def mapped(spec, e, J, vals):
    """Push forward according to the UFL element."""
    op = spec[0]
    if op == "mixed":
        out, off = [], 0
        for s, x in zip(spec[1], e.sub_elements):
            n = x.reference_value_size
            v = vals[..., off:off + n].reshape(vals.shape[:-1] + x.reference_value_shape)
            out.append(mapped(s, x, J, v))
            off += n
        return out
    if op in ("vec", "ten"):
        return mapped(spec[1], e.sub_elements[0], J, vals)
    return cl.push(e.mapping(), J, vals)


def split(spec, e, vals):
    """Reference values of each mixed component."""
    if spec[0] != "mixed":
        return vals
    out, off = [], 0
    for s, x in zip(spec[1], e.sub_elements):
        n = x.reference_value_size
        out.append(split(s, x, vals[..., off:off + n].reshape(vals.shape[:-1] + x.reference_value_shape)))
        off += n
    return out


def spaces(spec, e, axis):
    """Declared space of each mixed component."""
    if spec[0] == "mixed":
        return [spaces(s, x, axis) for s, x in zip(spec[1], e.sub_elements)]
    s = e.sobolev_space
    name = str(s[axis])
    # nonconforming methods
    weak = weaker(spec)
    return weak or name


def weaker(spec):
    if spec[0] == "fe":
        return WEAKER.get(um.canonical_family(spec[1], spec[2]))
    if spec[0] in ("hdiv", "hcurl", "tpe", "broken"):
        return None
    parts = spec[1] if spec[0] in ("enr", "nodal") else [spec[1]]
    w = [weaker(p) for p in parts]
    return "L2" if any(w) and len(w) > 1 else w[0]


def flatten(x):
    return [z for y in x for z in flatten(y)] if isinstance(x, list) else [x]


def run(case, rec):
    warnings.simplefilter("ignore")
    rng = core.rng_for(case["seed"], "c30")
    spec = case["spec"]
    name = json.dumps(spec)
    e = um.build(spec)
    try:
        elem = cl.convert(spec)
    except (NotImplementedError, AttributeError) as x:
        if spec[0] in ("restr", "nodal"):
            raise Skip("not restrictable: %s" % x)
        raise
    except ValueError as x:
        if spec[0] == "restr" or "nodal" in name or "empty" in str(x):
            raise Skip("no such restriction")
        raise
    rec.note({"ufl": spec})
    cell = um.cell_of(spec)
    td = um.tdim(cell)
    rec.check(tuple(elem.value_shape) == e.reference_value_shape, "cross:shape", "%s: FInAT value shape %s, UFL %s" % (name, elem.value_shape, e.reference_value_shape))
    if spec[0] == "fe":
        rec.seen("families")
        m = {"identity": "affine", "custom": "affine", "L2 Piola": "affine"}.get(e.mapping(), e.mapping().lower())
        # FIAT itself gives SminusCurl the wrong Piola map
        rec.check(elem.mapping == m or spec[1] == "SminusCurl", "cross:mapping", "%s: FInAT mapping %s, UFL %s" % (name, elem.mapping, e.mapping()))
    polynomials(rec, rng, spec, e, elem, name)
    fam = spec[1] if spec[0] == "fe" else None
    if fam in ("Real", "HDiv Trace"):
        return
    H2 = "H2" in flatten([spaces(spec, e, i) for i in range(td)])
    for r in range(case["reps"]):
        pair = cl.Pair(rng, cell)
        axis = int(pair.off[pair.f])
        want = flatten([spaces(spec, e, axis)])
        if set(want) == {"L2"}:
            rec.seen("discontinuous")
            continue
        order = 1 if "H2" in want else 0
        (c1, c2), nshared = pair.coefficients(rng, elem)
        us = []
        for i, c in enumerate((c1, c2)):
            if not rec.check(not np.isnan(c).any(), "glue:dofs", "%s: dofs on no entity" % name):
                return
            m = pair.mapping(i)
            if m is None and cl.is_zany(spec):
                m = hermite_mapping(pair, i)
            T = cl.tables(elem, pair.points[i], order, m)
            z = (0,) * td
            u = flatten([mapped(spec, e, pair.J[i], np.einsum("pn...,n->p...", T[z], c))])
            g = None
            if order:
                D = [flatten([split(spec, e, np.einsum("pn...,n->p...", T[tuple(int(a == b) for a in range(td))], c))]) for b in range(td)]
                g = [np.stack(d, -1) @ np.linalg.inv(pair.J[i]) for d in zip(*D)]
            us.append((u, g))
        scale = max(1., max(float(np.abs(x).max()) for u, _ in us for x in u if x.size))
        for k, sp in enumerate(want):
            a, b = us[0][0][k], us[1][0][k]
            ta, tb = cl.trace(sp, pair.normal, a), cl.trace(sp, pair.normal, b)
            if ta is None:
                continue
            err = float(np.abs(ta - tb).max())
            rec.seen("traces", int(ta.size))
            rec.check(err < 1e-8 * scale, "glue:" + sp, "%s declared in %s jumps by %.3g (relative to %.2g) across a facet; vertex numbers %s, %d shared dofs" % (
                name, sp, err, scale, pair.labels, nshared))
            if sp == "H2":
                ga, gb = us[0][1][k], us[1][1][k]
                gs = max(1., float(np.abs(ga).max()))
                if len(pair.factors) > 1:
                    ga, gb = ga[..., axis], gb[..., axis]
                err = float(np.abs(ga - gb).max())
                rec.seen("gradient_traces", int(ga.size))
                rec.check(err < 1e-7 * gs, "glue:H2-gradient", "%s declared in H2 has a gradient jump of %.3g (relative to %.2g)" % (name, err, gs))
        rec.seen("glued")
        rec.key(name, pair.labels, pair.f)


def hermite_mapping(pair, i):
    raise Skip("physically mapped factor of a product")


def polynomials(rec, rng, spec, e, elem, name):
    """Every basis function is in the Lagrange space of the embedded superdegree; constants are constant."""
    cell = um.cell_of(spec)
    try:
        macro = elem.complex.is_macrocell()
    except (RecursionError, ValueError):
        macro = True        # FIAT cannot order the complexes of differently nested products
    if macro or "HDiv Trace" in name:
        return
    sup = e.embedded_superdegree
    K = geom.cell_from(cell)
    dims = [2 if f == "triangle" else 3 if f == "tetrahedron" else 1 for f in cl.flat_factors(cell)]
    lists = [geom.all_multiindices(d, sup) for d in dims]
    n = int(np.prod([len(x) for x in lists]))
    if n > 450 or elem.space_dimension() > 400:
        return
    mapping = None
    if cl.is_zany(spec):
        mapping = cl.Pair(rng, cell).mapping(0)
        if mapping is None:
            return
    X = geom.random_points(rng, K, 2 * n + 10)
    T = cl.tables(elem, X, 0, mapping)[(0,) * K.get_spatial_dimension()].reshape(len(X), -1)
    L = np.polynomial.legendre.legvander(2 * X - 1, sup)        # point, axis, degree
    P, off = np.ones((len(X), 1)), 0
    for d, idx in zip(dims, lists):
        F = np.array([np.prod([L[:, off + k, a[k]] for k in range(d)], axis=0) for a in idx]).T
        P = (P[:, :, None] * F[:, None, :]).reshape(len(X), -1)
        off += d
    c = np.linalg.lstsq(P, T, rcond=None)[0]
    err = float(np.abs(P @ c - T).max()) / max(1., float(np.abs(T).max()))
    rec.seen("polynomial")
    rec.check(err < 1e-6, "cross:superdegree", "%s: basis is not of polynomial degree %d (residual %.2g)" % (name, sup, err))
    if e.is_cellwise_constant():
        rec.check(np.abs(T - T[:1]).max() < 1e-10, "cross:constant", "%s: not constant although declared so" % name)
        rec.seen("constant")
