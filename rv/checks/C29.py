import json
import math
import warnings

import numpy as np

from rv import core, uflmodel as um

PROPERTY = "C29"
ROUNDS = 10
RULE = ("a case is a UFL element specification; every derived attribute of the element and of all its sub-elements - degrees, value shapes and sizes, mapping, "
        "Sobolev space, scheme, variant, sub-element list, flattening of reference components, physical value shapes and pulled-back components - is compared "
        "with an independent model evaluated on the specification. Distinct by specification.")
MIN = {"elements": 5000, "components": 2000, "pullbacks": 300, "refused": 100, "shapes": 800, "nodegree": 100}
ASSUMPTIONS = ["UFL's pull backs of simple elements"]
REFUSE = (ValueError, TypeError, KeyError, AttributeError, IndexError)
UP = {"L2": (), "HDiv": ("L2",), "HCurl": ("L2",), "H1": ("HDiv", "HCurl", "L2"), "H2": ("H1", "HDiv", "HCurl", "L2"),
      "HInf": ("H2", "H1", "HDiv", "HCurl", "L2"), "HEin": ("L2",), "HDivDiv": ("L2",), "HCurlDiv": ("L2",)}
ORDER = {"H1": 1, "H2": 2, "HInf": math.inf}
ANYTHING = object()


def cases(rng, tier):
    out = []
    for i in range(3000 if tier == "quick" else 40000):
        out.append({"kind": "attr", "spec": um.rand_top(rng, int(rng.integers(0, 4))), "seed": int(rng.integers(1 << 30))})
    for i in range(150 if tier == "quick" else 2500):
        out.append({"kind": "nodegree", "seed": int(rng.integers(1 << 30))})
        out.append({"kind": "refuse", "seed": int(rng.integers(1 << 30))})
    for i in range(150 if tier == "quick" else 2500):
        sh = [int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 4)))]
        if rng.random() < .4:
            sh = [sh[0]] * 2
        out.append({"kind": "symmetric", "spec": ["ten", um.rand_fe(rng, um.pick(rng, ["triangle", "tetrahedron", "interval"]), 0), sh, um.rand_symmetry(rng, sh)],
                    "seed": int(rng.integers(1 << 30))})
    return out


def subs(spec):
    return spec[1] if spec[0] in ("mixed", "enr", "nodal", "tpe") else [] if spec[0] == "fe" else [spec[1]]


def degree(s):
    op = s[0]
    if op == "fe":
        return s[3]
    if op == "tpe":
        return tuple(degree(x) for x in s[1])
    if op in ("mixed", "enr", "nodal"):
        ds = [degree(x) for x in s[1]]
        if any(isinstance(d, tuple) for d in ds):
            n = max(len(d) for d in ds if isinstance(d, tuple))
            if op != "mixed" and not all(isinstance(d, tuple) for d in ds):
                return ANYTHING
            ds = [d if isinstance(d, tuple) else (d,) * n for d in ds]
            if any(isinstance(y, tuple) for d in ds for y in d):
                return ANYTHING
            return tuple(max(c) for c in zip(*ds))
        return max(ds)
    return degree(s[1])


def emb(s, sup):
    op = s[0]
    if op == "fe":
        fam = um.canonical_family(s[1], s[2])
        d = s[3]
        if "Guzman-Neilan" in fam or "Bernardi-Raugel" in fam:
            return (max if sup else min)(d, um.TDIM[s[2]])
        if sup and fam in ("BDMCE", "BDMCF"):
            return d + 1
        if sup and fam == "Kong-Mulder-Veldhuizen" and d > 1 and s[2] in ("triangle", "tetrahedron"):
            return d + (1 if s[2] == "triangle" and d < 5 else 2)
        return d
    vals = [emb(x, sup) for x in subs(s)]
    if op == "tpe":
        return sum(vals) if sup else min(vals)
    return max(vals) if sup else min(vals)


def mapping(s):
    op = s[0]
    if op == "fe":
        return um.FAM[um.canonical_family(s[1], s[2])][4]
    if op == "mixed":
        return um.ID if all(mapping(x) == um.ID for x in s[1]) else "undefined"
    if op == "ten":
        return "symmetries" if um.symmetry_of(s) else mapping(s[1])
    if op in ("enr", "nodal"):
        return mapping(s[1][0])
    if op == "tpe":
        ms = {mapping(x) for x in s[1]}
        return ms.pop() if ms in ({um.ID}, {um.L2P}) else "undefined"
    return {"hdiv": um.CON, "hcurl": um.COV, "map": s[2] if op == "map" else None}.get(op) or mapping(s[1])


def meet(spaces):
    if any(isinstance(x, tuple) or x is ANYTHING for x in spaces):
        return ANYTHING
    common = set.intersection(*({x} | set(UP[x]) for x in spaces))
    low = [x for x in common if not any(x in UP[y] for y in common)]
    assert len(low) == 1
    return low[0]


def sobolev(s):
    op = s[0]
    if op == "fe":
        return um.FAM[um.canonical_family(s[1], s[2])][3]
    if op == "restr":
        return "L2" if s[2] == "interior" else sobolev(s[1])
    if op == "broken":
        return "L2"
    if op == "map":
        return sobolev(s[1]) if s[2] == mapping(s[1]) else "L2"
    if op in ("hdiv", "hcurl"):
        return {"hdiv": "HDiv", "hcurl": "HCurl"}[op]
    if op in ("mixed", "enr", "nodal"):
        return meet([sobolev(x) for x in s[1]])
    if op == "tpe":
        sp = [sobolev(x) for x in s[1]]
        if any(isinstance(x, tuple) or x is ANYTHING for x in sp):
            return ANYTHING
        if len(set(sp)) == 1:
            return sp[0]
        out = ()
        for x, y in zip(s[1], sp):
            out += (ORDER.get(y, 0),) * um.tdim(um.cell_of(x))
        return out
    return sobolev(s[1])


def scheme(s):
    op = s[0]
    if op == "fe":
        return None if isinstance(s[2], list) else s[4]
    if op == "tpe":
        return None
    if op in ("enr", "nodal"):
        qs = [scheme(x) for x in s[1]]
        return next((q for q in qs if q is not None), None)
    if op == "mixed":
        return scheme(s[1][0])
    return scheme(s[1])


def variant(s):
    op = s[0]
    if op == "fe":
        return s[5]
    if op == "broken":
        return None
    vs = {variant(x) for x in subs(s)}
    return vs.pop() if len(vs) == 1 else None


def components(s):
    """Leaf and component reached from every flattened reference component of a
    mixed-like element, or None where that is not defined."""
    op = s[0]
    if op not in ("mixed", "vec", "ten"):
        return [(s, ix) for ix in np.ndindex(um.vrank(s))]
    if op == "mixed":
        parts = s[1]
    elif op == "vec":
        parts = [s[1]] * s[2]
    else:
        parts = [s[1]] * (int(np.prod(s[2])) - len(um.symmetry_of(s)))
    out = []
    for p in parts:
        if len(um.vrank(p)) > 1 and p[0] in ("mixed", "vec", "ten"):
            return None
        c = components(p)
        if c is None:
            return None
        out += c
    return out


def gshape(s, gdim):
    """Physical value shape; None where undefined."""
    op = s[0]
    if op == "mixed":
        sh = [gshape(x, gdim) for x in s[1]]
        return None if None in sh else (sum(int(np.prod(x)) for x in sh),)
    if op == "vec":
        x = gshape(s[1], gdim)
        return None if x is None or s[1][0] == "mixed" else (s[2],) + x
    if op == "ten":
        x = gshape(s[1], gdim)
        return None if x is None or s[1][0] == "mixed" else tuple(s[2]) + x
    m = mapping(s)
    r = um.vrank(s)
    if m in (um.ID, um.L2P):
        return r
    if m in (um.COV, um.CON):
        return r[:-1] + (gdim,)
    if m in (um.CC, um.KK, um.KC):
        return r[:-2] + (gdim, gdim)
    if m == um.CUS or m == um.PHY:
        return r
    return None


def identity_only(s):
    op = s[0]
    if op in ("mixed", "vec", "ten"):
        return all(identity_only(x) for x in subs(s)) and not (op != "mixed" and s[1][0] == "mixed")
    return mapping(s) == um.ID


def physical(s):
    """Flattened reference component seen at every physical component (identity pull backs)."""
    op = s[0]
    r = um.vrank(s)
    size = int(np.prod(r))
    if op == "mixed":
        out, off = [], 0
        for x in s[1]:
            p = physical(x)
            out.append(p.ravel() + off)
            off += int(np.prod(um.vrank(x)))
        return np.concatenate(out)
    if op == "ten" and um.symmetry_of(s):
        sym = um.symmetry_of(s)
        sub = physical(s[1])
        n = int(np.prod(um.vrank(s[1])))
        num = {}
        for ix in np.ndindex(*s[2]):
            if ix not in sym:
                num[ix] = len(num)
        out = np.zeros(tuple(s[2]) + sub.shape, dtype=int)
        for ix in np.ndindex(*s[2]):
            out[ix] = sub + n * num[sym.get(ix, ix)]
        return out
    return np.arange(size).reshape(r)


def mesh(cell, gdim):
    import ufl
    from finat import ufl as fu
    c = um.ucell(cell)
    if isinstance(cell, list):
        co = fu.VectorElement(fu.FiniteElement("Q", c, 1), dim=gdim)
    else:
        co = fu.VectorElement("CG", c, 1, dim=gdim)
    return ufl.Mesh(co)


def attributes(rec, spec, e):
    name = json.dumps(spec)
    rec.seen("elements")
    op = spec[0]
    if op == "fe":
        spec = um.normal(spec)
        op = spec[0]
    d = degree(spec)
    if d is not ANYTHING:
        rec.check(e.degree() == d, "attr:degree", "%s: degree %r, expected %r" % (name, e.degree(), d))
    for sup, a in ((True, "embedded_superdegree"), (False, "embedded_subdegree")) if not (op == "fe" and spec[3] is None) else ():
        rec.check(getattr(e, a) == emb(spec, sup), "attr:" + a, "%s: %s %r, expected %r" % (name, a, getattr(e, a), emb(spec, sup)))
    r = um.vrank(spec)
    rec.check(e.reference_value_shape == r, "attr:shape", "%s: %r, expected %r" % (name, e.reference_value_shape, r))
    rec.check(e.reference_value_size == int(np.prod(r)), "attr:size", "%s: %r" % (name, e.reference_value_size))
    rec.check(e.mapping() == mapping(spec), "attr:mapping", "%s: %r, expected %r" % (name, e.mapping(), mapping(spec)))
    s = sobolev(spec)
    if s is not ANYTHING:
        td = um.tdim(um.cell_of(spec))
        if isinstance(s, tuple):
            got = tuple({"L2": 0, "H1": 1, "H2": 2, "HInf": math.inf}[str(e.sobolev_space[i])] for i in range(td))
            rec.check(got == s, "attr:sobolev", "%s: orders %s, expected %s" % (name, got, s))
            rec.seen("directional")
        else:
            rec.check(str(e.sobolev_space) == s, "attr:sobolev", "%s: %s, expected %s" % (name, e.sobolev_space, s))
            rec.check(e in e.sobolev_space, "attr:in-sobolev", "%s not in its own space" % name)
            # every part lies in the whole's space
            if op in ("mixed", "enr", "nodal", "vec", "ten"):
                for x in subs(spec):
                    t = sobolev(x)
                    if isinstance(t, str):
                        rec.check(um.build(x).sobolev_space <= e.sobolev_space, "attr:sobolev-part", "%s: space %s does not contain its part's" % (name, e.sobolev_space))
    rec.check(e.quadrature_scheme() == scheme(spec), "attr:scheme", "%s: %r" % (name, e.quadrature_scheme()))
    rec.check(e.variant() == variant(spec), "attr:variant", "%s: %r, expected %r" % (name, e.variant(), variant(spec)))
    rec.check(e.cell == um.ucell(um.cell_of(spec)), "attr:cell", "%s: %s" % (name, e.cell))
    if op == "ten":
        rec.check(e.symmetry() == um.symmetry_of(spec), "attr:symmetry", "%s: %s" % (name, e.symmetry()))
    # sub-elements
    want = None
    if op in ("mixed", "tpe"):
        want = spec[1]
    elif op == "vec":
        want = [spec[1]] * spec[2]
    elif op == "ten":
        want = [spec[1]] * (int(np.prod(spec[2])) - len(um.symmetry_of(spec)))
    elif op in ("fe", "enr", "nodal", "hdiv", "hcurl", "broken"):
        want = []
    if want is not None:
        rec.check(e.num_sub_elements == len(want) == len(e.sub_elements), "attr:num-sub", "%s: %s sub-elements, expected %d" % (name, e.num_sub_elements, len(want)))
        rec.check(list(e.sub_elements) == [um.build(x) for x in want], "attr:sub", "%s: sub-elements %r" % (name, e.sub_elements))
    if op == "restr":
        rec.check(e.sub_element() == um.build(spec[1]) and e.restricted_sub_elements() == (e.sub_element(),) and e.num_restricted_sub_elements() == 1,
                  "attr:restricted", name)
        rec.check(list(e.sub_elements) == list(e.sub_element().sub_elements), "attr:sub", name)
    # constants
    if e.is_cellwise_constant():
        rec.seen("constant")
        rec.check(all_constant(spec), "attr:constant", "%s: claims to be cellwise constant" % name)
    elif op == "fe":
        rec.check(not all_constant(spec), "attr:constant", "%s: does not know it is constant" % name)
    # reference components
    c = components(spec)
    if c is not None and op in ("mixed", "vec", "ten") and len(r) == 1:
        rec.check(len(c) == int(np.prod(r)), "attr:flatten-size", "%s: %d" % (name, len(c)))
        for i, (leaf, comp) in enumerate(c):
            got = e.extract_reference_component(i)
            rec.check(tuple(got[0]) == comp and got[1] == um.build(leaf), "attr:flatten", "%s: reference component %d is component %s of %r, expected %s of %s" % (
                name, i, got[0], got[1], comp, json.dumps(leaf)))
            rec.check(e.extract_reference_component((i,)) == got, "attr:flatten-tuple", name)
            rec.seen("components")
        for bad in (len(c), len(c) + 3):
            try:
                x = e.extract_reference_component(bad)
            except (ValueError, IndexError):
                pass
            else:
                rec.fail("attr:flatten-range", "%s: component %d accepted: %s" % (name, bad, x))
    # constituents too
    for x in subs(spec):
        attributes(rec, x, um.build(x))


def all_constant(s):
    op = s[0]
    if op == "fe":
        return s[3] == 0 or um.canonical_family(s[1], s[2]) == "Real"
    return all(all_constant(x) for x in subs(s))


def shapes(rec, rng, spec, e):
    import ufl
    name = json.dumps(spec)
    cell = um.cell_of(spec)
    td = um.tdim(cell)
    for gdim in {td, min(3, td + 1)}:
        g = gshape(spec, gdim)
        if g is None:
            rec.seen("undefined_pullback")
            continue
        m = mesh(cell, gdim)
        V = ufl.FunctionSpace(m, e)
        rec.check(V.value_shape == g, "pullback:shape", "%s: value shape %s in %dD, expected %s" % (name, V.value_shape, gdim, g))
        rec.check(V.value_size == int(np.prod(g)), "pullback:size", "%s: %s" % (name, V.value_size))
        f = ufl.Coefficient(V)
        rec.check(f.ufl_shape == g, "pullback:coefficient", "%s: %s" % (name, f.ufl_shape))
        rec.seen("shapes")
        if len(g) and int(np.prod(g)) > 60:
            continue
        try:
            e.pullback
        except ValueError:
            continue
        if mapping(spec) in (um.CUS, um.PHY) or any_special(spec):
            continue
        r = um.vrank(spec)
        from finat.ufl import FiniteElement, VectorElement, TensorElement
        R = FiniteElement("DG", "triangle", 1) if isinstance(cell, list) else FiniteElement("DG", um.ucell(cell), 1)
        if isinstance(cell, list):
            continue
        W = R if not r else VectorElement(R, dim=r[0]) if len(r) == 1 else TensorElement(R, shape=r)
        ref = ufl.Coefficient(ufl.FunctionSpace(m, W))
        got = e.pullback.apply(ref, domain=m)
        rec.check(got.ufl_shape == g, "pullback:apply-shape", "%s: pulled back to %s, expected %s" % (name, got.ufl_shape, g))
        rec.seen("pullbacks")
        rec.check(e.pullback.is_identity == identity_like(spec), "pullback:is-identity", "%s: is_identity %s" % (name, e.pullback.is_identity))
        if identity_only(spec):
            p = physical(spec).reshape(g)
            vals = rng.random(r)
            x = (0.,) * gdim
            for ix in np.ndindex(*g):
                k = np.unravel_index(p[ix], r) if r else ()
                v = got[ix] if g else got
                num = evaluate(v, ref, vals, x)
                rec.check(abs(num - float(vals[k])) < 1e-14, "pullback:component", "%s: physical component %s shows %s, expected reference component %s" % (name, ix, num, k))
                rec.seen("pulled_components")


def evaluate(v, ref, vals, x):
    return float(v(x, {ref: nested(vals)}))


def nested(v):
    return tuple(nested(x) for x in v) if np.ndim(v) else float(v)


def any_special(s):
    if s[0] in ("mixed", "vec", "ten"):
        return any(any_special(x) for x in subs(s))
    return mapping(s) in (um.CUS, um.PHY)


def identity_like(s):
    if s[0] in ("mixed", "vec", "ten"):
        return all(identity_like(x) for x in subs(s))
    return mapping(s) == um.ID


def nodegree(rec, rng):
    """Elements made without a degree (all families allow it) carry None until a degree is given."""
    from finat import ufl as fu
    cell = um.pick(rng, ["interval", "triangle", "tetrahedron", "quadrilateral"])
    scalars = [t for t in um.TABLE if t[2] == 0 and cell in t[7] and t[3] == "H1" and t[4] == um.ID and t[0] not in ("Q", "DQ")]
    c = um.ucell(cell)

    def leaf():
        t = scalars[int(rng.integers(len(scalars)))]
        known = rng.random() < .4
        d = t[5] + int(rng.integers(0, (t[6] if t[6] is not None else t[5] + 3) - t[5] + 1)) if known else None
        return fu.FiniteElement(t[0], c, d), d
    parts = [leaf() for _ in range(int(rng.integers(1, 4)))]
    es, ds = [p[0] for p in parts], [p[1] for p in parts]
    top = max([d for d in ds if d is not None], default=None)
    name = "%s of degrees %s on %s" % ([e.family() for e in es], ds, cell)
    rec.seen("nodegree")
    rec.key(name)
    e, d = es[0], ds[0]
    for what, x, want in (("element", e, d), ("vector", fu.VectorElement(e), d), ("tensor", fu.TensorElement(e), d), ("mixed", fu.MixedElement(*es), top),
                          ("enriched", fu.EnrichedElement(*es), top), ("nodal", fu.NodalEnrichedElement(*es), top), ("restricted", e["facet"], d),
                          ("broken", fu.BrokenElement(e), d), ("remapped", fu.WithMapping(e, "L2 Piola"), d)):
        rec.check(x.degree() == want and (want is None) == (x.degree() is None), "nodegree:" + what, "%s %s: degree %r, expected %r" % (what, name, x.degree(), want))
    if cell == "interval":
        x = fu.TensorProductElement(*es)
        rec.check(x.degree() == tuple(ds), "nodegree:product", "%s: degree %r" % (name, x.degree()))
    if d is None:
        t = [t for t in scalars if t[0] == e.family()]
        if t:
            k = t[0][5]
            x = e.reconstruct(degree=k)
            rec.check(x == fu.FiniteElement(e.family(), c, k) and x.degree() == k and e.degree() is None, "nodegree:reconstruct", "%s: %r" % (name, x))


def run(case, rec):
    warnings.simplefilter("ignore")
    rng = core.rng_for(case["seed"], "c29")
    if case["kind"] in ("attr", "symmetric"):
        spec = case["spec"]
        e = um.build(spec)
        rec.note({"element": spec})
        rec.key(json.dumps(spec))
        attributes(rec, spec, e)
        shapes(rec, rng, um.normal(spec), e)
        if case["kind"] == "symmetric":
            symmetric(rec, spec, e)
        return
    if case["kind"] == "nodegree":
        return nodegree(rec, rng)
    # mismatching parts
    from finat import ufl as fu
    cells = ["interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"]
    a, b = um.pick(rng, cells), um.pick(rng, cells)
    qa, qb = um.pick(rng, [None, "KMV", "default"]), um.pick(rng, [None, "KMV", "default"])
    n = int(rng.integers(2, 5))
    at = int(rng.integers(n))
    first = um.rand_fe(rng, a, 0, qa)
    parts = [um.rand_fe(rng, a, 0, qa) for _ in range(n)]
    parts[at] = um.rand_fe(rng, b, 0, qb)
    for op, bad in (("mixed", a != b or qa != qb), ("enr", a != b or (qa != qb and None not in (qa, qb))), ("nodal", a != b or (qa != qb and None not in (qa, qb)))):
        spec = [op, [first] + parts]
        name = json.dumps(spec)
        try:
            e = um.build(spec)
        except ValueError:
            rec.check(bad, "mismatch:refused", "%s refused" % name)
            rec.seen("refused")
        else:
            rec.check(not bad, "mismatch:accepted", "%s accepted: %r" % (name, e))
            attributes(rec, spec, e)
        rec.key(name)
    v = um.rand_fe(rng, "triangle", 1)
    s = um.rand_fe(rng, "triangle", 0)
    for op in ("enr", "nodal"):
        for ps in ([s, v], [v, s], [s, s, v]):
            try:
                e = um.build([op, ps])
            except ValueError:
                rec.seen("refused")
            else:
                rec.fail("mismatch:shapes", "%s of %s accepted" % (op, json.dumps(ps)))
    try:
        e = um.build(["tpe", [v, v], None])
    except ValueError:
        rec.seen("refused")
    else:
        rec.fail("mismatch:vector-product", "product of %s accepted" % json.dumps(v))
    P = fu.TensorProductElement(um.build(s), fu.FiniteElement("DG", "interval", 1))
    rec.check(P.reference_value_shape == () and P.cell == um.ucell(["triangle", "interval"]), "attr:product", repr(P))


def symmetric(rec, spec, e):
    sym = um.symmetry_of(spec)
    sh = tuple(spec[2])
    name = json.dumps(spec)
    flat = e.flattened_sub_element_mapping()
    num = {}
    for ix in np.ndindex(*sh):
        if ix not in sym:
            num[ix] = len(num)
    want = [num[sym.get(ix, ix)] for ix in np.ndindex(*sh)]
    rec.check(list(flat) == want, "symmetry:numbering", "%s: component numbering %s, expected %s" % (name, flat, want))
    rec.seen("symmetric")
