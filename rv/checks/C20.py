import itertools
import json

import numpy as np

from rv import core, gemeval, geom, model, tabcheck

PROPERTY = "C20"
ROUNDS = 20
RULE = ("a case is a run-time tabulated element or a product, blocked or wrapped element of several of them (and of ordinary elements); the generated "
        "kernel arguments are collected, their names and shapes monitored, bound to the tables of a real element, and the result "
        "compared with the reference model. Distinct by (element, points, order).")
MIN = {"arguments": 500, "tabulations": 200, "refusals": 20}
ASSUMPTIONS = ["FIAT tabulates the stand-in elements correctly"]


def cases(rng, tier):
    out = []
    n = 1200 if tier == "quick" else 30000
    for _ in range(n):
        k = int(rng.choice([1, 1, 2, 2, 3]))
        axes = []
        for a in range(k):
            cont = bool(rng.integers(2))
            axes.append({"kind": "rt" if a == 0 or rng.random() < .75 else "plain", "degree": int(rng.integers(1 if cont else 0, 5)),
                         "continuous": cont, "variant": ["mse", "feec", "a_b", ""][int(rng.integers(4))],
                         "shift": a if rng.random() < .8 else int(rng.integers(0, 4)),
                         "restriction": [None, "+", "-"][int(rng.integers(3))]})
        out.append({"axes": axes, "wrap": [None, None, "tensor", "flat", "hdiv"][int(rng.integers(5))], "seed": int(rng.integers(1 << 30))})
    out += [{"refuse": r} for r in ("triangle", "quadrilateral", "variant", "shift", "shift-neg", "continuous", "restriction", "point", "dofs",
                                    "tetrahedron", "point-tpe")] * 2
    return out


def collect(expr, acc):
    """All named kernel arguments of an expression."""
    import gem
    seen, stack = set(), [expr]
    while stack:
        e = stack.pop()
        if id(e) in seen:
            continue
        seen.add(id(e))
        if isinstance(e, gem.Variable):
            acc[e.name] = e
        stack.extend(e.children)
    return acc


def leafspec(a):
    return ["leaf", "Lagrange" if a["continuous"] else "DiscontinuousLagrange", "interval", a["degree"], {}]


def parse_name(a, alpha):
    return "rt_%s_%d_%s_%d_%s_%s" % (a["variant"], a["degree"], "".join(map(str, alpha)), a["shift"], "c" if a["continuous"] else "d",
                                   {None: "", "+": "p", "-": "m"}[a["restriction"]])


def run(case, rec):
    import FIAT
    import finat
    import gem
    from finat.point_set import PointSet, TensorPointSet
    I = FIAT.ufc_simplex(1)
    if "refuse" in case:
        return refuse(case["refuse"], rec, I)
    rng = core.rng_for(case["seed"], "c20")
    axes = case["axes"]
    name = json.dumps(case)
    rec.note({"axes": axes})
    elems, specs = [], []
    for a in axes:
        specs.append(leafspec(a))
        if a["kind"] == "plain":
            elems.append(model.build(specs[-1]))
            continue
        e = finat.RuntimeTabulated(I, a["degree"], variant=a["variant"], shift_axes=a["shift"], restriction=a["restriction"],
                                   continuous=a["continuous"])
        rec.check(e.degree == a["degree"] and e.space_dimension() == a["degree"] + 1 and e.index_shape == (a["degree"] + 1,)
                  and e.value_shape == () and e.mapping == "affine" and e.formdegree == (0 if a["continuous"] else 1) and e.cell == I
                  and e.complex == I, "attributes", "%s: attributes of the element" % name)
        elems.append(e)
    elem, spec = (elems[0], specs[0]) if len(axes) == 1 else (finat.TensorProductElement(elems), ["tpe", specs])
    K = geom.cell_from(["interval"] * len(axes)) if len(axes) > 1 else I
    if case["wrap"] == "tensor":
        elem, spec = finat.TensorFiniteElement(elem, (2,), transpose=False), ["tensor", spec, [2], False]
    elif case["wrap"] == "flat" and len(axes) in (2, 3):
        elem, spec = finat.FlattenedDimensions(elem), ["flat", spec]
    elif case["wrap"] == "hdiv" and len(axes) == 2 and axes[0]["continuous"] != axes[1]["continuous"]:
        elem, spec = finat.HDivElement(elem), ["hdiv", spec]
    mod = model.model(spec)
    K = mod.cell
    tabcheck.shape_facts(rec, "runtime", elem, mod, name)
    # points
    sizes = [int(rng.integers(1, 4)) for _ in axes]
    arrs = [rng.uniform(0, 1, (s, 1)) for s in sizes]
    parts = [PointSet(a) for a in arrs]
    ps = parts[0] if len(axes) == 1 else TensorPointSet(parts)
    order = int(rng.integers(0, 3))
    res = elem.basis_evaluation(order, ps)
    d = len(axes)
    x = np.array([np.concatenate(t) for t in itertools.product(*arrs)])
    args = {}
    rec.check(set(res) == set(geom.all_multiindices(d, order)), "keys", "%s: derivatives %s" % (name, list(res)))
    for e in res.values():
        collect(e, args)
    bindings, expected = {}, {}
    for ax, (a, sp, arr) in enumerate(zip(axes, specs, arrs)):
        if a["kind"] != "rt":
            continue
        tabs = model.model(sp).tab(order, arr)
        for k in range(order + 1):
            nm = parse_name(a, (k,))
            t = tabs[(k,)]
            if nm in expected and (expected[nm].shape != t.shape or not np.array_equal(expected[nm], t)):
                # two axes share a name only when given the same axis number
                rec.check(len({b["shift"] for b in axes if b["kind"] == "rt"}) < sum(b["kind"] == "rt" for b in axes), "names:clash",
                          "%s: %s names two different tables" % (name, nm))
                raise core.Skip("two factors were given the same axis")
            expected[nm] = t
    rec.check(set(args) == set(expected), "names", "%s: kernel arguments %s, expected %s" % (name, sorted(args), sorted(expected)))
    rec.seen("arguments", len(args))
    for nm, v in args.items():
        if nm not in expected:
            continue
        if not rec.check(tuple(v.shape) == expected[nm].shape, "shape", "%s: argument %s has shape %s, the table is %s"
                         % (name, nm, v.shape, expected[nm].shape)):
            return
        bindings[v] = expected[nm]
    if set(args) - set(expected):
        return
    got = {}
    beta = elem.get_indices()
    zeta = tuple(gem.Index(extent=k) for k in elem.value_shape)
    for alpha, e in res.items():
        A = gemeval.arr(gem.Indexed(e, beta + zeta), tuple(ps.indices) + beta + zeta, bindings)
        got[alpha] = A.reshape((len(x),) + tuple(mod.index_shape) + tuple(mod.value_shape))
    rec.seen("tabulations")
    rec.key(name, order)
    tabcheck.compare(rec, "runtime", got, mod.tab(order, x), name)
    # run-time points on a single axis
    if len(axes) == 1 and case["wrap"] is None:
        from finat.point_set import UnknownPointSet
        ups = UnknownPointSet(gem.Variable("rt_:X", (4, 1)))
        r = elem.basis_evaluation(0, ups)[(0,)]
        v, = collect(r, {}).values()
        rec.check(tuple(v.shape) == (4, axes[0]["degree"] + 1) and v.name == parse_name(axes[0], (0,)) and set(r.free_indices) == set(ups.indices),
                  "unknown", "%s: at run-time points" % name)


def refuse(what, rec, I):
    import FIAT
    import finat
    import gem
    rec.seen("refusals", 2)
    rec.key("refuse", what)
    R = finat.RuntimeTabulated
    ok = (AssertionError,)
    if what in ("triangle", "quadrilateral", "tetrahedron"):
        f, ok = lambda: R(geom.cell_from(what), 1, variant="x"), (NotImplementedError,)
    elif what == "variant":
        f = lambda: R(I, 1)
    elif what == "shift":
        f = lambda: R(I, 1, variant="x", shift_axes="1")
    elif what == "shift-neg":
        f = lambda: R(I, 1, variant="x", shift_axes=-1)
    elif what == "continuous":
        f = lambda: R(I, 1, variant="x", continuous=None)
    elif what == "restriction":
        f = lambda: R(I, 1, variant="x", restriction="both")
    elif what == "point":
        f, ok = lambda: R(I, 1, variant="x").point_evaluation(0, gem.Variable("X", (1,))), (NotImplementedError,)
    elif what == "point-tpe":
        e = R(I, 1, variant="x")
        f, ok = lambda: finat.TensorProductElement([e, e]).point_evaluation(0, gem.Variable("X", (2,)), (1, 1) and None), (NotImplementedError,)
    else:
        f, ok = lambda: R(I, 1, variant="x").entity_dofs(), (NotImplementedError,)
    try:
        f()
    except ok:
        return
    rec.fail("refuse:" + what, "%s was accepted" % what)
