import copy
import json
import os
import pickle
import subprocess
import sys

from rv import core, uflmodel as um

PROPERTY = "C27"
ROUNDS = 8
RULE = ("a case is a UFL element specification: its pickled (every protocol), copied, deep-copied and eval(repr()) twins must be equal and agree on every "
        "observable attribute; reconstruct() must be the identity and reconstruct(x=...) the element of the specification with x replaced in every "
        "simple constituent. Distinct by specification and operation.")
MIN = {"twins": 5000, "reconstructions": 2000, "reconstruct_refused_both": 20, "attributes_compared": 50000}
ASSUMPTIONS = []
KW = {"degree": [0, 1, 2, 3, 5], "cell": ["interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"],
      "family": ["CG", "DG", "RT", "BDM", "N1curl", "Q", "DQ", "GLL", "DQ L2", "B"], "variant": ["spectral", "equispaced", "fdm"],
      "quad_scheme": ["KMV", "default", "other"], "mapping": [um.ID, um.COV, um.CON]}
REFUSE = (ValueError, TypeError, KeyError, AttributeError, IndexError)


def cases(rng, tier):
    out = []
    for i in range(900 if tier == "quick" else 15000):
        out.append({"kind": "one", "spec": um.rand_top(rng, int(rng.integers(0, 4))), "seed": int(rng.integers(1 << 30))})
    for i in range(2 if tier == "quick" else 8):
        out.insert(i, {"kind": "process", "specs": [um.rand_top(rng, 2) for _ in range(120)], "seed": i, "hashseed": i})
    return out


def attempt(f):
    try:
        return f()
    except Exception as e:
        return "raises " + type(e).__name__


def observe(e, deep=True):
    """Every public observable of an element, recursively (display strings
    aside: short names follow the spelling the element was created with)."""
    out = {"type": type(e).__name__}
    for n in ("cell", "sobolev_space", "reference_value_shape", "reference_value_size", "num_sub_elements", "embedded_subdegree", "embedded_superdegree"):
        out[n] = attempt(lambda: str(getattr(e, n)))
    for n in ("family", "degree", "quadrature_scheme", "mapping", "variant", "is_cellwise_constant", "symmetry", "__repr__", "__hash__",
              "_ufl_signature_data_", "flattened_sub_element_mapping", "restriction_domain"):
        if n == "flattened_sub_element_mapping" and not hasattr(e, n):
            continue
        if n == "restriction_domain" and not hasattr(e, n):
            continue
        out[n] = attempt(lambda: repr(getattr(e, n)()))
    out["pullback"] = attempt(lambda: repr(e.pullback))
    out["orders"] = attempt(lambda: str([str(e.sobolev_space[i]) for i in range(e.cell.topological_dimension())]))
    n = attempt(lambda: int(e.reference_value_size))
    if isinstance(n, int) and len(e.reference_value_shape) == 1:
        out["components"] = [attempt(lambda: repr(e.extract_reference_component(i))) for i in range(n)]
    if deep:
        subs = attempt(lambda: list(e.sub_elements))
        out["sub"] = subs if isinstance(subs, str) else [observe(s) for s in subs]
    return out


def namespace():
    import ufl
    import ufl.cell
    from finat import ufl as fu
    ns = {n: getattr(fu, n) for n in dir(fu) if not n.startswith("_")}
    ns["TensorProductCell"] = ufl.cell.TensorProductCell
    ns["Cell"] = ufl.cell.Cell
    for c in um.ANY:
        ns[c] = ufl.cell.as_cell(c)
    return ns


def transform(spec, kw):
    """Replace kw in the simple constituents of a normalised specification."""
    op = spec[0]
    kw = dict(kw)
    if op == "fe":
        if "mapping" in kw:
            raise TypeError("mapping")
        pos = {"family": 1, "cell": 2, "degree": 3, "quad_scheme": 4, "variant": 5}
        s = list(spec)
        for k, v in kw.items():
            s[pos[k]] = v
        return s
    if op in ("mixed", "enr", "nodal"):
        return [op, [transform(s, kw) for s in spec[1]]]
    if op == "tpe":
        cell = kw.pop("cell", spec[2])
        return [op, [transform(s, kw) for s in spec[1]], cell]
    if op == "map":
        m = kw.pop("mapping", spec[2])
        return [op, transform(spec[1], kw), m]
    return [op, transform(spec[1], kw)] + list(spec[2:])


def same(rec, a, b, what, name):
    rec.check(a == b and hash(a) == hash(b) and repr(a) == repr(b), "roundtrip:" + what, "%s: %s gives %r" % (name, what, b))
    oa, ob = observe(a), observe(b)
    rec.seen("attributes_compared", len(oa))
    if oa != ob:
        diff = {k: (str(oa.get(k))[:200], str(ob.get(k))[:200]) for k in set(oa) | set(ob) if oa.get(k) != ob.get(k)}
        rec.fail("roundtrip:attributes:" + what, "%s: after %s attributes differ: %s" % (name, what, diff))
    rec.seen("assertions")


def run(case, rec):
    import warnings
    warnings.simplefilter("ignore")
    rng = core.rng_for(case.get("seed", 0), "c27")
    if case["kind"] == "process":
        code = ("import sys, json; sys.path.insert(0, %r)\nfrom rv.checks import C27\nimport pickle, warnings\nwarnings.simplefilter('ignore')\n"
                "es = pickle.loads(bytes.fromhex(sys.stdin.read()))\n"
                "print(json.dumps([C27.observe(e) for e in es]))\n" % core.VERIF)
        es = [um.build(s) for s in case["specs"]]
        env = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"] * 31 + 5))
        r = subprocess.run([sys.executable, "-c", code], input=pickle.dumps(es).hex(), capture_output=True, text=True, env=env, timeout=170)
        if r.returncode:
            rec.fail("roundtrip:process", "elements cannot be sent to another process: " + r.stderr[-800:])
            return
        mine = json.loads(json.dumps([observe(e) for e in es]))
        theirs = json.loads(r.stdout.strip().splitlines()[-1])

        for s, a, b in zip(case["specs"], mine, theirs):
            rec.check(a == b, "roundtrip:process", "%s: attributes differ in another process: %s" % (
                json.dumps(s), {k: (str(a[k])[:150], str(b.get(k))[:150]) for k in a if a[k] != b.get(k)}))
        rec.seen("processes")
        return
    spec = case["spec"]
    name = json.dumps(spec)
    e = um.build(spec)
    rec.note({"element": spec})
    before = observe(e)
    for proto in range(2, pickle.HIGHEST_PROTOCOL + 1):
        same(rec, e, pickle.loads(pickle.dumps(e, proto)), "pickle%d" % proto, name)
    same(rec, e, copy.copy(e), "copy", name)
    same(rec, e, copy.deepcopy(e), "deepcopy", name)
    try:
        r = eval(repr(e), namespace())
    except Exception as x:
        rec.fail("roundtrip:eval", "%s: repr %r cannot be evaluated: %s %s" % (name, e, type(x).__name__, x))
    else:
        same(rec, e, r, "eval", name)
    pair = pickle.loads(pickle.dumps((e, [e], {e: 1})))
    rec.check(pair[0] is pair[1][0] and pair[2][e] == 1, "roundtrip:shared", "%s: a pickled container loses identity or hashing" % name)
    rec.seen("twins", 9)
    rec.key("twins", name)
    # reconstruct
    norm = um.normal(spec)
    n = e.reconstruct()
    same(rec, e, n, "reconstruct()", name)
    opts = []
    for k, vs in KW.items():
        v = um.pick(rng, vs)
        opts.append({k: v})
    opts.append({"degree": um.pick(rng, KW["degree"]), "variant": um.pick(rng, KW["variant"])})
    opts.append({"degree": um.pick(rng, KW["degree"]), "quad_scheme": "other"})
    for kw in opts:
        real = dict(kw)
        if "cell" in real:
            real["cell"] = um.ucell(real["cell"])
        try:
            exp = um.build(transform(norm, kw))
        except REFUSE:
            exp = None
        try:
            got = e.reconstruct(**real)
        except REFUSE:
            got = None
        if exp is None:
            rec.check(got is None, "reconstruct:accepted", "%s: reconstruct(%s) gives %r although the element does not exist" % (name, kw, got))
            rec.seen("reconstruct_refused_both")
        elif got is None:
            rec.fail("reconstruct:refused", "%s: reconstruct(%s) refused, expected %r" % (name, kw, exp))
        else:
            rec.check(got == exp and repr(got) == repr(exp), "reconstruct:value", "%s: reconstruct(%s) gives %r, expected %r" % (name, kw, got, exp))
            if observe(got) != observe(exp):
                rec.fail("reconstruct:attributes", "%s: reconstruct(%s): attributes differ from %r" % (name, kw, exp))
            rec.seen("reconstructions")
            rec.key("reconstruct", name, json.dumps(kw))
    if type(e).__name__ == "MixedElement":
        subs = list(e.sub_elements)
        rec.check(e.reconstruct_from_elements(*subs) == e, "reconstruct:from-elements", "%s: from its own elements" % name)
        for new in (subs[:-1], subs + subs[:1], subs[::-1], subs[:1]):
            if not new:
                continue
            got = e.reconstruct_from_elements(*new)
            rec.check(list(got.sub_elements) == new, "reconstruct:from-elements", "%s: from %r gives %r" % (name, new, got))
    rec.check(observe(e) == before, "roundtrip:untouched", "%s: changed by copying or reconstructing" % name)
