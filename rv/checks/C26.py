import json
import os
import subprocess
import sys

from rv import core, uflmodel as um

PROPERTY = "C26"
ROUNDS = 8
RULE = ("a case is a set of UFL element specifications: built twice they must be equal with equal hash, repr and signature; any single change of family, degree, "
        "cell, scheme, variant, dimension, shape, symmetry, order, domain or mapping must give a different element; spelling differences (aliases, dict "
        "order) must not; sorting and set membership follow; other processes with other hash seeds must see the same. Distinct by specification.")
MIN = {"pairs_equal": 2000, "pairs_different": 4000, "processes": 4, "sorted_lists": 50}
ASSUMPTIONS = ["no collisions of md5"]


def cases(rng, tier):
    out = []
    for i in range(2500 if tier == "quick" else 30000):
        out.append({"kind": "id", "spec": um.rand_top(rng, int(rng.integers(0, 4))), "seed": int(rng.integers(1 << 30))})
    for i in range(150 if tier == "quick" else 600):
        out.append({"kind": "sort", "specs": [um.rand_top(rng, 1) for _ in range(8)], "seed": int(rng.integers(1 << 30))})
    for i in range(6 if tier == "quick" else 16):
        out.insert(i, {"kind": "process", "specs": [um.rand_top(rng, 2) for _ in range(60)], "seed": int(rng.integers(1 << 30)), "hashseed": i})
    return out


def mutate(rng, spec):
    """A specification that differs in exactly one place (may be invalid)."""
    s = json.loads(json.dumps(spec))
    sites = []

    def walk(x):
        op = x[0]
        if op == "fe":
            sites.append((x, "degree"))
            sites.append((x, "variant"))
            sites.append((x, "family"))
            if not isinstance(x[2], list):
                sites.append((x, "scheme"))
                sites.append((x, "cell"))
            return
        if op in ("mixed", "enr", "nodal", "tpe"):
            if len(x[1]) > 1:
                sites.append((x, "order"))
                if op != "tpe":
                    sites.append((x, "drop"))
            sites.append((x, "append"))
            if op == "tpe":
                sites.append((x, "tpecell"))
            if op in ("enr", "nodal"):
                sites.append((x, "flip"))
            for y in x[1]:
                walk(y)
            return
        if op in ("hdiv", "hcurl"):
            sites.append((x, "flip"))
        elif op == "vec":
            sites.append((x, "dim"))
        elif op == "ten":
            sites.extend([(x, "shape"), (x, "symmetry")])
        elif op == "restr":
            sites.append((x, "domain"))
        elif op == "map":
            sites.append((x, "mapping"))
        if op in ("broken", "restr", "map"):
            sites.append((x, "unwrap"))
        walk(x[1])
    walk(s)
    x, what = sites[int(rng.integers(len(sites)))]
    if what == "tpecell":
        flat = {1: "interval", 2: "quadrilateral", 3: "hexahedron"}[um.tdim([um.cell_of(y) for y in x[1]])]
        x[2] = flat if x[2] is None else None
    elif what == "degree" and x[3] is not None and rng.random() < .2:
        x[3] = None
    elif what == "degree":
        x[3] = (x[3] or 0) + (1 if rng.random() < .7 or not x[3] else -1)
    elif what == "variant":
        x[5] = um.pick(rng, [v for v in um.VARIANTS + ["other"] if v != x[5]])
    elif what == "scheme":
        x[4] = um.pick(rng, [v for v in um.QS + ["other"] if v != x[4]])
    elif what == "family":
        x[1] = um.pick(rng, um.NAMES)
    elif what == "cell":
        x[2] = um.pick(rng, ["interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"])
    elif what == "order":
        i, j = rng.permutation(len(x[1]))[:2]
        x[1][i], x[1][j] = x[1][j], x[1][i]
    elif what == "drop":
        x[1].pop()
    elif what == "append":
        x[1].append(x[1][-1])
    elif what == "flip":
        x[0] = {"enr": "nodal", "nodal": "enr", "hdiv": "hcurl", "hcurl": "hdiv"}[x[0]]
    elif what == "dim":
        x[2] += 1
    elif what == "shape":
        x[2] = x[2] + [1] if rng.random() < .5 else [k + 1 for k in x[2]]
        if x[3] and x[3] is not True:
            x[3] = None
    elif what == "symmetry":
        x[3] = um.rand_symmetry(rng, x[2])
    elif what == "domain":
        x[2] = um.pick(rng, ["interior", "facet", "face", "edge", "vertex", "reduced"])
    elif what == "mapping":
        x[2] = um.pick(rng, [um.ID, um.COV, um.CON, um.L2P, um.CC])
    elif what == "unwrap":
        y = x[1]
        x[:] = y
    return s, what


def respell(rng, spec):
    """The same element said differently."""
    s = json.loads(json.dumps(spec))

    def walk(x):
        op = x[0]
        if op == "fe":
            fam = um.canonical_family(x[1], None)
            alts = [fam] + [a for a, b in list(um.SHORT.items()) + list(um.ALIAS.items()) if um.SHORT.get(b, b) == fam or b == fam]
            x[1] = um.pick(rng, alts)
        elif op in ("mixed", "enr", "nodal", "tpe"):
            for y in x[1]:
                walk(y)
        else:
            if op == "ten" and isinstance(x[3], list):
                x[3] = [x[3][i] for i in rng.permutation(len(x[3]))]
            elif op == "ten" and x[3] is True:
                x[3] = [[list(a), list(b)] for a, b in um.symmetry_of(x).items()] or None
            walk(x[1])
    walk(s)
    return s


def run(case, rec):
    rng = core.rng_for(case["seed"], "c26")
    if case["kind"] == "id":
        spec = case["spec"]
        name = json.dumps(spec)
        a, b = um.build(spec), um.build(spec)
        rec.note({"element": spec})
        rec.key(name)
        for lab, other in (("rebuilt", b), ("respelt", um.build(respell(rng, spec))),
                           ("otherwise built", um.build_alt(rng, spec)), ("otherwise built", um.build_alt(rng, respell(rng, spec)))):
            rec.check(a == other and other == a, "identity:equal", "%s: not equal to its %s twin %r vs %r" % (name, lab, a, other))
            rec.check(not (a != other), "identity:ne", "%s: != its %s twin" % (name, lab))
            rec.check(hash(a) == hash(other), "identity:hash", "%s: hash differs from its %s twin" % (name, lab))
            rec.check(repr(a) == repr(other), "identity:repr", "%s: repr differs from its %s twin: %r %r" % (name, lab, a, other))
            rec.check(a._ufl_signature_data_() == other._ufl_signature_data_(), "identity:signature", "%s: signature differs" % name)
            rec.check(lab != "rebuilt" or str(a) == str(other) and a.shortstr() == other.shortstr(), "identity:str",
                      "%s: printed differently from its %s twin: %s %s" % (name, lab, a, other))
            rec.check(len({a, other}) == 1, "identity:set", "%s: two entries in a set" % name)
            rec.check(not (a < other) and not (other < a), "identity:lt", "%s: ordered before its twin" % name)
            rec.seen("pairs_equal")
        for x in (None, 0, "x", repr(a), object()):
            rec.check(not (a == x) and a != x, "identity:foreign", "%s: equal to %r" % (name, x))
        mine = um.canon(spec)
        for _ in range(6):
            other, what = mutate(rng, spec)
            try:
                o = um.build(other)
            except (ValueError, TypeError, KeyError, AttributeError, IndexError):
                rec.seen("invalid_mutants")
                continue
            if um.canon(other) == mine:
                continue
            rec.check(a != o and o != a and not (a == o), "identity:distinguish", "%s and %s (changed %s) compare equal" % (name, json.dumps(other), what))
            rec.check(hash(a) != hash(o), "identity:hash-collision", "%s and %s hash alike" % (name, json.dumps(other)))
            rec.check(repr(a) != repr(o), "identity:repr-collision", "%s and %s print alike: %r" % (name, json.dumps(other), a))
            rec.check(len({a, o}) == 2, "identity:set", "%s and %s collapse in a set" % (name, json.dumps(other)))
            rec.check((a < o) != (o < a), "identity:order", "%s and %s are not ordered" % (name, json.dumps(other)))
            rec.seen("pairs_different")
            rec.seen("changed_" + what)
    elif case["kind"] == "sort":
        es = [um.build(s) for s in case["specs"]]
        base = [repr(e) for e in sorted(es)]
        for _ in range(3):
            p = [es[i] for i in rng.permutation(len(es))]
            rec.check([repr(e) for e in sorted(p)] == base, "identity:sort", "sorting depends on the initial order: %s" % base)
        rec.seen("sorted_lists")
    else:
        es = [um.build(s) for s in case["specs"]]
        code = ("import sys, json; sys.path.insert(0, %r)\nfrom rv import uflmodel as um\nimport pickle\n"
                "specs = json.loads(sys.stdin.read())\n"
                "es = [um.build(s) for s in specs]\n"
                "d = {e: i for i, e in enumerate(es)}\n"
                "print(json.dumps([[repr(e), str(hash(e)), e._ufl_signature_data_(), pickle.dumps(e).hex()] for e in es]))\n"
                % os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
        env = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"] * 17 + 3))
        r = subprocess.run([sys.executable, "-c", code], input=json.dumps(case["specs"]), capture_output=True, text=True, env=env, timeout=150)
        if r.returncode:
            raise RuntimeError("child process failed: " + r.stderr[-800:])
        import pickle
        out = json.loads(r.stdout.strip().splitlines()[-1])
        for e, s, (rp, h, sig, pk) in zip(es, case["specs"], out):
            rec.check(repr(e) == rp, "identity:process-repr", "%s: repr differs between processes: %s / %s" % (json.dumps(s), repr(e), rp))
            rec.check(str(hash(e)) == h, "identity:process-hash", "%s: hash differs between processes" % json.dumps(s))
            rec.check(e._ufl_signature_data_() == sig, "identity:process-signature", "%s: signature differs between processes" % json.dumps(s))
            f = pickle.loads(bytes.fromhex(pk))
            rec.check(f == e and hash(f) == hash(e), "identity:process-pickle", "%s: differs when unpickled here" % json.dumps(s))
        rec.key("process", case["hashseed"])
        rec.seen("processes")
