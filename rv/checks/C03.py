import math

import numpy as np

from rv import core, gemeval

PROPERTY = "C03"
ROUNDS = 20
RULE = ("a case is a random symbolic expression (sums, products, integer/half powers, rationals, floats, absolute values, nested "
        "piecewise definitions, all comparisons incl. ties, and/or/not/if-then-else) built in SymPy and, where expressible, "
        "SymEngine; the translated code is executed on a grid of points that includes exact ties and compared with direct "
        "recursive evaluation of the generating tree. Distinct by expression text.")
MIN = {"translations": 300, "piecewise": 50, "ties": 50}
ASSUMPTIONS = ["sympy/symengine simplification preserves value"]

DY = [-2.0, -1.5, -1.0, -0.5, 0.0, 0.25, 0.5, 0.75, 1.0, 2.0]


def gen(rng, depth, piece=True):
    """Generating tree (tuples)."""
    r = rng.random()
    if depth == 0 or r < .12:
        u = rng.random()
        if u < .55:
            return ("v", int(rng.integers(3)))
        if u < .7:
            return ("i", int(rng.integers(-3, 4)))
        if u < .85:
            return ("q", int(rng.integers(-5, 6)), int(rng.integers(2, 8)))
        return ("f", float(np.round(rng.uniform(-2, 2), 3)))
    if r < .35:
        return ("+",) + tuple(gen(rng, depth - 1, piece) for _ in range(int(rng.integers(2, 5))))
    if r < .58:
        return ("*",) + tuple(gen(rng, depth - 1, piece) for _ in range(int(rng.integers(2, 4))))
    if r < .66:
        return ("-", gen(rng, depth - 1, piece), gen(rng, depth - 1, piece))
    if r < .74:
        return ("^", gen(rng, depth - 1, piece), int(rng.integers(2, 5)))
    if r < .80:
        return ("/", gen(rng, depth - 1, piece), gen(rng, depth - 1, piece))
    if r < .84:
        return ("sqrt", gen(rng, depth - 1, piece))
    if r < .90 or not piece:
        return ("abs", gen(rng, depth - 1, piece))
    n = int(rng.integers(1, 4))
    return ("pw",) + tuple((gen(rng, depth - 1, piece), cond(rng, 2)) for _ in range(n)) + (gen(rng, depth - 1, piece),)


def lin(rng):
    return ("+",) + tuple(("*", ("d", float(rng.choice([-1, 1, .5, 2]))), ("v", int(rng.integers(3)))) for _ in range(int(rng.integers(1, 3)))) \
        + (("d", float(rng.choice(DY))),)


def cond(rng, depth, ite=True):
    if depth == 0 or rng.random() < .55:
        return (str(rng.choice(["<", "<=", ">", ">=", "=="])), lin(rng), lin(rng))
    op = str(rng.choice(["and", "or", "not", "ite"][:4 if ite else 3]))
    k = {"not": 1, "ite": 3}.get(op, int(rng.integers(2, 4)))
    return (op,) + tuple(cond(rng, depth - 1, ite) for _ in range(k))


def ev(t, x, st):
    """Direct evaluation; st collects facts (ties, undefined)."""
    op = t[0]
    if op == "v":
        return x[t[1]]
    if op == "i":
        return float(t[1])
    if op == "q":
        return t[1] / t[2]
    if op in "fd":
        return t[1]
    if op in ("+", "*", "and", "or"):
        vs = [ev(s, x, st) for s in t[1:]]
        if op == "+":
            return sum(vs)
        if op == "*":
            return math.prod(vs)
        return all(vs) if op == "and" else any(vs)
    if op == "-":
        return ev(t[1], x, st) - ev(t[2], x, st)
    if op == "^":
        return ev(t[1], x, st) ** t[2]
    if op == "/":
        d = 1 + ev(t[2], x, st) ** 2
        return ev(t[1], x, st) / d
    if op == "sqrt":
        return math.sqrt(1 + ev(t[1], x, st) ** 2)
    if op == "abs":
        return abs(ev(t[1], x, st))
    if op in ("pw", "pwn"):
        for v, c in t[1:-1]:
            if ev(c, x, st):
                return ev(v, x, st)
        return ev(t[-1], x, st) if op == "pw" else math.nan
    if op == "not":
        return not ev(t[1], x, st)
    if op == "ite":
        return ev(t[2], x, st) if ev(t[1], x, st) else ev(t[3], x, st)
    a, b = ev(t[1], x, st), ev(t[2], x, st)
    if a == b:
        st["ties"] = st.get("ties", 0) + 1
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b}[op]


def to_sym(t, S, xs, eng):
    op = t[0]
    if op == "v":
        return xs[t[1]]
    if op == "i":
        return S.Integer(t[1])
    if op == "q":
        return S.Rational(t[1], t[2]) if not eng else S.Integer(t[1]) / S.Integer(t[2])
    if op == "f":
        return S.Float(t[1]) if not eng else S.RealDouble(t[1])
    if op == "d":
        p, q = float(t[1]).as_integer_ratio()
        return S.Integer(p) / S.Integer(q)
    R = lambda s: to_sym(s, S, xs, eng)
    if op == "+":
        return S.Add(*map(R, t[1:]))
    if op == "*":
        return S.Mul(*map(R, t[1:]))
    if op == "-":
        return R(t[1]) - R(t[2])
    if op == "^":
        return R(t[1]) ** t[2]
    if op == "/":
        return R(t[1]) / (1 + R(t[2]) ** 2)
    if op == "sqrt":
        return S.sqrt(1 + R(t[1]) ** 2)
    if op == "abs":
        return S.Abs(R(t[1])) if not eng else S.Abs(R(t[1]))
    if op == "pw":
        return S.Piecewise(*[(R(v), R(c)) for v, c in t[1:-1]], (R(t[-1]), True))
    if op == "pwn":
        return S.Piecewise(*[(R(v), R(c)) for v, c in t[1:-1]])
    if op == "not":
        return S.Not(R(t[1]))
    if op == "and":
        return S.And(*map(R, t[1:]))
    if op == "or":
        return S.Or(*map(R, t[1:]))
    if op == "ite":
        return S.ITE(*map(R, t[1:]))
    f = {"<": S.Lt, "<=": S.Le, ">": S.Gt, ">=": S.Ge, "==": S.Eq}[op]
    return f(R(t[1]), R(t[2]))


def fragile(expr, xs, pts, sympy):
    """Points at which some comparison is decided by round-off: within 1e-9 of a
    tie although its coefficients are not exactly representable."""
    bad = np.zeros(len(pts), dtype=bool)
    for r in expr.atoms(sympy.core.relational.Relational):
        exact = all((n.is_Rational and (n.q & (n.q - 1)) == 0) for n in r.atoms(sympy.Number)) \
            and not r.atoms(sympy.Pow)
        if exact:
            continue
        f = sympy.lambdify(xs, r.lhs - r.rhs, "math")
        for k, p in enumerate(pts):
            if abs(f(*map(float, p))) < 1e-9:
                bad[k] = True
    return bad


def cases(rng, tier):
    n = 800 if tier == "quick" else 12000
    out = []
    for i in range(n):
        out.append({"seed": int(rng.integers(1 << 30)), "depth": int(rng.integers(1, 5)),
                    "engine": "symengine" if i % 4 == 3 else "sympy", "boolean": bool(i // 4 % 3 == 0)})
    return out


def run(case, rec):
    try:
        _run(case, rec)
    except RecursionError as e:
        import traceback
        tail = traceback.extract_tb(e.__traceback__)[-40:]
        if any("/finat/" in f.filename for f in tail):
            raise
        raise core.Skip("sympy recursion")


def _run(case, rec):
    import gem
    import sympy
    import symengine
    from finat.sympy2gem import sympy2gem
    rng = core.rng_for(case["seed"], "c03")
    eng = case["engine"] == "symengine"
    if case["boolean"] and not eng:
        tree = ("pw", (gen(rng, 1), cond(rng, 3)), gen(rng, 1))
    else:
        tree = gen(rng, case["depth"], piece=not eng)
        if eng and case["boolean"]:
            op = "pwn" if rng.random() < .3 else "pw"
            tree = (op,) + tuple((gen(rng, 2, False), cond(rng, 2, False)) for _ in range(int(rng.integers(1, 4)))) + (gen(rng, 2, False),)
        elif not eng and rng.random() < .1:
            tree = ("pwn",) + tuple((gen(rng, 2), cond(rng, 2)) for _ in range(int(rng.integers(1, 4)))) + (("i", 0),)
    S = symengine if eng else sympy
    xs = S.symbols("X Y Z")
    try:
        expr = to_sym(tree, S, xs, eng)
    except (TypeError, ValueError, RuntimeError) as e:
        raise core.Skip("sympy cannot build: %s" % type(e).__name__)
    if not eng and expr.has(sympy.zoo, sympy.nan):
        raise core.Skip("undefined")
    n = 12
    pts = rng.choice(DY, size=(n, 3))
    pts[n // 2:] += rng.uniform(-1, 1, (n - n // 2, 3))
    q = gem.Index(extent=n)
    X = gem.Variable("X", (n, 3))
    mapper = gem.node.Memoizer(sympy2gem)
    mapper.bindings = {s: gem.Indexed(X, (q, i)) for i, s in enumerate(xs)}
    try:
        g = mapper(expr)
    except (AssertionError, NotImplementedError):
        # an explicit refusal is only legitimate for node types outside the
        # documented vocabulary
        if "Ne(" in sympy.srepr(sympy.sympify(expr)) or "!=" in str(expr) or "Unequality" in sympy.srepr(sympy.sympify(expr)):
            raise core.Skip("unsupported node refused")
        raise
    rec.seen("translations")
    rec.check(g.shape == (), "translate:shape", "non-scalar translation")
    with np.errstate(all="ignore"):
        got = gemeval.arr(g, (q,), {X: pts})
    st = {}
    want = np.array([float(ev(tree, p, st)) for p in pts])
    rec.seen("ties", st.get("ties", 0))
    if "pw" in repr(tree):
        rec.seen("piecewise")
    rec.key(case["engine"], str(expr)[:400])
    rec.note({"expr": str(expr)[:300], "engine": case["engine"]})
    hole = np.isnan(want)
    if tree[0] == "pwn" and hole.any():
        rec.seen("uncovered_points", int(hole.sum()))
        bad = hole if eng else hole & ~fragile(expr, xs, pts, sympy)
        rec.check(bool(np.isnan(got[bad]).all()), "translate:hole", "piecewise without matching condition is not NaN: %s" % str(expr)[:300])
    fin = np.isfinite(want) & (np.abs(want) < 1e8)
    if not eng:
        fin &= ~fragile(expr, xs, pts, sympy)
    if not fin.any():
        return
    # cancellation-aware tolerance
    err = np.abs(got - want)[fin] / (1 + np.abs(want[fin]))
    rec.check(bool((err < 1e-7).all()), "translate:%s" % case["engine"], "translated expression differs at point %s: got %s, want %s; expr %s"
              % (pts[fin][int(err.argmax())], got[fin][int(err.argmax())], want[fin][int(err.argmax())], str(expr)[:400]))
    rec.seen("values", int(fin.sum()))
