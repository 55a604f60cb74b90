import numpy as np

from rv import core, geom, zany

PROPERTY = "C17"
RULE = ("a case is a physically mapped element, a random physical cell, and random cell sizes at its vertices; the basis with those "
        "sizes must be a positive diagonal rescaling of the unit-size basis, each factor being a power of the mean size at the "
        "vertices of the dof's own entity, and scaling cell and sizes together must rescale each function by an integer power (none "
        "for scalar elements with integral or point dofs). Distinct by (element, cell, sizes).")
MIN = {"rescalings": 100, "scaled_dofs": 100}
ASSUMPTIONS = ["the basis with unit cell size is right (decided by C16)"]

SCALED = {"Hermite": {0}, "Morley": {1}, "Bell": {0}, "QuadraticPowellSabin6": {0}, "QuadraticPowellSabin12": {0},
          "ReducedHsiehCloughTocher": {0}, "Argyris": {0}, "HsiehCloughTocher": {0}}


def cases(rng, tier):
    reps = 3 if tier == "quick" else 40
    out = []
    for r in range(reps):
        for c in zany.catalog():
            if c["dim"] == 3 and c["kw"].get("order", 0) == 2 and r:
                continue
            out.append({"el": c, "seed": int(rng.integers(1 << 30))})
    return out


def factors(A, B, tol=1e-7):
    """r with A[:, i] = r[i] B[:, i]; None where there is none."""
    out = []
    for i in range(A.shape[1]):
        a, b = A[:, i].ravel(), B[:, i].ravel()
        r = float(a @ b) / float(b @ b)
        out.append(r if np.abs(a - r * b).max() <= tol * np.abs(a).max() else None)
    return out


def run(case, rec):
    import FIAT
    c = case["el"]
    rng = core.rng_for(case["seed"], "c17")
    dim = c["dim"]
    name = zany.label(c)
    ref = FIAT.ufc_simplex(dim)
    v = zany.random_simplex(rng, dim, qmin=0.1)
    elem = zany.build(c, ref)
    X = geom.random_points(rng, ref, 4)
    h = np.exp(rng.uniform(-2, 2, size=dim + 1))
    s = float(rng.choice([0.125, 0.5, 2.0, 8.0]))
    zero = (0,) * dim

    def tab(verts, hh):
        return zany.physical_tables(elem, zany.Geometry(ref, verts, hh), X)[zero]
    T1, Th, Ths, Ts = tab(v, np.ones(dim + 1)), tab(v, h), tab(v, s * h), tab(s * v, s * h)
    rec.seen("rescalings")
    rec.key(name, v.round(3).tolist(), h.round(3).tolist())
    rec.note({"element": name, "vertices": v.tolist(), "cell_size": h.tolist()})
    own = {}
    top = ref.get_topology()
    for d, es in elem.entity_dofs().items():
        for e, dofs in es.items():
            for k in dofs:
                own[k] = (d, e)
    f1, f2, f3 = factors(Th, T1), factors(Ths, Th), factors(Ts, Th)
    for i in range(elem.space_dimension()):
        d, e = own[i]
        what = "%s, function %d (dim-%d entity %d), sizes %s" % (name, i, d, e, h.round(4).tolist())
        if not rec.check(f1[i] is not None and f1[i] > 0 and f2[i] is not None and f3[i] is not None,
                         "cellsize:diagonal", what + ": not a positive multiple of the unit-size function"):
            return
        k = np.log2(f2[i]) / np.log2(s)
        if not rec.check(abs(k - round(k)) < 1e-6, "cellsize:power", what + ": scaling the sizes by %g scales it by %g" % (s, f2[i])):
            return
        k = int(round(k))
        hm = float(np.mean(h[list(top[d][e])]))
        if not rec.check(abs(f1[i] - hm ** k) < 1e-6 * f1[i], "cellsize:local",
                         what + ": scaled by %.6g, but the mean size at its entity's vertices is %.6g (power %d)" % (f1[i], hm, k)):
            return
        if k:
            rec.seen("scaled_dofs")
        q = np.log2(abs(f3[i])) / np.log2(s)
        rec.check(f3[i] > 0 and abs(q - round(q)) < 1e-6, "cellsize:similarity", what + ": scaling the cell multiplies it by %g" % f3[i])
        if c["name"] in SCALED:
            free = c["kw"].get("avg", False) and d > 0
            rec.check(abs(q) < 1e-6 or free and abs(q - 1) < 1e-6, "cellsize:invariance",
                      what + ": scaling cell and sizes by %g multiplies it by %g instead of leaving it invariant" % (s, f3[i]))
