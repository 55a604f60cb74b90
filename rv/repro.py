"""Worker of C31: builds elements, asks everything, prints fingerprints."""
import json
import random
import sys
import warnings

import numpy as np

REFUSALS = (NotImplementedError, ValueError, AttributeError, TypeError, AssertionError, KeyError)


def noise(seed):
    """Shift every counter and the layout of memory."""
    import gem
    r = random.Random(seed)
    junk = [object() for _ in range(r.randrange(5000))] + [gem.Index(extent=3) for _ in range(r.randrange(50))]
    return junk[::3]


def answers(build, cell, mapping=None, bindings=None):
    import gem
    from finat.point_set import PointSet
    from finat.quadrature import make_quadrature
    from rv import geom, tabcheck
    from rv.serial import fingerprint
    out = {}

    def ask(name, f):
        try:
            out[name] = fingerprint(f())
        except REFUSALS as e:
            out[name] = type(e).__name__
        except RecursionError:
            out[name] = "recursion"
    kw = {} if mapping is None else {"coordinate_mapping": mapping}
    e = build()
    ents = [None]
    d = cell.get_spatial_dimension()
    ents += [x for x in geom.entities(cell) if geom.entity_sdim(x[0]) == d - 1][:1]
    for ent in ents:
        sub = tabcheck.sub_of(cell, ent)
        for deg in (1, 3):
            def tab():
                ps = make_quadrature(sub, deg).point_set
                return [ps.indices, e.basis_evaluation(1 if ent is None else 0, ps, ent, **kw)]
            ask("tab%d %s" % (deg, ent), tab)
        if mapping is None:
            def point():
                X = gem.Variable("X", (max(1, sub.get_spatial_dimension()),))
                return e.point_evaluation(0, X, ent)
            if d < 3:
                ask("point %s" % (ent,), point)

    def dual():
        Q, x = e.dual_basis
        return [x.indices, Q, np.asarray(x.points)]
    ask("dual", dual)
    ask("dualeval", lambda: e.dual_evaluation(lambda ps: gem.ListTensor([gem.Indexed(ps.expression, (0,))] * e.value_shape[0]) if e.value_shape else gem.Indexed(ps.expression, (0,))))
    for n in ("entity_dofs", "entity_closure_dofs", "entity_support_dofs"):
        ask(n, lambda n=n: getattr(e, n)())
    for n in ("entity_permutations", "index_shape", "value_shape", "degree", "formdegree", "mapping"):
        ask(n, lambda n=n: getattr(e, n))

    def fiat():
        f = e.fiat_equivalent
        return [f.entity_dofs(), f.space_dimension(), f.tabulate(0, [tuple(.1 + .07 * i for i in range(d))], (cell.get_dimension(), 0))]
    if mapping is None:
        ask("fiat", fiat)
    import finat
    for dom in ("interior", "facet"):
        def restricted():
            r = finat.RestrictedElement(e, dom)
            return [r.entity_dofs(), r.basis_evaluation(0, make_quadrature(cell, 2).point_set, None, **kw)]
        ask("restrict " + dom, restricted)
    return out


def main():
    warnings.simplefilter("ignore")
    from rv import model, uflmodel as um, zany
    import FIAT
    job = json.load(sys.stdin)
    keep = noise(job["noise"])
    res = [None] * len(job["items"])
    order = list(range(len(res)))
    random.Random(job["noise"]).shuffle(order)
    for k in order:
        it = job["items"][k]
        if "spec" in it:
            res[k] = answers(lambda: model.build(it["spec"]), model.model(it["spec"]).cell)
        elif "zany" in it:
            c = it["zany"]
            ref = FIAT.ufc_simplex(c["dim"])
            g = zany.Geometry(ref, zany.random_simplex(np.random.default_rng(it["seed"]), c["dim"]), h=np.linspace(.7, 1.6, c["dim"] + 1), symbolic=True)
            res[k] = answers(lambda: zany.build(c, FIAT.ufc_simplex(c["dim"])), ref, g.mapping())
        else:
            u = um.build(it["ufl"])
            out = {}
            for n, f in (("repr", lambda: repr(u)), ("str", lambda: str(u)), ("short", lambda: u.shortstr()), ("degree", lambda: u.degree()),
                         ("subs", lambda: [repr(s) for s in u.sub_elements]), ("sobolev", lambda: str(u.sobolev_space)),
                         ("embedded", lambda: [u.embedded_subdegree, u.embedded_superdegree])):
                try:
                    out[n] = repr(f())
                except REFUSALS as e:
                    out[n] = type(e).__name__
            res[k] = out
        keep.append(noise(k))
    json.dump(res, sys.stdout)


if __name__ == "__main__":
    main()
