import json
import os
import subprocess
import sys

from rv import core, model, uflmodel as um, zany

model.MACRO_RATE = .12
PROPERTY = "C31"
RULE = ("a case is a batch of element specifications (reference, composite, physically mapped, UFL) answered completely (tabulation, point evaluation, duals, maps, "
        "permutations, restrictions, printed forms) in four separate processes with different hash seeds, memory layout, index counters and order of work; canonical "
        "fingerprints of all answers, including the structure of the generated expressions, must coincide. Distinct by (specification, question).")
MIN = {"specifications": 150, "fingerprints": 2000, "processes": 20}
ASSUMPTIONS = ["rounding differences below 1e-9 relative are not differences"]
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def cases(rng, tier):
    q = tier == "quick"
    items = []
    n = 260 if q else 6000
    for _ in range(n):
        u = rng.random()
        if u < .2:
            s = model.safe(lambda r: model.rand_hwrap(r, cap=2), rng)
            if rng.random() < .4 and "triangle" not in json.dumps(s):
                s = ["flat", s]
        elif u < .4:
            cat = model.leaf_catalog()
            s = cat[int(rng.integers(len(cat)))]
            try:
                model.model(s)
            except core.Skip:
                continue
        else:
            s = model.safe(model.rand_any, rng, model.pick(rng, model.CELLS), int(rng.integers(1, 3)))
        m = model.model(s)
        if model.prod(m.index_shape) * model.prod(m.value_shape) > 250:
            continue
        items.append({"spec": s})
    cat = [c for c in zany.catalog() if not (c["dim"] == 3 and c["kw"].get("order", 0) > 0) and c["name"] not in ("GuzmanNeilanH1div",)
           and not (c["name"] == "HuZhang" and c["kw"]["degree"] > 3) and not (c["dim"] == 3 and c["name"] in ("JohnsonMercier", "AlfeldSorokina", "ChristiansenHu"))
           and c["kw"].get("degree", 0) < 7]
    for c in (cat if not q else [cat[int(i)] for i in rng.permutation(len(cat))[:24]]):
        items.append({"zany": c, "seed": int(rng.integers(1 << 30))})
    for _ in range(100 if q else 3000):
        items.append({"ufl": um.rand_top(rng)})
    items = [items[int(i)] for i in rng.permutation(len(items))]
    size = 12
    return [{"items": items[i:i + size], "seed": int(rng.integers(1 << 30))} for i in range(0, len(items), size)]


def run(case, rec):
    runs = []
    for k, hs in enumerate(("0", "1", str(case["seed"] % 4000000000), "random")):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable, "-m", "rv.repro"], input=json.dumps({"items": case["items"], "noise": case["seed"] + k}), env=env, cwd=HERE,
                           capture_output=True, text=True)
        rec.seen("processes")
        if p.returncode:
            if not rec.check(False, "repro:crash", "process with hash seed %s failed: %s" % (hs, p.stderr[-600:])):
                return
        runs.append(json.loads(p.stdout))
    for i, it in enumerate(case["items"]):
        name = json.dumps(it)[:300]
        rec.seen("specifications")
        base = runs[0][i]
        for qn in base:
            rec.key(name, qn)
            vals = [r[i].get(qn) for r in runs]
            rec.seen("fingerprints", len(vals))
            if len(base[qn]) == 16:
                rec.seen("answered")
            rec.check(len(set(vals)) == 1, "repro:" + qn.split()[0], "%s: the answer to '%s' depends on the process: %s" % (name, qn, vals))
    rec.note({"specifications": [json.dumps(i)[:120] for i in case["items"][:3]]})
