"""Runner shared by every check: case fan-out, monitors' bookkeeping, evidence,
replay files, known findings, exit codes.

A check module (rv.checks.<ID>) provides
    PROPERTY   property id
    RULE       text for the evidence file
    cases(rng, tier) -> list of JSON-able dicts
    run(case, rec)   -> drives the real code; calls rec.ok / rec.fail
    MIN        optional {counter: minimum} below which the run is inconclusive
    ASSUMPTIONS optional list of strings
"""
import collections
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import zlib

from rv import linecov

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")


class Timeout(BaseException):
    pass


class Skip(Exception):
    """The case is outside what the trusted library supports; not evaluated."""


class Rec:
    """What the monitors of one case saw."""

    def __init__(self):
        self.counters = collections.Counter()
        self.distinct = set()
        self.failures = []
        self.sample = None

    def seen(self, kind, n=1):
        self.counters[kind] += n

    def key(self, *parts):
        """Register a distinct non-trivial situation observed."""
        self.distinct.add("|".join(map(str, parts)))

    def fail(self, key, msg, **detail):
        self.failures.append({"key": str(key), "msg": str(msg)[:2000],
                              "detail": {k: str(v)[:600] for k, v in detail.items()}})

    def check(self, cond, key, msg, **detail):
        self.counters["assertions"] += 1
        if not cond:
            self.fail(key, msg, **detail)
        return bool(cond)

    def note(self, obj):
        if self.sample is None:
            self.sample = obj


def rng_for(seed, *tags):
    import numpy as np
    return np.random.default_rng([seed] + [zlib.crc32(str(t).encode()) for t in tags])


def _from_code_under_test(exc):
    tb = exc.__traceback__
    files = []
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    under = os.path.join(REPO, "finat") + os.sep
    if any(f.startswith(under) for f in files):
        return True
    # evaluating an expression the code under test returned
    return any(f.endswith(os.path.join("rv", "gemeval.py")) for f in files)


_MOD = None
_CASE_LIMIT = 200


def _alarm(*_):
    raise Timeout()


def _one(arg):
    idx, case = arg
    rec = Rec()
    status, err = "ok", None
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(_CASE_LIMIT)
    try:
        _MOD.run(case, rec)
    except Timeout:
        status, err = "timeout", json.dumps(case)[:300]
    except Skip as e:
        status, err = "skip", str(e)
    except MemoryError:
        status, err = "timeout", "MemoryError " + json.dumps(case)[:300]
    except Exception as e:
        text = traceback.format_exc()
        tail = [f.filename for f in traceback.extract_tb(e.__traceback__)[-40:]]
        if isinstance(e, RecursionError) and not any("/finat/" in f or "/rv/" in f for f in tail):
            # FIAT cannot order the cells of differently nested products
            status, err = "skip", "recursion in a trusted library"
        elif _from_code_under_test(e):
            sig = traceback.extract_tb(e.__traceback__)
            last = [f for f in sig if f.filename.startswith(REPO)] or sig
            rec.fail("exception:%s:%s" % (type(e).__name__, last[-1].name),
                     "unexpected %s: %s" % (type(e).__name__, e), trace=text[-1500:])
        elif isinstance(e, (OSError, ImportError, SyntaxError, NameError)):
            status, err = "error", text
        else:
            # what the code under test returned does not have the form every
            # answer has on a correct tree
            last = traceback.extract_tb(e.__traceback__)[-1]
            rec.fail("malformed:%s:%s" % (type(e).__name__, last.name),
                     "an answer could not be processed, %s: %s" % (type(e).__name__, e), trace=text[-1500:])
    finally:
        signal.alarm(0)
    return {"idx": idx, "status": status, "err": err, "t": time.time() - t0,
            "counters": dict(rec.counters), "distinct": sorted(rec.distinct),
            "failures": rec.failures, "sample": rec.sample, "lines": linecov.fresh()}


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e["property"] == prop]


def match_known(known, case, failure):
    for e in known:
        m = e["match"]
        if m.get("key") is not None and m["key"] != failure["key"]:
            continue
        if all(json.dumps(case.get(k)) == json.dumps(v) for k, v in m.get("case", {}).items()):
            return e
    return None


def jobs():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 1
    return max(1, min(8, n))


def all_cases(mod, seed, prop, tier):
    """The module's cases, drawn as many times as it asks for, without repeats."""
    out = list(mod.cases(rng_for(seed, prop, "cases"), tier))
    rounds = getattr(mod, "ROUNDS", 1) if tier == "quick" else 1
    rounds = int(os.environ.get("RV_ROUNDS", rounds))
    seen = {json.dumps(c, sort_keys=True, default=str) for c in out} if rounds > 1 else None
    for r in range(1, rounds):
        for c in mod.cases(rng_for(seed, prop, "cases", r), tier):
            k = json.dumps(c, sort_keys=True, default=str)
            if k not in seen:
                seen.add(k)
                out.append(c)
    return out


def main(mod, replay=None):
    global _MOD
    _MOD = mod
    prop = mod.PROPERTY
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    budget = float(os.environ.get("RV_BUDGET", "330" if tier == "quick" else "840"))
    known = load_known(prop)

    if replay:
        with open(replay) as f:
            data = json.load(f)
        cases = [data["case"]]
    else:
        cases = all_cases(mod, seed, prop, tier)
    lines = set()
    linecov.start(REPO)

    counters = collections.Counter()
    distinct = set()
    samples, failures, skips, errors, slowest = [], [], collections.Counter(), [], []
    done = timeouts = 0
    slow = []
    indexed = list(enumerate(cases))
    pool = None
    try:
        if len(cases) == 1 or os.environ.get("RV_SERIAL"):
            it = map(_one, indexed)
        else:
            ctx = mp.get_context("fork")
            pool = ctx.Pool(jobs(), maxtasksperchild=200)
            it = pool.imap_unordered(_one, indexed, chunksize=1)
        it = iter(it)
        while True:
            try:
                if pool is not None:
                    r = it.next(timeout=max(1.0, budget - (time.time() - t0)))
                else:
                    r = next(it)
            except StopIteration:
                break
            except mp.TimeoutError:
                break
            counters["cases"] += 1
            lines.update(map(tuple, r["lines"]))
            counters.update(r["counters"])
            slow.append((r["t"], r["idx"]))
            if r["status"] == "skip":
                skips[r["err"][:120]] += 1
                continue
            if r["status"] == "timeout":
                timeouts += 1
                slowest.append(r["err"])
                continue
            if r["status"] == "error":
                errors.append(r["err"])
                for f in r["failures"]:
                    failures.append((r["idx"], f))
                continue
            done += 1
            distinct.update(r["distinct"])
            if r["sample"] is not None and len(samples) < 6:
                samples.append(r["sample"])
            for f in r["failures"]:
                failures.append((r["idx"], f))
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()

    # --- verdict -----------------------------------------------------------
    new, known_hit = collections.OrderedDict(), collections.OrderedDict()
    for idx, f in failures:
        e = match_known(known, cases[idx], f)
        if e is not None:
            known_hit.setdefault(e["what"], (idx, f))
        else:
            new.setdefault(f["key"], (idx, f))
    for what in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    rdir = os.path.join(VERIF, "evidence", "replays")
    n_new = 0
    if new:
        os.makedirs(rdir, exist_ok=True)
        for key, (idx, f) in list(new.items())[:8]:
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, tier, n_new))
            with open(path, "w") as fh:
                json.dump({"property": prop, "seed": seed, "case": cases[idx], "failure": f}, fh, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   %s: %s" % (key, f["msg"][:400]))
            print("   case: %s" % json.dumps(cases[idx])[:400])
            n_new += 1
        if len(new) > 8:
            print("   ... and %d more distinct failures" % (len(new) - 8))
    inconclusive = []
    for k, v in getattr(mod, "MIN", {}).items():
        if counters[k] < v and not replay:
            inconclusive.append("monitor %s saw %d events, needs %d" % (k, counters[k], v))
    if errors:
        inconclusive.append("%d harness errors/timeouts" % len(errors))
        for e in errors[:3]:
            print("ERROR", e[-1500:])
    if timeouts > max(2, 0.03 * len(cases)):
        inconclusive.append("%d cases ran out of time, e.g. %s" % (timeouts, slowest[0][:200]))
    if done == 0:
        inconclusive.append("no case completed")
    unfinished = len(cases) - counters["cases"]
    wall = time.time() - t0
    slow.sort(reverse=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": done,
              "distinct_nontrivial": len(distinct),
              "rule": mod.RULE,
              "samples": samples or [cases[0] if cases else {}],
              "monitor_events": dict(sorted(counters.items())),
              "skipped_cases": dict(skips.most_common(10)),
              "cases_generated": len(cases),
              "cases_not_reached_in_budget": unfinished,
              "cases_out_of_time": timeouts,
              "finat_lines_executed": {f: "%d/%d" % v for f, v in sorted(linecov.report(REPO, lines).items()) if v[0]},
              "slowest_case_s": round(slow[0][0], 1) if slow else 0,
          },
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(wall, 2),
          "violations": len(new)}
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    print("%s %s seed=%d: %d cases (%d skipped, %d unfinished), %d distinct situations, %d assertions, %.1fs"
          % (prop, tier, seed, done, sum(skips.values()), unfinished, len(distinct), counters["assertions"], wall))
    if os.environ.get("RV_LINES"):
        with open(os.environ["RV_LINES"], "w") as fh:
            json.dump(sorted(lines), fh)
    if os.environ.get("RV_PROFILE"):
        for t, i in slow[:8]:
            print("  slow %.1fs %s" % (t, json.dumps(cases[i])[:200]))
        print("  skips", dict(skips))
    if new:
        return 1
    if inconclusive:
        print("INCONCLUSIVE", "; ".join(inconclusive))
        return 2
    return 0
