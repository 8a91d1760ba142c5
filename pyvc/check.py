"""Runs one property check: discharge the obligations, replay every witness on
the real code, run the bounded stand-in, write evidence, report."""
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = {"quick": 420.0, "thorough": 450.0}      # seconds for all obligations together
DEEP = {"quick": 90.0, "thorough": 200.0}
EARLY = 100.0       # obligations still open then: search for a failing input before going on
WORKERS = max(2, min(8, os.cpu_count() or 2))


def jdump(x):
    return json.dumps(x, ensure_ascii=True, sort_keys=False)


def ckey(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


# ------------------------------------------------------------------- workers
_mod = None


def _run_job(args):
    idx, = args
    name, thunk = _mod._jobs[idx][:2]
    from .contract import Obligation
    t = time.time()
    try:
        ob = thunk()
    except Exception as ex:         # an engine failure never counts as a verdict
        ob = Obligation(name)
        ob.fail("undecided", f"engine error: {type(ex).__name__}: {ex}"[:300])
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    ob.name = name
    if not ob.seconds:
        ob.seconds = time.time() - t
    ob.functions = {k: 1 for k in ob.functions}
    return idx, ob


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def safe_replay(mod, case, limit=20.0):
    """None, or what fails.  An error inside the harness is not a violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return mod.replay(case)
    except Hang:
        if getattr(mod, "TERMINATION", False):
            return f"does not terminate within {limit:.0f} s"
        raise RuntimeError("the case did not finish")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _work(args):
    """one search worker: its share of the fixed cases, then random cases"""
    k, n, budget, seed, tier, *deep = args
    mod = _mod
    known = load_known(mod.__name__.rsplit(".", 1)[-1].upper())
    t0 = time.time()
    out = {"n": 0, "distinct": set(), "fail": [], "samples": [], "errors": [], "fixed": 0, "skipped": 0}

    def one(case):
        out["n"] += 1
        try:
            r = safe_replay(mod, case)
        except Exception as ex:
            if len(out["errors"]) < 3:
                out["errors"].append(f"{type(ex).__name__}: {ex} on {jdump(case)[:300]}")
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
            return
        if r == SKIP:
            out["skipped"] += 1
            return
        if mod.nontrivial(case) if hasattr(mod, "nontrivial") else True:
            out["distinct"].add(ckey(case))
        if r is not None and len(out["fail"]) < 5 and not any(_matches(f, case, r) for f in known):
            out["fail"].append((case, r))
        if len(out["samples"]) < 2 and out["n"] % 37 == 1:
            s = jdump(case)
            out["samples"].append(case if len(s) < 1500 else s[:1500])

    if hasattr(mod, "fixed_cases") and not deep:
        for i, case in enumerate(mod.fixed_cases(tier)):
            if i % n == k:
                out["fixed"] += 1
                one(case)
            if out["fail"] and len(out["fail"]) >= 5:
                break
    if hasattr(mod, "random_cases") and not out["fail"]:
        left = max(budget - (time.time() - t0), budget * 0.35)
        t1 = time.time()
        for case in mod.random_cases(seed * 1000003 + k, tier):
            if time.time() - t1 > left or out["fail"]:
                break
            one(case)
    return out


SKIP = "(not applicable)"


# --------------------------------------------------------------------- shrink
def _smaller(x):
    """structurally smaller variants of a JSON value"""
    if isinstance(x, dict):
        for k in list(x):
            yield {a: b for a, b in x.items() if a != k}
        for k, v in x.items():
            for w in _smaller(v):
                yield {a: (w if a == k else b) for a, b in x.items()}
    elif isinstance(x, list):
        for i in range(len(x)):
            yield x[:i] + x[i + 1:]
        for i, v in enumerate(x):
            for w in _smaller(v):
                yield x[:i] + [w] + x[i + 1:]


def shrink(mod, case, budget=8.0):
    keys = [k for k in getattr(mod, "SHRINK", ("raw",)) if k in case]
    t0 = time.time()
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for k in keys:
            for w in _smaller(case[k]):
                if time.time() - t0 > budget:
                    break
                c = dict(case)
                c[k] = w
                try:
                    r = safe_replay(mod, c)
                except Exception:
                    continue
                if r is not None and r != SKIP:
                    case = c
                    progress = True
                    break
    return case


# ----------------------------------------------------------------------- main
class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()

    def run(self):
        global _mod
        from . import shape as sh
        sh.setup_path()
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        try:
            sh.load()
        except Exception as ex:
            return self.broken_import(ex)
        mod = _mod = importlib.import_module("props." + self.prop.lower())
        jobs = mod._jobs = list(mod.obligations(self.tier)) if hasattr(mod, "obligations") else []
        ctx = mp.get_context("fork")
        obs = [None] * len(jobs)
        budget = getattr(mod, "BUDGET", {}).get(self.tier, 12.0 if self.tier == "quick" else 180.0)

        def search():
            """bounded stand-in / cross-check on the real code"""
            if not (hasattr(mod, "fixed_cases") or hasattr(mod, "random_cases")):
                return []
            with ctx.Pool(WORKERS) as pool:
                run = pool.map_async(_work, [(k, WORKERS, budget, self.seed, self.tier) for k in range(WORKERS)], chunksize=1)
                return run.get(max(300.0, 2 * budget))
        res, why = None, "out of time"
        if jobs:
            from .charset import Alphabet
            Alphabet()._build()     # shared by the workers
            with ctx.Pool(WORKERS, maxtasksperchild=None) as pool:
                it = pool.imap_unordered(_run_job, [(i,) for i in range(len(jobs))], chunksize=1)
                try:
                    left = len(jobs)
                    while left:
                        end = EARLY if res is None else PROOF[self.tier]
                        try:
                            idx, ob = it.next(max(0.1, end - (time.time() - self.t0)))
                        except mp.TimeoutError:
                            if res is not None:
                                raise
                            res = search()
                            if any(r["fail"] for r in res):
                                why = "stopped: a failing input was found"
                                raise
                            continue
                        obs[idx] = ob
                        left -= 1
                except mp.TimeoutError:
                    pool.terminate()
            from .contract import Obligation
            for i, job in enumerate(jobs):
                if obs[i] is None:
                    obs[i] = Obligation(job[0])
                    obs[i].fail("undecided", why)
        # replay witnesses of refuted obligations
        fails = []          # (case, text, obligation)
        for (name, thunk, *conv), ob in zip(jobs, obs):
            if ob.status == "proved":
                continue
            for w in ob.witnesses:
                try:
                    cases = list(conv[0](w)) if conv and conv[0] else [w]
                except Exception as ex:
                    ob.detail.append(f"(witness not usable: {ex})")
                    continue
                hit = False
                for case in cases:
                    try:
                        r = safe_replay(mod, case)
                    except Exception as ex:
                        ob.detail.append(f"(witness replay error: {type(ex).__name__} {ex})"[:200])
                        continue
                    if r is not None and r != SKIP:
                        fails.append((case, r, ob))
                        hit = True
                        break
                if hit:
                    break
        if res is None:
            res = search()
        for r in res:
            for case, text in r["fail"]:
                fails.append((case, text, None))
        unproved = [ob.name for ob in obs if ob.status != "proved"]
        if unproved and not fails and hasattr(mod, "random_cases"):
            # an obligation is not discharged: look harder for an input that shows why
            mod.FOCUS = unproved
            with ctx.Pool(WORKERS) as pool:
                more = pool.map(_work, [(k, WORKERS, DEEP[self.tier], self.seed + 7919, self.tier, True)
                                        for k in range(WORKERS)], chunksize=1)
            for r in more:
                fails += [(case, text, None) for case, text in r["fail"]]
            res += more
        errors = [e for r in res for e in r["errors"]]
        viol = self.report(mod, fails, jobs, obs)
        # a refuted obligation whose counter-model could not be turned into a failing input
        nff = []
        if not viol:
            for ob in obs:
                if ob.status == "refuted" and not getattr(mod, "REPLAY_ONLY", False):
                    nff.append(ob)
        for ob in nff[:1]:
            path = self.replay_path(ob.name)
            with open(path, "w") as fh:
                json.dump({"property": self.prop, "failed_obligation": ob.name, "verifier": ob.detail,
                           "candidate_inputs": [w for w in ob.witnesses if _jsonable(w)],
                           "note": "the solver refutes this obligation; none of its counter-models nor the search "
                                   "gave an input that fails on the real code"}, fh, indent=1)
            print(f"obligation '{ob.name}' refuted: {'; '.join(ob.detail)[:400]}")
            print(f"VIOLATION property={self.prop} replay={path} no-failing-input-found")
            viol += 1
        self.evidence(mod, obs, res, viol, errors)
        counts = {s: sum(o.status == s for o in obs) for s in ("proved", "undecided", "refuted")}
        print(f"{self.prop}: {len(obs)} obligations ({counts['proved']} discharged, {counts['undecided']} undecided, "
              f"{counts['refuted']} refuted), {sum(r['n'] for r in res)} concrete cases, "
              f"{time.time() - self.t0:.1f} s, {viol} violation(s)")
        for ob in obs:
            if ob.status != "proved":
                print(f"  {ob.status}: {ob.name}: {'; '.join(map(str, ob.detail))[:300]}")
        for e in errors[:5]:
            print("  harness note:", e[:400])
        if not obs and not res:
            print("  nothing was checked")
            return 2
        return 1 if viol else 0

    def broken_import(self, ex):
        print(f"{self.prop}: /repo cannot be imported: {type(ex).__name__}: {ex}")
        return 2

    def replay_path(self, text):
        d = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, f"{self.prop}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json")

    def report(self, mod, fails, jobs, obs):
        known = load_known(self.prop)
        seen, n = set(), 0
        for f in known:
            print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        for case, text, ob in sorted(fails, key=lambda f: len(jdump(f[0])))[:6]:
            if any(_matches(f, case, text) for f in known):
                continue
            small = shrink(mod, case, 4.0)
            try:
                text2 = safe_replay(mod, small)
            except Exception:
                text2 = None
            if text2 is None or text2 == SKIP:
                small, text2 = case, text
            key = ckey(small)
            if key in seen:
                continue
            seen.add(key)
            if n >= 3:
                break
            path = self.replay_path(key)
            failed = [o.name for o in obs if o.status != "proved"] if ob is None else [ob.name]
            with open(path, "w") as fh:
                json.dump({"property": self.prop, "case": small, "what_fails": text2,
                           "failed_obligations": failed[:20],
                           "verifier": (ob.detail if ob else []),
                           "how_to_replay": f"cd /verif && python3-vt -B run.py replay {path}"}, fh, indent=1)
            print(f"{self.prop}: {text2[:600]}")
            if ob:
                print(f"  failed obligation: {ob.name}")
            print(f"VIOLATION property={self.prop} replay={path}")
            n += 1
        return n

    def evidence(self, mod, obs, res, viol, errors):
        level = getattr(mod, "LEVEL", "proof")
        fns = {}
        for o in obs:
            for k in o.functions:
                fns[k] = fns.get(k, 0) + 1
        distinct = set()
        samples = []
        for r in res:
            distinct |= r["distinct"]
            samples += r["samples"]
        cov = {
            "obligations": len(obs), "discharged": sum(o.status == "proved" for o in obs),
            "undecided": [o.record() for o in obs if o.status == "undecided"],
            "refuted": [o.record() for o in obs if o.status == "refuted"],
            "checker_cmd": f"cd /verif && python3-vt -W ignore -B run.py {self.prop} {self.tier}",
            "trusted_base": TRUSTED + list(getattr(mod, "TRUSTED", [])),
            "back_end": "pyvc (VC generator in /verif/pyvc) with z3 " + _z3() + " and the language solver pyvc/lang.py",
            "functions_under_contract": sorted(fns),
            "solver_queries": sum(o.queries for o in obs),
            "solver_seconds": round(sum(o.seconds for o in obs), 1),
            "paths": sum(o.paths for o in obs),
            "by_kind": {k: sum(o.kind == k for o in obs) for k in {o.kind for o in obs}},
            "obligation_list": [o.record() for o in obs][:400],
            "evaluations": sum(r["n"] for r in res),
            "distinct_nontrivial": len(distinct),
            "not_applicable_cases": sum(r["skipped"] for r in res),
            "rule": getattr(mod, "RULE", "differential replay of the real code against the executable contract"),
            "samples": samples[:6] or ["no concrete cases in this run"],
            "bounded_stand_in": getattr(mod, "BOUNDED", "the concrete cases only cross-check the proofs; "
                                        "they are not counted as proved"),
        }
        if errors:
            cov["harness_notes"] = errors[:10]
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
             "assumptions": ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
             "wall_s": round(time.time() - self.t0, 2), "violations": viol}
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(e, fh, indent=1, default=str)


def _z3():
    import z3
    return z3.get_version_string()


def _jsonable(x):
    try:
        json.dumps(x)
        return True
    except TypeError:
        return False


TRUSTED = [
    "pyvc: the symbolic executor's reading of the Python subset (cross-checked against CPython by the concrete cases)",
    "z3 and pyvc/lang.py (decision procedure for regular languages; cross-checked against the re module)",
    "pydantic-core: executes the core schema as documented (field types, defaults, aliases, validator order)",
]
ASSUMPTIONS = [
    "the class __pydantic_core_schema__ is the schema pydantic-core validates with",
    "strings are sequences of Unicode scalar values; integers are mathematical (as in Python)",
    "processors and application code outside the package follow their own contracts",
]


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == prop]


def _matches(f, case, text):
    return f.get("case") is not None and ckey(f["case"]) == ckey(case) or \
        bool(f.get("text")) and re.search(f["text"], text) is not None


def main(argv):
    if argv and argv[0] == "replay":
        from . import shape as sh
        sh.setup_path()
        sh.load()
        d = json.load(open(argv[1]))
        mod = importlib.import_module("props." + d["property"].lower())
        if "case" not in d:
            print("no failing input; failed obligation:", d.get("failed_obligation"))
            return 0
        r = mod.replay(d["case"])
        if r is None or r == SKIP:
            print("does not fail")
            return 0
        print("fails:", r)
        return 1
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return Check(prop, tier).run()
