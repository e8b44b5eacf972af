"""Driver of the bounded exhaustive checks.

A check (mc/checks/cNN.py) exposes shards(tier) -> [(function name, kwargs)], and the named functions
fn(rep, **kwargs).  Every shard enumerates a finite space completely, calling the real code of /repo, and reports to
`rep`.  Shards run in separate processes; the driver merges their counts, writes evidence/<id>.json and prints the
VIOLATION / KNOWN-FINDING lines.
"""
import collections
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "out", "replay")
MAX_VIOL_PER_SHARD = 5


class TooMany(Exception):
    """enough violations recorded in this shard"""


def _plain(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): _plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [_plain(v) for v in o]
    if isinstance(o, (str, bool, int, float)) or o is None:
        return o
    try:
        return _plain(np.asarray(o).tolist())
    except Exception:  # noqa
        return repr(o)


class Report:
    """collects what one shard covered"""

    def __init__(self, shard):
        self.shard = shard
        self.states = set()
        self.n_states = 0
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.known = []
        self.capped = None

    def state(self, key):
        """counts a distinct state / enumerated input"""
        h = hash(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def count_states(self, n=1):
        self.n_states += n

    def step(self, outcome=None, n=1):
        """counts one execution of the real code"""
        self.transitions += n
        if outcome is not None:
            self.outcomes[outcome] += n

    def trace(self, n=1):
        """counts one complete execution of the real code compared with the reference"""
        self.traces += n

    def skip(self, n=1):
        """counts an enumerated case left undecided (numerically on the boundary)"""
        self.skipped += n

    def sample(self, o, limit=3):
        if len(self.samples) < limit:
            self.samples.append(_plain(o))

    def violation(self, what, **detail):
        self.violations.append({"what": what, "detail": _plain(detail)})
        if len(self.violations) >= MAX_VIOL_PER_SHARD:
            raise TooMany()

    def known_finding(self, fid):
        self.known.append(fid)

    def check(self, cond, what, **detail):
        if not cond:
            self.violation(what, **detail)
        return bool(cond)

    def result(self):
        return dict(shard=self.shard, states=len(self.states) + self.n_states, transitions=self.transitions, traces=self.traces,
                    skipped=self.skipped, outcomes=dict(self.outcomes), samples=self.samples, violations=self.violations,
                    known=self.known, capped=self.capped)


QUICK_LIMIT = 780.  # seconds: many times what a quick check needs


def setup_paths():
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != "/repo"]
    sys.path.insert(0, "/repo")


def run_shard(arg):
    modname, fn, kwargs = arg
    setup_paths()
    t0 = time.time()
    shard = {"check": modname, "fn": fn, "kwargs": kwargs}
    rep = Report(shard)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod = importlib.import_module("mc.checks." + modname)
            getattr(mod, fn)(rep, **kwargs)
    except TooMany:
        pass
    except BaseException as e:  # noqa  pylint: disable=broad-except
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        # the code under test raised where the property demands a result
        rep.violations.append({"what": f"unexpected {type(e).__name__}: {str(e)[:500]}",
                               "detail": {"traceback": traceback.format_exc()[-4000:]}})
    r = rep.result()
    r["wall"] = round(time.time() - t0, 2)
    return r


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main(cid, tier=None, jobs=None, only=None, verbose=False):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = cid.lower()
    setup_paths()
    try:
        mod = importlib.import_module("mc.checks." + modname)
        shards = [(modname, f, k) for f, k in mod.shards(tier)]
    except Exception as e:  # noqa  the library cannot even be imported
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, f"{cid}-0.json")
        with open(path, "w") as f:
            json.dump({"what": f"{type(e).__name__}: {e}", "detail": traceback.format_exc()}, f)
        print(traceback.format_exc())
        print(f"VIOLATION property={cid} replay={path}")
        return 1
    if only is not None:
        shards = [s for i, s in enumerate(shards) if i in only]
    jobs = jobs or min(8, os.cpu_count() or 1, len(shards))
    if jobs <= 1:
        results = [run_shard(s) for s in shards]
    else:
        ctx = mp.get_context("spawn")
        with ctx.Pool(jobs, maxtasksperchild=None) as pool:
            pending = [pool.apply_async(run_shard, (s,)) for s in shards]
            results = []
            for s, p in zip(shards, pending):
                try:
                    results.append(p.get(None if tier == "thorough" else max(1., t0 + QUICK_LIMIT - time.time())))
                except mp.TimeoutError:
                    rep = Report({"check": s[0], "fn": s[1], "kwargs": s[2]})
                    rep.violations.append({"what": f"no result within {QUICK_LIMIT} s (a whole quick check takes about two minutes): the code under test does not return",
                                           "detail": {}})
                    results.append(dict(rep.result(), wall=QUICK_LIMIT))
            pool.terminate()
    violations = []
    for r in results:
        for v in r["violations"]:
            violations.append({"shard": r["shard"], **v})
    known_defs = [k for k in load_known() if k["property"] == cid and k["status"] == "known"]
    seen_known = set()
    for r in results:
        seen_known.update(r["known"])
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    outcomes = collections.Counter()
    for r in results:
        outcomes.update(r["outcomes"])
    samples = []
    for r in results:
        for s in r["samples"]:
            if len(samples) < 12:
                samples.append({"shard": r["shard"]["fn"], "case": s})
    caps = [r["capped"] for r in results if r["capped"]]
    ev = dict(property=cid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"),
              coverage=dict(states=sum(r["states"] for r in results), transitions=sum(r["transitions"] for r in results),
                            traces_validated_against_impl=sum(r["traces"] for r in results), samples=samples,
                            exhaustive=not caps and not violations, bounds=mod.BOUNDS, caps=caps,
                            undecided_boundary_cases=sum(r["skipped"] for r in results),
                            distinct_outcomes=len(outcomes), outcomes=dict(outcomes.most_common(40)),
                            shards=len(results), shard_wall_s=[(r["shard"]["fn"], r["wall"]) for r in results]),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(ROOT, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if verbose:
        for r in results:
            print(json.dumps({k: r[k] for k in ("shard", "states", "transitions", "traces", "skipped", "outcomes", "wall")}))
    print(f"{cid} tier={tier} shards={len(results)} states={ev['coverage']['states']} transitions={ev['coverage']['transitions']} "
          f"traces={ev['coverage']['traces_validated_against_impl']} undecided={ev['coverage']['undecided_boundary_cases']} "
          f"distinct_outcomes={len(outcomes)} wall={ev['wall_s']}s")
    for k in known_defs:
        if k["id"] in seen_known:
            print(f"KNOWN-FINDING: property={cid} {k['what']}")
    if violations:
        for n, v in enumerate(violations[:10]):
            path = os.path.join(OUT, f"{cid}-{n}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"  {v['what']}  [{v['shard']['fn']} {json.dumps(v['shard']['kwargs'])}]")
            print("   ", json.dumps(v["detail"])[:600])
        for n in range(min(len(violations), 10)):
            print(f"VIOLATION property={cid} replay={os.path.join(OUT, f'{cid}-{n}.json')}")
        return 1
    return 0


def replay(path):
    """re-executes the shard that produced a recorded violation and says whether it shows again"""
    v = json.load(open(path))
    r = run_shard((v["shard"]["check"], v["shard"]["fn"], v["shard"]["kwargs"]))
    again = [w for w in r["violations"] if w["what"] == v["what"] and w["detail"] == v["detail"]]
    print(json.dumps(v, indent=1))
    print("reproduced" if again else ("other violations: " + json.dumps(r["violations"], indent=1) if r["violations"] else "not reproduced"))
    return 1 if r["violations"] else 0
