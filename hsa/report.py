"""Running a check: obligations, findings, evidence and exit status."""

import json
import multiprocessing
import os
import pathlib
import resource
import signal
import sys
import time
import traceback

from .project import AnalysisBroken

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("HSA_REPO", "/repo"))
DEADLINE = float(os.environ.get("HSA_DEADLINE", "600"))
JOBS = max(1, min(8, os.cpu_count() or 1))


class TimeUp(Exception):
    pass


def _alarm(signum, frame):
    raise TimeUp()


class Record(dict):
    """One obligation: status ('ok', 'violation', 'undecided'), rule, instance, text."""


def ok(rule, instance, text=""):
    return Record(status="ok", rule=rule, instance=str(instance), text=str(text))


def undecided(rule, instance, text=""):
    return Record(status="undecided", rule=rule, instance=str(instance), text=str(text))


def violation(rule, instance, text, where=None):
    """where: file:line of the construct; instance names the construct without lines."""
    return Record(status="violation", rule=rule, instance=str(instance), text=str(text), where=where)


class Ctx:
    """What a check receives: the analysed program and the collector of obligations."""

    def __init__(self, prop, tier, seed):
        from .drive import Driver
        from .project import Project

        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.project = Project(REPO, spec_dir=pathlib.Path(__file__).parent / "spec")
        self.D = Driver(self.project)
        self.records = []
        self.floors = {}
        self.notes = []

    # ---------------------------------------------------------------- collecting

    def add(self, *records):
        for r in records:
            if isinstance(r, (list, tuple)) and not isinstance(r, dict):
                self.add(*r)
            elif r is not None:
                self.records.append(r)

    def floor(self, rule, n):
        """The rule is expected to have n instances: one that matches nothing is broken, fewer are reported."""
        self.floors[rule] = n

    def positive(self, rule, fired):
        """A rule whose expected count is zero has to fire on its own example."""
        if not fired:
            raise AnalysisBroken(f"rule {rule} does not fire on its positive example")
        self.notes.append(f"{rule}: positive example fired")

    def pmap(self, fn, items, rule=None, limit=60):
        """Apply fn to every item in forked workers; fn returns a record or a list of them."""
        items = list(items)
        self.add(*_pmap(fn, items, rule or fn.__name__, limit))
        return self


_JOB = {"deadline": time.time() + DEADLINE}


def _init():
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, _alarm)
    limit = 7 << 29  # 3.5 GB for each of eight workers
    try:
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    except (ValueError, OSError):
        pass


def _one(k):
    fn, items, rule, limit = _JOB["fn"], _JOB["items"], _JOB["rule"], _JOB["limit"]
    item = items[k]
    name = _name(item)
    left = _JOB["deadline"] - time.time()
    if left < 2:
        return [undecided(rule, name, "no time left")]
    signal.alarm(int(min(limit, left)))
    try:
        out = fn(item)
    except TimeUp:
        out = [undecided(rule, name, f"no answer in {limit} s")]
    except AnalysisBroken as e:
        # a helper the analysis starts from has another name now: nothing is known about this case
        out = [undecided(rule, name, f"not found: {e}")]
    except (MemoryError, RecursionError) as e:
        out = [undecided(rule, name, type(e).__name__)]
    except Exception:
        out = [undecided(rule, name, "analyser: " + traceback.format_exc(limit=-3))]
    finally:
        signal.alarm(0)
    return out


def _name(item):
    if isinstance(item, (list, tuple)) and item:
        return " / ".join(_name(x) for x in item)
    return str(item)


def _flat(x):
    if x is None:
        return
    if isinstance(x, dict):
        yield x
        return
    for y in x:
        yield from _flat(y)


def _pmap(fn, items, rule, limit):
    if not items:
        return []
    _JOB.update(fn=fn, items=items, rule=rule, limit=limit)
    n = min(JOBS, len(items))
    out = []
    if n == 1:
        results = [_one(k) for k in range(len(items))]
    else:
        ctx = multiprocessing.get_context("fork")
        sys.stdout.flush()
        with ctx.Pool(n, initializer=_init) as pool:
            waiting = [pool.apply_async(_one, (k,)) for k in range(len(items))]
            results = []
            for k, w in enumerate(waiting):
                try:
                    results.append(w.get(max(1, _JOB["deadline"] + 20 - time.time())))
                except multiprocessing.TimeoutError:
                    # the worker was ended (out of memory) or cannot be interrupted
                    results.append([undecided(rule, _name(items[k]), "no answer")])
    for r in results:
        for x in _flat(r):
            out.append(x)
    return out


# --------------------------------------------------------------------------- findings


def known_findings(prop):
    """(rule, instance) pairs recorded as genuine and not repaired."""
    path = ROOT / "known_findings.txt"
    out = {}
    if not path.exists():
        return out
    for line in path.read_text().splitlines():
        if not line.startswith("known: "):
            continue
        head, _, what = line[len("known: "):].partition(" -- ")
        fields = dict(f.partition("=")[::2] for f in head.split(" | "))
        if fields.get("property") == prop:
            out[(fields["rule"], fields["instance"])] = what
    return out


def run(prop, module, tier="quick", seed=1):
    evdir = ROOT / "evidence"
    evdir.mkdir(exist_ok=True)
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    module.check(ctx)
    known = known_findings(prop)
    counts = {}
    bad, noted = {}, {}
    for r in ctx.records:
        c = counts.setdefault(r["rule"], {"instances": 0, "ok": 0, "violation": 0, "undecided": 0})
        c["instances"] += 1
        c[r["status"]] += 1
        if r["status"] == "violation":
            key = (r["rule"], r["instance"])
            if key in known:
                noted.setdefault(key, r)
            else:
                bad.setdefault(key, []).append(r)
    for rule, n in ctx.floors.items():
        have = counts.get(rule, {"instances": 0})["instances"]
        if have == 0:
            raise AnalysisBroken(f"rule {rule} matches nothing, {n} instances expected")
        if have < n:
            ctx.notes.append(f"rule {rule}: {have} instances, {n} on the tree it was written for")
    print(f"{prop}: {ctx.project.n_lines} lines, {len(ctx.project.modules)} modules, tier {tier}")
    for rule, c in sorted(counts.items()):
        print(f"  {rule}: {c['instances']} instances, {c['ok']} hold, {c['violation']} violated, "
              f"{c['undecided']} undecided")
    for n in ctx.notes:
        print("  " + n)
    for r in ctx.records:
        if r["status"] == "undecided" and tier == "thorough":
            print(f"  undecided {r['rule']}: {r['instance']}: {r['text'][:200]}")
    for key, r in noted.items():
        print(f"KNOWN-FINDING: property={prop} {key[0]}: {key[1]}: {known[key] or r['text']}")
    for old in evdir.glob(f"{prop}-violation-*.json"):
        old.unlink()
    paths = []
    for k, (key, rs) in enumerate(sorted(bad.items())):
        path = evdir / f"{prop}-violation-{k}.json"
        path.write_text(json.dumps({"property": prop, "rule": key[0], "construct": key[1],
                                    "reports": [dict(r) for r in rs[:20]]}, indent=1, default=str))
        paths.append(path)
        print(f"{rs[0].get('where') or ''} {key[0]}: {key[1]}: {rs[0]['text']}".strip()[:1500])
    wall = time.time() - t0
    total = sum(c["instances"] for c in counts.values())
    decided = sum(c["ok"] + c["violation"] for c in counts.values())
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": (module.__doc__ or "").strip() + " Obligations are instances of the rules; "
            "an undecided obligation is one the analysis could not interpret, and raises nothing.",
            "source_lines": ctx.project.n_lines,
            "source_functions": sum(1 for _ in ctx.project.functions()),
            "obligations": total,
            "discharged": decided,
            "rules": counts,
            "undecided": [f"{r['rule']}: {r['instance']}: {r['text'][:160]}" for r in ctx.records
                          if r["status"] == "undecided"][:60],
            "notes": ctx.notes,
            "samples": [f"{r['rule']}: {r['instance']}" for r in ctx.records[:: max(1, len(ctx.records) // 12)]][:14],
            "known_findings": [f"{a}: {b}" for a, b in noted],
        },
        "assumptions": getattr(module, "ASSUMES", []),
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    (evdir / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str))
    for path in paths:
        print(f"VIOLATION property={prop} replay={path}")
    return 1 if bad else 0
