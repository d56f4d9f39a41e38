"""Drives the tests of one property: parallel search, shrinking, replay files, evidence."""
import hashlib, importlib, json, multiprocessing, os, queue, random, signal, sys, time, traceback

from . import build, engine, run
from .engine import Data, Failure, Reject, attempt

VERIF = build.VERIF


class Test:
    """One executable check of a property. Subclasses set `name` and implement generate/check."""
    name = None
    flavor = "plain"
    fast_link = True
    weight = 1
    min_cases = 0
    rule = ""

    def __init__(self, box):
        self.box = box

    def generate(self, data):
        raise NotImplementedError

    def check(self, case):
        raise NotImplementedError

    def nontrivial(self, case):
        """A key when the case counts as non trivial (distinct keys are counted), else None."""
        return self.describe(case)

    def describe(self, case):
        return str(case)


def seed_for(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def worker(modname, top, index, nworkers, seed, deadline, limits, out, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(3000)
    mod = importlib.import_module(modname)
    boxes = {}
    tests = []
    stats = {}
    try:
        for cls in mod.TESTS:
            key = (cls.flavor, cls.fast_link)
            if key not in boxes:
                boxes[key] = run.Box(top, *key)
            t = cls(boxes[key])
            tests.append(t)
            stats[t.name] = {"evaluations": 0, "rejected": 0, "keys": set(), "samples": [], "labels": {}, "ms": 0.0}
        order = []
        for t in tests:
            order += [t] * t.weight
        n = 0
        done = {t.name: 0 for t in tests}
        while not stop.is_set():
            if time.time() > deadline:
                break
            t = order[n % len(order)]
            n += 1
            i = done[t.name]
            done[t.name] += 1
            limit = limits.get(t.name)
            if limit is not None and i * nworkers + index >= limit:
                if all(limits.get(x.name) is not None and done[x.name] * nworkers + index >= limits[x.name] for x in tests):
                    break
                continue
            rng = random.Random(seed_for(seed, t.name, index, i))
            data = Data(rng=rng)
            st = stats[t.name]
            t0 = time.time()
            status, case, fail = attempt(t, data)
            st["ms"] += time.time() - t0
            if status == "reject":
                st["rejected"] += 1
                continue
            st["evaluations"] += 1
            for k, v in data.labels.items():
                st["labels"][k] = st["labels"].get(k, 0) + v
            key = t.nontrivial(case)
            if key is not None:
                h = hashlib.sha256(key.encode("utf-8", "surrogatepass")).digest()[:8]
                if h not in st["keys"]:
                    st["keys"].add(h)
                    if len(st["samples"]) < 2:
                        st["samples"].append(t.describe(case)[:1500])
            if status == "fail" and attempt(t, Data(choices=list(data.choices)))[0] != "fail":
                # once only: not what the program or the compiler does, so go on
                out.put(("flaky", t.name, fail.kind, fail.message, t.describe(case)))
            elif status == "fail":
                out.put(("fail", t.name, data.choices, fail.kind, fail.message, t.describe(case)))
                if not getattr(t, "keep_going", False):
                    break
    except Exception:
        out.put(("error", traceback.format_exc()))
    finally:
        for b in boxes.values():
            try:
                b.close()
            except Exception:
                pass
        out.put(("stats", stats))


def find_test(mod, name):
    for cls in mod.TESTS:
        if cls.name == name:
            return cls
    raise SystemExit("no such test: " + name)


class FakeTest:
    pass


def replay(mod, top, path):
    with open(path) as f:
        r = json.load(f)
    cls = find_test(mod, r["test"])
    box = run.Box(top, cls.flavor, cls.fast_link)
    try:
        t = cls(box)
        status, case, fail = attempt(t, Data(choices=r["choices"]))
        if case is not None:
            print(t.describe(case))
        print("replay: %s%s" % (status, ": %s" % fail if fail else ""))
        if status == "fail":
            print("VIOLATION property=%s replay=%s" % (mod.ID, path))
            return 1
        return 0
    finally:
        box.close()


def known_findings():
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    out.append(json.loads(line))
    return out


def main(prop, tier=None, seed=None, replay_path=None, budget=None, workers=None):
    t_start = time.time()
    modname = "checks." + prop.lower()
    mod = importlib.import_module(modname)
    seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    flavors = sorted({c.flavor for c in mod.TESTS} | {"plain"})
    try:
        top = build.prepare(flavors)
    except build.BuildError as e:
        # a tree that does not build says nothing about the property
        print("cannot build the compiler:\n%s" % e, file=sys.stderr)
        return 2
    if replay_path:
        return replay(mod, top, replay_path)
    nworkers = workers or min(8, os.cpu_count() or 1)
    budget = budget or (mod.BUDGET if tier == "quick" else getattr(mod, "THOROUGH", 900))
    limits = {} if tier == "thorough" else {c.name: getattr(c, "quick_cases", None) for c in mod.TESTS}
    limits = {k: v for k, v in limits.items() if v is not None}

    for line in probe_findings(mod, top, prop):
        print(line, flush=True)

    ctx = multiprocessing.get_context("fork")
    out = ctx.Queue()
    stop = ctx.Event()
    deadline = time.time() + budget
    procs = [ctx.Process(target=worker, args=(modname, top, i, nworkers, seed if tier == "quick" else ("thorough", seed), deadline, limits, out, stop))
             for i in range(nworkers)]
    for p in procs:
        p.start()
    fails, stats, errors, unstable = [], [], [], []
    waiting = nworkers
    while waiting:
        try:
            m = out.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in procs):
                break
            if time.time() > deadline + 120:
                break
            continue
        if m[0] == "fail":
            fails.append(m[1:])
            stop.set()
        elif m[0] == "flaky":
            unstable.append(m[1:])
        elif m[0] == "error":
            errors.append(m[1])
        else:
            stats.append(m[1])
            waiting -= 1
    for p in procs:
        p.join(2)
        if p.is_alive():
            p.kill()
    if errors:
        print(errors[0], file=sys.stderr)
        print("internal error in the check", file=sys.stderr)
    code = 0
    violations = []
    for f in fails:
        v = confirm(mod, top, f, prop, tier)
        if v is None:
            unstable.append((f[0], f[2], f[3], f[4]))
            continue
        violations.append(v)
        break
    flaky = len(unstable)
    if flaky:
        print("note: %d failure(s) did not reproduce and were ignored, such as: %s" % (flaky, " ".join(str(x) for x in unstable[0])[:1500]), file=sys.stderr)
    write_evidence(mod, prop, tier, seed, stats, violations, time.time() - t_start, flaky)
    for v in violations:
        print("%s\n--- %s" % (v["message"], v["case"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]), flush=True)
        code = 1
    if not code and errors:
        return 3
    return code


def probe_findings(mod, top, prop):
    """Known findings are specific inputs: run each one and report those that still fail."""
    out = []
    entries = [e for e in known_findings() if e["property"] == prop and e.get("status") == "known"]
    if not entries:
        return out
    box = run.Box(top, "plain", True)
    try:
        for e in entries:
            try:
                if mod.probe(box, e):
                    out.append("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
            except Exception as x:
                out.append("note: probe of known finding failed: %r" % x)
    finally:
        box.close()
    return out


def confirm(mod, top, f, prop, tier):
    """Reproduce, shrink, reproduce again, and write the replay file."""
    name, choices, kind, message, desc = f
    cls = find_test(mod, name)
    box = run.Box(top, cls.flavor, cls.fast_link)
    try:
        t = cls(box)
        for _ in range(2):
            status, case, fail = attempt(t, Data(choices=list(choices)))
            if status != "fail":
                return None
        best, case, fail = engine.shrink(t, choices, fail, time.time() + (20 if tier == "quick" else 120))
        status, case2, fail2 = attempt(t, Data(choices=list(best)))
        if status == "fail":
            case, fail = case2, fail2
        else:
            best = choices
            status, case, fail = attempt(t, Data(choices=list(best)))
            if status != "fail":
                return None
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, hashlib.sha256(repr(best).encode()).hexdigest()[:10]))
        with open(path, "w") as out:
            json.dump({"property": prop, "test": name, "choices": best, "kind": fail.kind, "message": fail.message,
                       "case": t.describe(case)}, out, indent=1)
        return {"test": name, "message": str(fail), "case": t.describe(case), "replay": path, "kind": fail.kind}
    finally:
        box.close()


def write_evidence(mod, prop, tier, seed, stats, violations, wall, flaky):
    total = {"evaluations": 0, "rejected": 0}
    keys = set()
    samples = []
    per = {}
    for st in stats:
        for name, s in st.items():
            p = per.setdefault(name, {"evaluations": 0, "rejected": 0, "keys": set(), "labels": {}})
            p["evaluations"] += s["evaluations"]
            p["rejected"] += s["rejected"]
            p["keys"] |= s["keys"]
            for k, v in s["labels"].items():
                p["labels"][k] = p["labels"].get(k, 0) + v
            total["evaluations"] += s["evaluations"]
            total["rejected"] += s["rejected"]
            keys |= {name.encode() + k for k in s["keys"]}
    order = [s for st in stats for name in st for s in st[name]["samples"][:1]]
    samples = order[:6] or ["(none)"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["evaluations"], "distinct_nontrivial": len(keys), "rule": mod.RULE, "samples": samples,
            "rejected": total["rejected"],
            "tests": {n: {"evaluations": p["evaluations"], "rejected": p["rejected"], "distinct_nontrivial": len(p["keys"]),
                          "labels": dict(sorted(p["labels"].items()))} for n, p in per.items()},
            "unreproduced": flaky,
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall, 1),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
