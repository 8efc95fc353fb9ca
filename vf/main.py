import importlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup_paths():
    # Code under test from the working tree, Hypothesis (not part of the
    # repository's environment) from the tooling environment
    sys.path.insert(0, "/repo/src")
    tools = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    sys.path.append(tools)


def main():
    argv = sys.argv[1:]
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    setup_paths()
    t0 = time.monotonic()
    from vf import core
    try:
        import hypothesis, numpy
    except Exception as e:
        print("harness error:", e)
        return 2
    def report(violation):
        os.makedirs(f"{ROOT}/replays", exist_ok=True)
        key = core.dumps(violation["cases"])
        name = f"{prop}-{violation['test']}-{core.hashlib.sha1(key.encode()).hexdigest()[:10]}.json"
        path = f"{ROOT}/replays/{name}"
        with open(path, "w") as f:
            json.dump(dict(property=prop, **violation), f, indent=1)
        print(f"{prop} {violation['test']}: {violation['message']}")
        if len(violation["cases"]) == 1:
            print("case:", core.dumps(violation["cases"][0])[:3000])
        print(f"VIOLATION property={prop} replay={path}")
        sys.stdout.flush()
        return 1

    try:
        import barotropic
    except Exception as e:
        # The package under test cannot even be imported
        tb = e.__traceback__
        return report(dict(test="import", message=f"import barotropic: {type(e).__name__}: {e}", cases=[]))
    if not barotropic.__file__.startswith("/repo/src/"):
        print("harness error: wrong barotropic", barotropic.__file__)
        return 2
    # Do not hide failed fp operations differently between runs
    suite = importlib.import_module(f"vf.props.{prop.lower()}").SUITE

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rep = json.load(f)
        test = suite.by_name(rep["test"])
        for case in rep["cases"]:
            msg = core.run_case(test, case)[0]
            if msg is not None:
                print(f"{prop} {rep['test']}: {msg}")
                print(f"VIOLATION property={prop} replay={argv[argv.index('--replay') + 1]}")
                return 1
        print("replay does not fail")
        return 0

    total = dict(evaluations=0, nontrivial=0)
    only = None
    if "--only" in argv:
        only = argv[argv.index("--only") + 1].split(",")
    scale = float(argv[argv.index("--scale") + 1]) if "--scale" in argv else 1.

    # 1. Regression cases: earlier failures, one process each
    regress = []
    path = f"{ROOT}/corpus/{prop}.json"
    if os.path.exists(path):
        with open(path) as f:
            regress = json.load(f)
    for entry in regress:
        if only and entry["test"] not in only:
            continue
        test = suite.by_name(entry["test"])
        for case in entry["cases"]:
            case = json.loads(core.dumps(case))
            msg = core.run_case(test, case)[0]
            if msg is not None:
                code = report(dict(test=entry["test"], message=msg, cases=[case]))
                write_evidence(suite, tier, seed, t0, [], [], len(regress), 1)
                return code

    # 2. Generated cases
    jobs = int(os.environ.get("VERIF_JOBS", "0") or 0) or min(8, os.cpu_count() or 1)
    tasks = []
    for test in suite.tests:
        if only and test.name not in only:
            continue
        n = max(1, int(test.count(tier) * scale))
        shards = test.nshards(tier)
        for k in range(shards):
            cnt = n // shards + (1 if k < n % shards else 0)
            if cnt:
                tasks.append((test, core.seed_for(seed, prop, test.name, k), cnt))
    order = sorted(range(len(tasks)), key=lambda i: (i % 7, i)) if tier == "thorough" else range(len(tasks))
    tasks = [tasks[i] for i in order]
    results = core.run_parallel(tasks, jobs, core.TASK_SECONDS[tier])
    violation = next((r["violation"] for r in results if r and r["violation"]), None)
    errors = [r["error"] for r in results if r and r["error"]]
    write_evidence(suite, tier, seed, t0, tasks, results, len(regress), int(violation is not None))
    if "--margins" in argv:
        m = {}
        for r in results:
            for k, v in (r or {}).get("margins", {}).items():
                m[k] = max(v, m.get(k, 0))
        for k, v in sorted(m.items(), key=lambda kv: -kv[1]):
            print(f"  margin {v:8.4f}  {k}")
    if "--labels" in argv:
        m = {}
        for (t, _, _), r in zip(tasks, results):
            if r is None:
                continue
            d = m.setdefault(t.name, {"_evals": 0, "_nontrivial": 0})
            d["_evals"] += r["evaluations"]
            d["_nontrivial"] += len(r["distinct"])
            for k, v in r["labels"].items():
                d[k] = d.get(k, 0) + v
        for k, v in m.items():
            print(" ", k, v)
    if violation is not None:
        return report(violation)
    if errors:
        print("harness error:")
        print(errors[0])
        return 2
    for line in known_findings(prop):
        print(line)
    print(f"{prop} held on {sum(r['evaluations'] for r in results)} generated cases "
          f"({time.monotonic() - t0:.1f} s, {tier}, seed {seed})")
    return 0


def known_findings(prop):
    """Unrepaired defects, one per line: 'open: property=<id> <what fails>'."""
    path = f"{ROOT}/KNOWN_FINDINGS.txt"
    if not os.path.exists(path):
        return []
    out = []
    with open(path) as f:
        for line in f:
            if line.startswith(f"open: property={prop} "):
                out.append("KNOWN-FINDING: " + line[len("open: "):].strip())
    return out


def write_evidence(suite, tier, seed, t0, tasks, results, nregress, violations):
    tests = {}
    distinct = 0
    for (test, _, _), r in zip(tasks, results):
        d = tests.setdefault(test.name, dict(evaluations=0, distinct=set(), labels={}, samples=[], rule=test.rule))
        if r is None:
            continue
        d["evaluations"] += r["evaluations"]
        d["distinct"] |= r["distinct"]
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        d["samples"] += r["samples"]
    samples = []
    for name, d in tests.items():
        for s in d["samples"][:2]:
            samples.append(dict(test=name, case=json.loads(s) if len(s) < 4000 else s[:4000]))
    out = dict(
        property=suite.prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(d["evaluations"] for d in tests.values()),
            distinct_nontrivial=sum(len(d["distinct"]) for d in tests.values()),
            rule="Cases are drawn by Hypothesis from each test's strategy (seeded by VERIF_SEED); a case is "
                 "counted as non-trivial once per distinct case description unless the test marks it trivial "
                 "(the conclusion holds for lack of content). Per test: "
                 + " | ".join(f"{n}: {' '.join(d['rule'].split())}" for n, d in tests.items()),
            samples=samples,
            regression_cases=nregress,
            per_test={n: dict(evaluations=d["evaluations"], distinct_nontrivial=len(d["distinct"]),
                              labels=dict(sorted(d["labels"].items()))) for n, d in tests.items()},
        ),
        assumptions=[
            "Hypothesis, NumPy, SciPy and pyspharm's spherical harmonic transforms are trusted as tools",
            "single-precision tolerances as stated in DESIGN.md",
        ],
        wall_s=round(time.monotonic() - t0, 3),
        violations=violations,
    )
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    with open(f"{ROOT}/evidence/{suite.prop}.json", "w") as f:
        json.dump(out, f, indent=1)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
