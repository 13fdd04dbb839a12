"""Orchestrator: ``python -m mc.run <PROPERTY> [--replay FILE]``.

One worker process per (backend, shard) explores the bounded space of the
property; the orchestrator merges what the workers measured, writes
``evidence/<PROPERTY>.json``, prints violations and known findings, and exits

    0   the property held on everything explored
    1   ``VIOLATION property=<id> replay=<path>`` was printed
    2   the check itself failed (no verdict)
"""

import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
REPO = os.environ.get("VERIF_REPO", "/repo")
FINDINGS = os.path.join(HERE, "known_findings.json")
MAX_REPORTED = 5


def worker_env(backend, scratch):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=os.pathsep.join([HERE, REPO]),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        HOME=scratch,
        TMPDIR=scratch,
        GPMP_LOG_LEVEL="WARNING",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
    )
    env.pop("GPMP_DTYPE", None)
    if backend:
        env["GPMP_BACKEND"] = backend
    else:
        env.pop("GPMP_BACKEND", None)
    return env


def load_findings(prop):
    if not os.path.exists(FINDINGS):
        return []
    with open(FINDINGS) as f:
        data = json.load(f)
    return [e for e in data.get("known", []) if e["property"] == prop]


def matches(finding, v):
    """A finding names exact case keys (and, optionally, one message prefix)."""
    if v["backend"] not in finding.get("backends", [v["backend"]]):
        return False
    if v["key"] not in finding["keys"]:
        return False
    pre = finding.get("message_prefix")
    return pre is None or v["message"].startswith(pre)


def main(argv):
    prop = argv[0]
    replay = None
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()

    sys.path.insert(0, HERE)
    # The plan of a check is data only; it does not import gpmp.
    plan = json.loads(
        subprocess.run(
            [PY, "-c", "import json,sys; from mc.plans import plan; "
             "print(json.dumps(plan(sys.argv[1], sys.argv[2])))", prop, tier],
            cwd=HERE, capture_output=True, text=True, check=True,
        ).stdout
    )
    scratch = tempfile.mkdtemp(prefix="verif-mc-")
    jobs = []
    only = None
    try:
        if replay:
            with open(replay) as f:
                only = json.load(f)
            todo = [(only["backend"], 0, 1)]
        else:
            todo = [
                (b, i, plan["shards"])
                for b in plan["backends"]
                for i in range(plan["shards"])
            ]
        pending = list(todo)
        running = []
        limit = int(os.environ.get("VERIF_JOBS", str(max(1, min(8, os.cpu_count() or 1)))))
        deadline = t0 + plan["timeout"]
        results = []
        errors = []
        while pending or running:
            while pending and len(running) < limit:
                b, i, n = pending.pop(0)
                out = os.path.join(scratch, f"{b}-{i}.json")
                wdir = os.path.join(scratch, f"w-{b}-{i}")
                os.makedirs(wdir, exist_ok=True)
                spec = {
                    "property": prop, "backend": b, "shard": i, "shards": n,
                    "tier": tier, "seed": seed, "out": out, "scratch": wdir,
                    "only": only["key"] if only else None,
                    "case_timeout": plan["case_timeout"],
                }
                log = open(os.path.join(scratch, f"{b}-{i}.log"), "w")
                p = subprocess.Popen(
                    [PY, "-m", "mc.worker", json.dumps(spec)],
                    cwd=wdir, env=worker_env(None if b == "none" else b, wdir),
                    stdout=log, stderr=subprocess.STDOUT,
                )
                running.append((p, b, i, out, log.name))
            time.sleep(0.05)
            for item in list(running):
                p, b, i, out, logname = item
                rc = p.poll()
                if rc is None:
                    if time.time() > deadline:
                        p.kill()
                        p.wait()
                        errors.append(f"worker {b}/{i} exceeded the time limit")
                        running.remove(item)
                    continue
                running.remove(item)
                if rc != 0 or not os.path.exists(out):
                    with open(logname) as f:
                        tail = f.read()[-3000:]
                    errors.append(f"worker {b}/{i} ended with {rc}:\n{tail}")
                else:
                    with open(out) as f:
                        results.append(json.load(f))
        return finish(prop, plan, tier, seed, t0, results, errors, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def finish(prop, plan, tier, seed, t0, results, errors, replay):
    violations = [v for r in results for v in r["violations"]]
    errors = errors + [e for r in results for e in r["errors"]]
    known = []
    unknown = []
    findings = load_findings(prop)
    for v in violations:
        hit = next((f for f in findings if matches(f, v)), None)
        (known if hit else unknown).append((v, hit))

    counts = {}
    for r in results:
        for k, n in r["counts"].items():
            counts[k] = counts.get(k, 0) + n
    samples = []
    for r in results:
        samples.extend(r["samples"][:3])
    distinct = set()
    for r in results:
        distinct.update(r["distinct"])

    level = plan["level"]
    coverage = {"samples": samples[:8], "exhaustive": not errors and replay is None}
    if level == "model_checking":
        coverage.update(
            states=len(distinct),
            transitions=counts.get("transitions", 0),
            traces_validated_against_impl=counts.get("cases", 0),
            rule=plan["rule"],
        )
    else:
        coverage.update(
            evaluations=counts.get("cases", 0),
            distinct_nontrivial=len(distinct),
            rule=plan["rule"],
        )
    coverage["comparisons"] = counts.get("comparisons", 0)
    for k, n in sorted(counts.items()):
        if k.startswith("n_"):
            coverage[k] = n
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": plan["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(unknown),
    }
    edir = os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    if replay is None:
        with open(os.path.join(edir, f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)

    seen = set()
    for v, hit in known:
        if hit["what"] not in seen:
            seen.add(hit["what"])
            print(f"KNOWN-FINDING: property={prop} {hit['what']}")

    if unknown:
        rdir = os.path.join(edir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for j, (v, _) in enumerate(unknown[:MAX_REPORTED]):
            path = replay
            if path is None:
                path = os.path.join(rdir, f"{prop}-{j}.json")
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  [{v['backend']}] {v['key']}: {v['message'][:240]}")
        if len(unknown) > MAX_REPORTED:
            print(f"  ... and {len(unknown) - MAX_REPORTED} more")
        return 1
    if errors:
        for e in errors[:10]:
            print("CHECK-ERROR", e)
        return 2
    print(
        f"{prop}: held on {counts.get('cases', 0)} cases, {len(distinct)} distinct states, "
        f"{counts.get('comparisons', 0)} comparisons ({evidence['wall_s']} s)"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
