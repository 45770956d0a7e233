#!/usr/bin/env python3
"""check.py <ID> [--replay FILE] [--shards N]

Parent of a check: runs the shards of the property-based search of one property in parallel, merges what they
covered into evidence/<ID>.json, and reports.  Exit 0: held on everything generated; 1: VIOLATION printed;
2: error of the check itself.
"""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
LEVEL = "exploration"


def child_env(hashseed, scratch):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(hashseed), OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", TERM="dumb", TMPDIR=scratch, VERIF_SCRATCH=scratch)
    env.pop("PYTHONPATH", None)
    return env


def known_findings(prop):
    """lines 'open: property=<id> sub=<sub> case=<sha1 of the case> <what fails>' of known-findings.txt"""
    res = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("open: property=%s " % prop):
                fields = dict(f.split("=", 1) for f in line.split()[1:4])
                res[(fields["sub"], fields["case"])] = line.split(None, 4)[4].strip()
    return res


def case_id(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--selftest" in sys.argv:
        return subprocess.call([PY, os.path.join(HERE, "lib", "selftest.py")], env=child_env(0, tempfile.gettempdir()))
    prop = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    nshards = 8
    evid = os.path.join(HERE, "evidence")
    rep_dir = os.path.join(evid, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    procs = []
    try:
        if "--replay" in sys.argv:
            path = sys.argv[sys.argv.index("--replay") + 1]
            case = json.load(open(path))
            p = subprocess.run([PY, os.path.join(HERE, "lib", "shard.py"), prop, "--replay", os.path.abspath(path)],
                               env=child_env(case.get("hashseed", 0), scratch), cwd=scratch)
            if p.returncode == 1:
                print("VIOLATION property=%s replay=%s" % (prop, path))
            return p.returncode
        t0 = time.time()
        for k in range(nshards):
            sdir = os.path.join(scratch, "s%d" % k)
            os.makedirs(sdir)
            out = os.path.join(scratch, "out%d.json" % k)
            log = open(os.path.join(scratch, "log%d" % k), "w")
            cmd = [PY, os.path.join(HERE, "lib", "shard.py"), prop, "--shard", str(k), "--nshards", str(nshards),
                   "--seed", str(seed), "--tier", tier, "--out", out]
            procs.append((subprocess.Popen(cmd, env=child_env(k, sdir), cwd=sdir, stdout=log, stderr=log,
                                           stdin=subprocess.DEVNULL, start_new_session=True), out, log.name))
        limit = 780 if tier == "quick" else 6 * 3600
        first_violation = None
        while True:
            alive = [p for p, _, _ in procs if p.poll() is None]
            if not alive:
                break
            if first_violation is None and any(p.returncode == 1 for p, _, _ in procs if p.poll() is not None):
                first_violation = time.time()
            if first_violation and time.time() - first_violation > 8 or time.time() - t0 > limit:
                for p in alive:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            time.sleep(0.05)
        merged = dict(evaluations=0, subs={}, samples=[], rules={})
        violations, errors = [], []
        seen = set()
        for k, (p, out, log) in enumerate(procs):
            if os.path.exists(out):
                res = json.load(open(out))
            else:
                if first_violation is None:
                    errors.append("shard %d gave no result (exit %s):\n%s" % (k, p.returncode, open(log).read()[-3000:]))
                continue
            if res.get("error"):
                errors.append("shard %d: %s" % (k, res["error"]))
            violations += res["violations"]
            for name, s in res["subs"].items():
                d = merged["subs"].setdefault(name, dict(cases=0, nontrivial_distinct=0, tags={}, budget_hit=0))
                d["cases"] += s["cases"]
                merged["evaluations"] += s["cases"]
                d["budget_hit"] += s["budget_hit"]
                for h in s["nontrivial"]:
                    if (name, h) not in seen:
                        seen.add((name, h))
                        d["nontrivial_distinct"] += 1
                for t, c in s["tags"].items():
                    d["tags"][t] = d["tags"].get(t, 0) + c
                if s["samples"] and sum(1 for x in merged["samples"] if x["sub"] == name) < 1:
                    merged["samples"].append(dict(sub=name, case=s["samples"][0]))
            merged["rules"].update(res["rules"])
            meta = res["meta"]
        known = known_findings(prop)
        kept = []
        for v in violations:
            key = (v["sub"], case_id(v["case"]))
            if key in known:
                print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
            else:
                kept.append(v)
        wall = time.time() - t0
        if merged["subs"]:
            samples = []
            for s in merged["samples"][:12]:
                txt = json.dumps(s)
                samples.append(s if len(txt) < 4000 else dict(sub=s["sub"], case_json_prefix=txt[:4000]))
            evidence = dict(
                property=prop, tier=tier, seed=seed, level=LEVEL,
                coverage=dict(evaluations=merged["evaluations"], distinct_nontrivial=len(seen),
                              rule="generated cases (and the saved ones of regress/), per sub-check: "
                                   + "; ".join("%s: %s" % kv for kv in sorted(merged["rules"].items())),
                              samples=samples, sub_checks=merged["subs"], shards=nshards, exhaustive=False),
                assumptions=meta.get("assumptions", []), wall_s=round(wall, 2), violations=len(kept))
            with open(os.path.join(evid, prop + ".json"), "w") as f:
                json.dump(evidence, f, indent=1)
        if kept:
            kept.sort(key=lambda v: (v.get("timeout", False), len(json.dumps(v["case"]))))
            v = kept[0]
            path = os.path.join(rep_dir, "%s_%s_%s.json" % (prop, v["sub"], case_id(v["case"])))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("sub-check %s: %s" % (v["sub"], v["message"][-2500:]))
            print("case: %s" % json.dumps(v["case"])[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if errors:
            print("\n".join(errors))
            return 2
        budget = sum(s["budget_hit"] for s in merged["subs"].values())
        print("%s: held on %d generated cases (%d distinct non-trivial), %.1f s%s"
              % (prop, merged["evaluations"], len(seen), wall,
                 ", time budget reached in %d searches" % budget if budget else ""))
        return 0
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
