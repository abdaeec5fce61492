#!/usr/bin/env python3
"""run.py <property id>: builds the check of one property from /repo's working
tree, runs it with VERIF_SEED / VERIF_TIER, writes evidence/<id>.json.
Exit 0: held on everything explored; 1: violation; 2: the check itself failed."""
import array, glob, importlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build

# property -> (flavour, extra harness sources) of its harness binary
FLAVOUR = {"C15": "asan", "C27": "asan", "C28": "asan", "C33": "tsan"}
WALL = {"quick": 420, "thorough": 6 * 3600}


def known_findings(pid):
    """Entries of known_findings.json for pid: dicts with property, status
    ("known" or "fixed"), what, and for known ones a match on the failure."""
    p = os.path.join(VERIF, "known_findings.json")
    return [k for k in json.load(open(p)) if k["property"] == pid] if os.path.exists(p) else []


def matches(entry, kind, msg):
    m = entry.get("match", {})
    return entry["status"] == "known" and bool(m) and m.get("kind", kind) == kind and all(s in msg for s in m.get("contains", []))


class Result:
    """What one engine run covered."""
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.distinct = 0
        self.samples = []
        self.extra = {}
        self.violations = []        # (kind, msg, replay)
        self.rule = ""
        self.early = False
        self.labels = {}


def run_bin(pid, exe, tier, seed, res, cases=None, wall=None, jobs=None, tag=""):
    info = json.loads(subprocess.run([exe, "info"], capture_output=True, text=True, check=True).stdout)
    n = cases or (info["quick"] if tier == "quick" else info["thorough"])
    scale = float(os.environ.get("VP_SCALE", "1"))
    n = max(1, int(n * scale))
    out = os.path.join(VERIF, "build", "out", f"{pid}{tag}.{os.getpid()}")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    jobs = jobs or os.cpu_count() or 8
    p = subprocess.run([exe, "run", "--seed", str(seed), "--cases", str(n), "--jobs", str(jobs),
                        "--out", out, "--wall", str(wall or WALL[tier])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        s = json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        sys.stderr.write(p.stderr[-3000:])
        raise SystemExit(2)
    labels, discards, hashes, samples = {}, {}, set(), []
    for f in sorted(glob.glob(out + "/w*.json")):
        j = json.load(open(f))
        for k, v in j["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in j["discards"].items():
            discards[k] = discards.get(k, 0) + v
        samples += j["samples"]
    for f in glob.glob(out + "/w*.hash"):
        a = array.array("Q")
        data = open(f, "rb").read()
        a.frombytes(data)
        hashes.update(a)
    res.evaluations += s["done"]
    res.distinct += len(hashes)
    res.rule = info["rule"]
    samples = [x for x in samples if x.strip()]
    samples.sort(key=len)
    k = len(samples)
    if k:
        res.samples += [samples[i * (k - 1) // 5] for i in range(6)] if k > 6 else samples
    x = {"library_calls_checked": s["steps"], "operations": labels, "discarded": s["discards"],
         "discard_reasons": dict(sorted(discards.items(), key=lambda t: -t[1])[:10]),
         "max_case_ms": s["max_case_ms"], "set_aside_over_cpu_limit": s["hung"], "stopped_early": s["early"], "engine_wall_s": s["wall"]}
    res.early |= s["early"]
    for k, v in labels.items():
        res.labels[k] = res.labels.get(k, 0) + v
    if tag:
        res.extra[tag] = x
    else:
        res.extra.update(x)
    if s["fail_case"] >= 0:
        if s["fail_file"]:
            rep = os.path.join(VERIF, "replays")
            os.makedirs(rep, exist_ok=True)
            dst = os.path.join(rep, f"{pid}{tag}-seed{seed}-case{s['fail_case']}.json")
            shutil.copyfile(s["fail_file"], dst)
            res.violations.append((s["kind"], s["msg"], dst))
            print(f"{pid}: case {s['fail_case']} fails: {s['kind']}\n{s['msg'][:2000]}")
            print(f"replay with: {exe} replay {dst}")
        else:
            x["unconfirmed_failures"] = 1
            print(f"{pid}: case {s['fail_case']} failed once but not when rerun in isolation", file=sys.stderr)
    shutil.rmtree(out, ignore_errors=True)
    return s


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    res = Result()
    try:
        special = os.path.join(VERIF, "tools", f"check_{pid}.py")
        if os.path.exists(special):
            importlib.import_module(f"check_{pid}").main(pid, tier, seed, res, sys.modules[__name__])
        else:
            fl = FLAVOUR.get(pid, "fast")
            exe = build.build_bin(fl, f"p_{pid}.cc")
            run_bin(pid, exe, tier, seed, res)
    except build.BuildError as e:
        print(f"BUILD FAILED: {e}", file=sys.stderr)
        sys.exit(2)
    bad = []
    kf = known_findings(pid)
    # a check that recognises a listed finding by its exact circumstances
    # counts it under the label "known:<id>" instead of failing
    for e in kf:
        n = res.labels.get("known:" + e.get("id", "-"), 0)
        if "id" in e and e["status"] == "known":
            print(f"KNOWN-FINDING: property={pid} {e['what']} [met {n} times in this run]")
    for l in res.labels:
        if l.startswith("known:") and not any(e.get("id") == l[6:] and e["status"] == "known" for e in kf):
            res.violations.append((l, "finding not listed", os.path.join(VERIF, "known_findings.json")))
    for kind, msg, rep in res.violations:
        k = next((e for e in kf if matches(e, kind, msg)), None)
        if k:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        else:
            bad.append(rep)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": dict({"evaluations": res.evaluations, "distinct_nontrivial": res.distinct, "rule": res.rule,
                            "samples": [s[:3000] for s in res.samples[:8]]}, **res.extra),
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: {res.evaluations} cases, {res.distinct} distinct non-trivial, {ev['wall_s']} s, {len(bad)} violation(s)")
    for rep in bad:
        print(f"VIOLATION property={pid} replay={rep}")
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
