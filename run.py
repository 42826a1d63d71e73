#!/usr/bin/env python3
"""Build and run the model checking harnesses of /verif against /repo's working tree.

  run.py check PROPERTY quick|thorough
  run.py replay FILE          re-execute one recorded violation, verbosely
  run.py setup
"""
import sys, os, json, subprocess, hashlib, time, shutil, glob, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TEN = REPO + "/app/tenncor"
ROC = REPO + "/app/rocnnet"
BUILD = VERIF + "/build"
OUT = VERIF + "/out"
sys.path.insert(0, VERIF)
from props import PROPS, FLAVORS  # noqa: E402
from meta import M  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def tree(*dirs):
    r = []
    for d in dirs:
        for root, _, files in os.walk(d):
            r += [os.path.join(root, f) for f in files
                  if f.endswith((".hpp", ".cpp", ".ipp", ".h", ".proto", ".inc"))]
    return r


class BuildError(Exception):
    pass


def build(prop):
    cfg = PROPS[prop]
    fl = FLAVORS[cfg["flavor"]]
    repo_files = tree(TEN + "/include", TEN + "/src", TEN + "/proto", ROC + "/include", ROC + "/src")
    base = digest(repo_files, json.dumps(fl))
    bdir = "%s/%s-%s" % (BUILD, cfg["flavor"], base)
    os.makedirs(bdir + "/gen/proto", exist_ok=True)
    # remove stale builds of other trees so that the disk does not fill up
    for d in glob.glob(BUILD + "/*"):
        if d.split("/")[-1].startswith(cfg["flavor"] + "-") and d != bdir and time.time() - os.path.getmtime(d) > 1800:
            shutil.rmtree(d, ignore_errors=True)
    r = sh(["protoc", "-I" + TEN + "/proto/serial", "--cpp_out=" + bdir + "/gen/proto",
            TEN + "/proto/serial/tenncor.proto"])
    if r.returncode:
        raise BuildError(r.stdout)
    gen = []
    if fl.get("grpc_headers"):
        r = sh(["protoc", "-I" + TEN + "/proto/grpc", "--cpp_out=" + bdir + "/gen/proto", "--grpc_out=" + bdir + "/gen/proto",
                "--plugin=protoc-gen-grpc=" + (shutil.which("grpc_cpp_plugin") or "grpc_cpp_plugin"), TEN + "/proto/grpc/grpc_gui.proto"])
        if r.returncode:
            raise BuildError(r.stdout)
        gen = [bdir + "/gen/proto/grpc_gui.pb.cc", bdir + "/gen/proto/grpc_gui.grpc.pb.cc"]
    inc = ["-I" + bdir + "/gen", "-I" + VERIF + "/harness", "-I" + TEN + "/include", "-I" + ROC + "/include"]
    if fl.get("include_first"):
        inc = ["-I" + VERIF + "/" + fl["include_first"]] + inc
    srcs = [bdir + "/gen/proto/tenncor.pb.cc"] + gen
    srcs += sorted(f for f in tree(TEN + "/src") if f.endswith(".cpp")
                   and (fl.get("grpc_headers") or "/grpc_vis" not in f)
                   and any(f.startswith(TEN + "/src/" + w) for w in cfg.get("tenncor", [""])))
    want = cfg.get("rocnnet", [])
    srcs += sorted(f for f in tree(ROC + "/src") if f.endswith(".cpp") and any(f.startswith(ROC + "/src/" + w) for w in want))
    srcs += [VERIF + "/harness/mc.cpp"] + [VERIF + "/harness/" + h for h in cfg["harness"]]
    hh = digest(tree(VERIF + "/harness"))
    jobs, objs = [], []
    for s in srcs:
        mine = s.startswith(VERIF + "/harness")
        flags = list(fl["cxx"])
        if mine:
            flags = list(fl.get("harness_cxx", fl["cxx"])) + cfg.get("defs", [])
        if s.endswith(("mc.cpp", "sched.cpp")):
            flags = list(fl.get("mc_cxx", fl["cxx"]))
        if s.endswith(".pb.cc"):
            flags = ["-O1", "-g0", "-I" + bdir + "/gen/proto"]
        name = hashlib.sha256((s + json.dumps(flags) + (hh if mine else "")).encode()).hexdigest()[:10]
        o = "%s/%s.%s.o" % (bdir, os.path.basename(s), name)
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, flags))

    def comp(j):
        s, o, flags = j
        tmp = o + ".tmp%d" % os.getpid()
        r = sh([fl.get("compiler", "g++"), "-std=c++14", "-w"] + flags + inc + ["-c", s, "-o", tmp])
        if r.returncode == 0:
            os.rename(tmp, o)
        return (s, r.returncode, r.stdout)

    # big files first
    jobs.sort(key=lambda j: (not j[0].startswith(VERIF), j[0]))
    with ThreadPoolExecutor(8) as ex:
        for s, rc, o in ex.map(comp, jobs):
            if rc:
                raise BuildError("compiling %s:\n%s" % (s, o[-6000:]))
    exe = "%s/%s" % (bdir, prop)
    lk = hashlib.sha256(" ".join(objs).encode()).hexdigest()
    stamp = exe + ".stamp"
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == lk):
        r = sh([fl.get("compiler", "g++")] + fl["ld"] + objs + ["-o", exe, "-lprotobuf", "-lpthread"] + fl.get("libs", []))
        if r.returncode:
            raise BuildError("link: " + r.stdout[-6000:])
        open(stamp, "w").write(lk)
    return exe


def load_known():
    known = {}
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+)\s+(.*)", line.strip())
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return known


def check(prop, tier):
    t0 = time.time()
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    wd = "%s/%s" % (OUT, prop)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    try:
        exe = build(prop)
    except BuildError as e:
        # A tree that does not compile is not a tree this check can judge.
        print("BUILD-ERROR property=%s\n%s" % (prop, e))
        return 2
    tb = time.time() - t0
    budget = 600 if tier == "quick" else 7200
    cmd = [exe, "--tier", tier, "--out", wd + "/summary.json", "--dir", wd, "--budget", str(budget)] + sys.argv[4:]
    r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    sys.stdout.write(r.stderr)
    if r.returncode or not os.path.exists(wd + "/summary.json"):
        print("MACHINERY-ERROR property=%s: explorer exited with %d" % (prop, r.returncode))
        return 2
    summ = json.load(open(wd + "/summary.json"))
    viols = [json.loads(l) for l in open(wd + "/violations.jsonl")]
    machinery = [v for v in viols if v["kind"] == "machinery"]
    known = load_known().get(prop, {})
    seen_known, new = {}, {}
    for v in viols:
        if v["kind"] == "machinery":
            continue
        k = v["key"]
        if k in known:
            seen_known.setdefault(k, v)
        else:
            new.setdefault((v["scenario"], k), []).append(v)
    for k, v in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[k], k))
    vout = []
    n = 0
    for (scen, k), vs in sorted(new.items()):
        v = min(vs, key=lambda x: len(x["path"]))
        n += 1
        rp = "%s/replay_%d.json" % (wd, n)
        json.dump({"property": prop, "scenario": scen, "key": k, "path": v["path"], "kind": v["kind"],
                   "message": v["message"], "trace": v["trace"]}, open(rp, "w"), indent=1)
        vout.append({"replay": rp, "scenario": scen, "key": k, "message": v["message"][:600], "trace": v["trace"][:1500]})
        print("  %s [%s] %s\n     trace: %s" % (scen, k, v["message"][:500], v["trace"][:700]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    sc = summ["scenarios"]
    ex = sum(s["executions"] for s in sc)
    tr = sum(s["transitions"] for s in sc)
    st = summ["states"]
    complete = all(s["complete"] for s in sc)
    samples = [{"scenario": s["name"], "trace": x} for s in sc for x in s["samples"][:2]][:12]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "states": st, "transitions": tr, "traces_validated_against_impl": ex,
            "samples": samples,
            "rule": "states: distinct hashes of the reference model's state (or of the enumerated input) reached; "
                    "transitions: operations applied; traces_validated_against_impl: complete executions of the real code "
                    "compared step by step with the model",
            "exhaustive": complete,
            "scenarios": [{k: s[k] for k in ("name", "executions", "transitions", "checks", "states", "max_choices", "crashes", "complete", "wall_s")} for s in sc],
            "bounds": M[prop][tier],
        },
        "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2),
        "violations": len(vout), "violation_details": vout, "known_findings_seen": sorted(seen_known),
        "assumptions": M[prop]["assumptions"],
    }
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    if machinery and not new:
        print("MACHINERY-ERROR property=%s: %s" % (prop, machinery[0]["message"]))
        return 2
    print("%s %s: %s, %d executions, %d states, %.1fs (build %.1fs)" %
          (prop, tier, "VIOLATED" if new else "held on everything explored", ex, st, time.time() - t0, tb))
    return 1 if new else 0


def replay(path):
    v = json.load(open(path))
    exe = build(v["property"])
    wd = OUT + "/replay"
    os.makedirs(wd, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="symbolize=1", UBSAN_OPTIONS="print_stacktrace=1")
    r = subprocess.run([exe, "--dir", wd, "--replay", v["scenario"], v["path"]], env=env)
    return r.returncode


def manifest():
    checks = []
    with open(VERIF + "/properties.jsonl", "w") as f:
        for pid in sorted(M):
            m = M[pid]
            f.write(json.dumps({
                "id": pid, "title": m["title"], "statement": m["statement"],
                "quantifier": {"over": m["over"], "text": m["quant"]}, "why_tests_cant": m["why"],
                "anchors": {"files": m["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in m["mech"]],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in m["state"]],
                            "observe_at": m["observe"], "hook_needed": m["hook"]}}) + "\n")
            if pid in PROPS:
                checks.append({"property": pid, "quick_cmd": "python3 run.py check %s quick" % pid,
                               "thorough_cmd": "python3 run.py check %s thorough" % pid,
                               "evidence_file": "evidence/%s.json" % pid, "technique": m["technique"],
                               "level": PROPS[pid]["level"],
                               "level_note": m["note"] + " Quick bounds: " + m["quick"] + "."})
    na = [{"property": p, "reason": m["not_applicable"]} for p, m in sorted(M.items()) if p not in PROPS]
    hooks = {"guard": "STRASSEN_THRESHOLD", "enable": "the harness of P08 is compiled with -DSTRASSEN_THRESHOLD=2",
             "source_commits": ["b3d3d3bf24f9ff0437a22bb4a28949455ef21349"]}
    json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "hooks": hooks, "checks": checks, "not_applicable": na},
              open(VERIF + "/MANIFEST.json", "w"), indent=1)


if __name__ == "__main__":
    if sys.argv[1:] == ["manifest"]:
        manifest()
        sys.exit(0)
    a = sys.argv[1:]
    if a[:1] == ["check"] and len(a) >= 3:
        sys.exit(check(a[1], a[2]))
    if a[:1] == ["replay"] and len(a) == 2:
        sys.exit(replay(a[1]))
    if a[:1] == ["setup"]:
        for t in ("g++", "protoc"):
            if not shutil.which(t):
                print("missing tool", t)
                sys.exit(1)
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(OUT, exist_ok=True)
        sys.exit(0)
    print(__doc__)
    sys.exit(2)
