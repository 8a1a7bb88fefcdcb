#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] : build the property's harnesses from /repo's working tree, search,
write evidence/<PROPERTY>.json, print KNOWN-FINDING / VIOLATION lines; exit 0, or 1 with a VIOLATION line.
run.py <PROPERTY> --replay FILE : rebuild and replay one saved failure."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from spec import CHECKS

REPO = os.environ.get("HEU_REPO", "/repo")
BASE = ["-std=c++17", "-g1", "-I" + REPO, "-isystem", "/usr/include/eigen3", "-I" + os.path.join(HERE, "lib"),
        "-w", "-fopenmp", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:"
                    "allocator_may_return_null=0:max_allocation_size_mb=2048:malloc_context_size=8:"
                    "max_malloc_fill_size=1048576:malloc_fill_byte=190",
    "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=99",
    "MALLOC_PERTURB_": "173",
    "OMP_NUM_THREADS": "4", "OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false",
})


def known_findings():
    """lines:  known: property=<id> test=<t> key=<k> -- text      |  fixed: property=<id> <commit> text"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            if ln.startswith("known:"):
                head, _, text = ln[len("known:"):].partition("--")
                d = dict(w.split("=", 1) for w in head.split())
                d["text"] = text.strip()
                out.append(d)
    return out


def build(bld, outdir):
    exe = os.path.join(outdir, bld["name"])
    cmd = [bld.get("cxx", "g++")] + BASE + bld.get("opt", ["-O1"]) + (SAN if bld.get("san", True) else []) + \
        bld.get("flags", []) + [os.path.join(HERE, "harness", bld["src"]), "-o", exe]
    if bld.get("cxx", "g++") != "g++":
        cmd = [c for c in cmd if c != "-fopenmp"] + bld.get("omp", [])
    p = subprocess.run(cmd, capture_output=True, text=True)
    return exe, p


def rejected(err):
    """a diagnosis of the source, not a compiler that was killed or is broken"""
    low = err.lower()
    return "error:" in low and not any(w in low for w in ("killed", "internal compiler error", "out of memory",
                                                          "cannot allocate", "no space left", "fatal error:"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--only")
    ap.add_argument("--keep")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = CHECKS[a.prop]
    builds = [b for b in spec["builds"] if a.tier == "thorough" or not b.get("thorough_only")]
    if a.replay:
        want = [l.split()[1] for l in open(a.replay) if l.startswith("variant ")][0]
        builds = [b for b in spec["builds"] if b.get("variant", "-") == want or (want == "-" and not b.get("variant"))]
    if a.only:
        builds = [b for b in builds if a.only in (b["name"], b.get("variant"))]
    tmp = a.keep or tempfile.mkdtemp(prefix="heu-%s-" % a.prop)
    os.makedirs(tmp, exist_ok=True)
    try:
        with ThreadPoolExecutor(8) as ex:
            built = list(ex.map(lambda b: build(b, tmp), builds))
        tb = time.time() - t0
        bad = [(b, p) for b, (e, p) in zip(builds, built) if p.returncode]
        if bad:  # once more, one at a time: a build can also fail for lack of memory
            bad = [(b, build(b, tmp)[1]) for b, _ in bad]
            bad = [(b, p) for b, p in bad if p.returncode]
        if bad:
            for b, p in bad:
                sys.stderr.write("BUILD FAILED %s\n%s\n" % (b["name"], p.stderr[:6000]))
            if not a.replay and all(rejected(p.stderr) for _, p in bad):
                # the public interface the harness instantiates is no longer accepted by the compiler
                replays = os.path.join(HERE, "replays")
                os.makedirs(replays, exist_ok=True)
                os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
                path = os.path.join(replays, "%s-build.replay" % a.prop)
                with open(path, "w") as f:
                    for b, p in bad:
                        f.write("variant %s\nbuild of harness/%s fails:\n%s\n" % (b.get("variant", "-"), b["src"], p.stderr[:20000]))
                with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
                    json.dump({"property": a.prop, "tier": a.tier, "seed": seed, "level": "exploration",
                               "coverage": {"evaluations": len(builds), "distinct_nontrivial": len(bad),
                                            "rule": "No case ran: instantiations of the public interface were rejected by the compiler.",
                                            "samples": [{"test": b["name"], "case": p.stderr[:600]} for b, p in bad]},
                               "assumptions": spec.get("assumptions", []),
                               "wall_s": round(time.time() - t0, 2), "violations": len(bad)}, f, indent=1)
                print("  build [rejected] instantiations of the public interface no longer compile: %s" % ", ".join(b["name"] for b, _ in bad))
                print("VIOLATION property=%s replay=%s" % (a.prop, path))
                return 1
            print("ERROR: harness %s does not build against this tree" % ", ".join(b["name"] for b, _ in bad))
            return 2
        if a.replay:
            rc = 0
            for e, _ in built:
                r = subprocess.run([e, "--replay", a.replay], env=ENV)
                rc = max(rc, r.returncode)
            return rc
        replays = os.path.join(HERE, "replays")
        os.makedirs(replays, exist_ok=True)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        total_budget = 520.0 if a.tier == "quick" else float(spec.get("thorough_budget", 1800))
        known = [k for k in known_findings() if k["property"] == a.prop]
        results, errors = [], []
        for i, (b, (exe, _)) in enumerate(zip(builds, built)):
            budget = max(20.0, (total_budget - (time.time() - t0)) / (len(builds) - i))
            out = os.path.join(tmp, b["name"] + ".json")
            cmd = [exe, "--seed", str(seed), "--tier", a.tier, "--prop", a.prop, "--variant", b.get("variant", ""),
                   "--out", out, "--replay-dir", replays, "--budget", "%.0f" % budget, "--scale", a.scale]
            for k in known:
                cmd += ["--known", k["test"] + "|" + k["key"]]
            env = dict(ENV)
            env.update(b.get("env", {}))
            r = subprocess.run(cmd, env=env)
            if not os.path.exists(out):
                errors.append("%s produced no result (status %d)" % (b["name"], r.returncode))
                continue
            results.append(json.load(open(out)))
        if errors:
            print("ERROR: " + "; ".join(errors))
            return 2
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)

    ev = dn = 0
    tests, samples, rules, viols, seen, flaky, excluded = [], [], [], [], {}, [], 0
    for r in results:
        for t in r["tests"]:
            ev += t["evaluations"]
            dn += t["distinct_nontrivial"]
            excluded += t["known"]
            name = t["test"] + ("@" + r["variant"] if r["variant"] else "")
            tests.append({k: t[k] for k in ("planned", "evaluations", "nontrivial", "distinct_nontrivial", "truncated",
                                            "wall_s", "slowest_case_cpu_s", "labels", "known")} | {"test": name})
            samples += [{"test": name, "case": s} for s in t["samples"][:2]]
            if t["rule"] not in rules:
                rules.append(t["rule"])
        viols += r["violations"]
        flaky += r["flaky"]
        for k in r["known"]:
            seen[(k["test"], k["key"])] = k["msg"]
    evidence = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": dn,
            "rule": "Cases are generated choice sequences (seeded by VERIF_SEED); distinct = distinct sequence. Per test: " + " | ".join(rules),
            "samples": samples[:24], "tests": tests, "cases_excluded_as_known_findings": excluded,
            "unreproducible_failures": flaky, "build_s": round(tb, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for k in known:
        if (k["test"], k["key"]) in seen:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["text"]))
    for fl in flaky:
        print("note: not reproducible, not reported: " + fl[:300])
    for t in tests:
        if t["truncated"]:
            print("note: %s stopped by its time budget after %d/%d cases" % (t["test"], t["evaluations"], t["planned"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s (build %.1f s)" %
          (a.prop, a.tier, seed, ev, dn, len(viols), time.time() - t0, tb))
    for v in viols:
        print("  %s [%s] %s" % (v["test"], v["key"], v["msg"][:600]))
        print("  case: %s" % v["case"][:800])
        print("VIOLATION property=%s replay=%s" % (a.prop, v["file"]))
    return 1 if viols else 0


sys.exit(main())
