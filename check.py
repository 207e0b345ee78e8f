#!/usr/bin/env python3
"""Builds LampPost from /repo's working tree together with one harness, runs the
model checker over the property's scenarios and writes evidence/<id>.json.

  check.py <PROPERTY> [quick|thorough]       decide one property
  check.py --replay FILE                     re-run a recorded counterexample
  check.py --build-all                       build every harness (setup)
  check.py --selftest                        explore programs with known outcomes
  check.py --list
"""
import concurrent.futures as cf
import hashlib, json, os, pathlib, re, shutil, subprocess, sys, time

VERIF = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("LP_REPO", "/repo"))
BUILD = pathlib.Path(os.environ.get("LP_BUILD", str(VERIF / "build")))
sys.path.insert(0, str(VERIF))
from props import PROPS, HARNESSES, SELFTEST  # noqa: E402

CXX = "g++"
COMMON = ["-std=c++14", "-g1", "-fno-omit-frame-pointer", "-include", "fstream", "-w",
          "-DZMQ_BUILD_DRAFT_API", "-D_GLIBCXX_ASSERTIONS", "-fPIC"]
MODES = {
    # instrumented for the controlled scheduler (engine/mc_runtime.cpp provides __tsan_*)
    "mc": ["-O1", "-fsanitize=thread"],
    # in-process exhaustive enumeration
    "seq": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
}
# the functions the engine defines a __wrap_ version of
WRAPPED = ["-Wl,--wrap=" + n for n in sorted(set(re.findall(r"\b__wrap_(\w+)\(", (VERIF / "engine" / "mc_runtime.cpp").read_text())))]
LINK = {
    "mc": WRAPPED + ["-rdynamic"],
    "seq": ["-fsanitize=address,undefined", "-rdynamic"],
}


def sh(cmd, **kw):
    return subprocess.run([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(str(p).encode()); h.update(b"\0")
        h.update(p.read_bytes()); h.update(b"\0")
    return h.hexdigest()


class BuildError(Exception):
    pass


def atomic_run(cmd, out):
    """Run cmd with its output placed at a temporary name, then rename."""
    tmp = out.with_name(out.name + ".tmp%d" % os.getpid())
    r = sh([c if c != "@OUT@" else tmp for c in cmd])
    if r.returncode != 0:
        if tmp.exists():
            tmp.unlink()
        raise BuildError("%s\n%s" % (" ".join(str(c) for c in cmd), r.stdout[-6000:]))
    os.replace(tmp, out)


def generated_headers():
    fbs = sorted((REPO / "schemas").glob("*.fbs"))
    key = tree_hash(fbs)[:24]
    gen = BUILD / ("gen-" + key)
    if not (gen / "ok").exists():
        d = gen / "lamppost" / "schemas"
        d.mkdir(parents=True, exist_ok=True)
        for f in fbs:
            r = sh(["flatc", "--cpp", "-o", d, f])
            if r.returncode != 0:
                raise BuildError("flatc failed: " + r.stdout)
        (gen / "ok").write_text("")
    return gen


def lib_sources(names):
    """Library sources, from the tree as it is now: new files are picked up."""
    src = REPO / "src" / "lamppost"
    files = [p for p in src.rglob("*.cpp") if "platformspecific" not in p.parts]
    return sorted(files)


def build_harness(name):
    h = HARNESSES[name]
    mode = h["mode"]
    BUILD.mkdir(parents=True, exist_ok=True)
    gen = generated_headers()
    headers = [p for d in ("include", "src") for p in (REPO / d).rglob("*.h") if "schemas" not in p.parts]
    hh = tree_hash(headers)
    mine = tree_hash([p for p in (VERIF / "harness").glob("*.h")] + list((VERIF / "engine").glob("*.h")))
    inc = ["-I%s" % gen, "-I%s" % (REPO / "include"), "-I%s" % (REPO / "src"), "-I/usr/include/json-c",
           "-I%s" % (VERIF / "engine"), "-I%s" % (VERIF / "harness")]
    flags = COMMON + MODES[mode] + inc
    jobs = []

    def obj(src, extra=(), dep=""):
        key = digest(src.read_bytes(), src, hh, dep, " ".join(flags), " ".join(extra), str(gen))
        out = BUILD / ("o-%s-%s.o" % (src.stem, key))
        if not out.exists():
            jobs.append((src, [CXX, *flags, *extra, "-c", src, "-o", "@OUT@"], out))
        return out

    objs = [obj(VERIF / "harness" / s, h.get("flags", ()), mine) for s in h["sources"]]
    objs += [obj(s) for s in lib_sources(h)]
    for s, extra in h.get("repo_sources", []):
        objs.append(obj(REPO / s, extra))
    libs = []
    libkey = ""
    if mode == "mc":
        eng = VERIF / "engine" / "mc_runtime.cpp"
        libkey = digest(eng.read_bytes(), (VERIF / "engine" / "mc.h").read_bytes())
        d = BUILD / ("eng-" + libkey)
        d.mkdir(exist_ok=True)
        so = d / "libmc.so"
        if not so.exists():
            jobs.append((eng, [CXX, "-std=c++17", "-O2", "-g1", "-w", "-fPIC", "-shared", "-fvisibility=hidden",
                               "-fvisibility-inlines-hidden", "-Wl,-Bsymbolic-functions", eng, "-o", "@OUT@",
                               "-ldl", "-lpthread"], so))
        libs = ["-L%s" % d, "-lmc", "-Wl,-rpath,%s" % d]
    # slow files first
    jobs.sort(key=lambda j: -(j[0].stat().st_size + (100000 if VERIF in j[0].parents else 0)))
    errors = []
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        futs = [ex.submit(atomic_run, cmd, out) for _, cmd, out in jobs]
        for f in futs:
            try:
                f.result()
            except BuildError as e:
                errors.append(str(e))
    if errors:
        raise BuildError("\n".join(errors[:2]))
    key = digest(*[o.name for o in objs], libkey, LINK[mode], h.get("link", ""))
    (BUILD / "bin").mkdir(exist_ok=True)
    exe = BUILD / "bin" / ("x-%s-%s" % (name, key))
    if not exe.exists():
        atomic_run([CXX, *objs, *LINK[mode], *libs, *h.get("link", []), "-lflatbuffers", "-ljson-c", "-ldl", "-lpthread",
                    "-o", "@OUT@"], exe)
    return exe


def known_keys(prop):
    out = {}
    f = VERIF / "known-findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" key=", 1)[1]
                key, _, desc = rest.partition(" :: ")
                out[key.strip()] = desc.strip()
    return out


def scratch_dir():
    base = BUILD / "scratch"
    base.mkdir(parents=True, exist_ok=True)
    return base


def write_replay(prop, harness, scenario, res, tier):
    d = BUILD / "replay"
    d.mkdir(parents=True, exist_ok=True)
    p = d / ("%s-%s.json" % (prop, digest(scenario, json.dumps(res.get("choices", [])))[:10]))
    p.write_text(json.dumps({"property": prop, "harness": harness, "scenario": scenario, "tier": tier,
                             "key": res.get("key"), "message": res.get("message"), "choices": res.get("choices")}, indent=1))
    return p


def run_prop(prop, tier):
    t0 = time.time()
    P = PROPS[prop]
    known = known_keys(prop)
    results = []
    rc = 0
    lines = []
    seen_known = {}
    build_s = 0.0
    for part in P["parts"]:
        hname = part["harness"]
        scenarios = part["scenarios"] + (part.get("thorough", []) if tier == "thorough" else [])
        tb = time.time()
        try:
            exe = build_harness(hname)
        except BuildError as e:
            print("BUILD FAILED for %s\n%s" % (hname, e))
            return 2
        build_s += time.time() - tb
        out = BUILD / ("out-%s-%s-%d.json" % (prop, hname, os.getpid()))
        cap = part.get("cap", {}).get(tier, 60 if tier == "quick" else 400)
        cmd = [exe, "--tier", tier, "--out", out, "--cap", str(cap), "--scenario", ",".join(scenarios)]
        for k in known:
            cmd += ["--known", k]
        env = dict(os.environ)
        env["LP_SCRATCH"] = str(scratch_dir())
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1"
        r = sh(cmd, env=env, cwd=str(scratch_dir()))
        try:
            res = json.loads(out.read_text())
        except Exception:
            print("check error: %s gave no result (exit %d)\n%s" % (exe, r.returncode, r.stdout[-3000:]))
            return 2
        finally:
            if out.exists():
                out.unlink()
        if not res or {s["scenario"] for s in res} != set(scenarios) and not any(s["status"] != "ok" for s in res):
            print("check error: scenarios missing from the result")
            return 2
        for s in res:
            s["harness"] = hname
            results.append(s)
            for k, m in s.get("known", {}).items():
                seen_known[k] = m
            if s["status"] == "violation":
                rp = write_replay(prop, hname, s["scenario"], s, tier)
                lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
                lines.append("  scenario %s: %s\n  %s" % (s["scenario"], s.get("key"), s.get("message")))
                rc = 1
            elif s["status"] == "error":
                lines.append("check error in scenario %s: %s" % (s["scenario"], s.get("message")))
                rc = rc or 2
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, known.get(k) or k))
    wall = time.time() - t0
    samples = []
    for s in results:
        samples.append({"scenario": s["scenario"], "what": s["what"],
                        "bound": s.get("bound"), "completed_bound": s.get("completed_bound"),
                        "exhausted": s.get("exhausted"), "capped": s.get("capped"),
                        "executions": s["executions"], "states": s["states"], "transitions": s["transitions"],
                        "wall_s": s.get("wall_s"), "max_choice_depth": s.get("max_choice_depth"),
                        "outcomes": dict(sorted(s.get("outcomes", {}).items(), key=lambda kv: -kv[1])[:12]),
                        "distinct_outcomes": len(s.get("outcomes", {}))})
    complete = all(not s.get("capped") and s["status"] == "ok" for s in results)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": sum(s["states"] for s in results),
            "transitions": sum(s["transitions"] for s in results),
            "traces_validated_against_impl": sum(s["executions"] for s in results),
            "samples": samples,
            "exhaustive": complete,
            "explanation": "Every execution is an execution of the code built from /repo (no separate model): "
                           "'states' counts distinct happens-before states at choice points (controlled scheduler) or distinct "
                           "reference-model states (sequential enumeration); 'transitions' counts synchronisation/observation "
                           "events or operations executed. Exhaustive means: everything within each scenario's bound.",
            "build_s": round(build_s, 2),
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": sum(1 for s in results if s["status"] == "violation"),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / (prop + ".json")).write_text(json.dumps(ev, indent=1) + "\n")
    for s in results:
        print("%s %-34s bound=%s completed=%s%s executions=%d states=%d transitions=%d outcomes=%d %.1fs %s" % (
            prop, s["scenario"], s.get("bound"), s.get("completed_bound"),
            " exhausted" if s.get("exhausted") else (" CAPPED" if s.get("capped") else ""), s["executions"], s["states"],
            s["transitions"], len(s.get("outcomes", {})), s.get("wall_s", 0), s["status"]))
    for l in lines:
        print(l)
    print("%s %s: %s (build %.1fs, total %.1fs)" % (prop, tier, {0: "held", 1: "VIOLATED", 2: "ERROR"}[rc], build_s, wall))
    return rc


def selftest():
    """Does the engine explore exactly the outcomes of programs for which they are known?"""
    exe = build_harness("engine")
    bad = 0
    for name, want in SELFTEST.items():
        out = BUILD / ("out-self-%d.json" % os.getpid())
        sh([exe, "--tier", "quick", "--out", out, "--cap", "60", "--scenario", name], cwd=str(scratch_dir()))
        r = json.loads(out.read_text())[0]
        out.unlink()
        got = set(r["outcomes"]) if r["status"] == "ok" else (r.get("key") or r["status"])
        ok = got == want if isinstance(want, set) else isinstance(got, str) and got.startswith(name + ": " + want)
        bad += not ok
        print("%-26s executions=%-5d %s %s" % (name, r["executions"], got if isinstance(got, str) else sorted(got), "as expected" if ok else "NOT AS EXPECTED: %s" % want))
    return 1 if bad else 0


def run_replay(path):
    d = json.loads(pathlib.Path(path).read_text())
    exe = build_harness(d["harness"])
    f = BUILD / ("replay-%d.txt" % os.getpid())
    f.write_text("\n".join("%d %d" % (a, b) for a, b in d["choices"]) + "\n")
    env = dict(os.environ)
    env["LP_SCRATCH"] = str(scratch_dir())
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_abort=0:detect_stack_use_after_return=1"
    r = subprocess.run([str(exe), "--scenario", d["scenario"], "--tier", d.get("tier", "quick"), "--replay", str(f)], env=env, cwd=str(scratch_dir()))
    f.unlink()
    return r.returncode


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--list":
        for p, d in PROPS.items():
            print(p, [(x["harness"], x["scenarios"]) for x in d["parts"]])
        return 0
    if a[0] == "--build-all":
        for h in HARNESSES:
            if HARNESSES[h].get("selftest"):
                continue
            t = time.time()
            build_harness(h)
            print("built %s in %.1fs" % (h, time.time() - t))
        return 0
    if a[0] == "--selftest":
        return selftest()
    if a[0] == "--build":
        print(build_harness(a[1]))
        return 0
    if a[0] == "--replay":
        return run_replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run_prop(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
