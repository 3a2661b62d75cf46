#!/usr/bin/env python3
"""Driver of the model-checking framework.

  run.py check C01 [quick|thorough]   explore the property on /repo's current tree
  run.py replay FILE                  re-run the case recorded in a replay file
  run.py setup                        sanity check of the tool chain

Each check is mc/<id>.cpp.  It is built, in a scratch directory, against both
distributed forms of the library (variant "lib": src/*.cpp + include/, variant
"single": single_include/), split into shards and run exhaustively.
Exit 0: property held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the check itself could not run.
"""
import array, concurrent.futures as cf, glob, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
MC = os.path.join(HERE, "mc")
sys.path.insert(0, MC)
from checks import CHECKS  # noqa: E402

NPROC = os.cpu_count() or 8
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0:detect_stack_use_after_return=0:quarantine_size_mb=64:malloc_context_size=6",
           "UBSAN_OPTIONS": "halt_on_error=1:exitcode=66:print_stacktrace=1"}


class CheckError(Exception):
    pass


def build(prop, variant, out):
    """Compile one variant; returns the path of the binary."""
    spec = CHECKS[prop]
    os.makedirs(out, exist_ok=True)
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"] if spec.get("asan") else []
    opt = spec.get("opt", "-O1")
    base = ["g++", opt, "-w", "-D_GLIBCXX_ASSERTIONS"] + san
    inc = os.path.join(REPO, "include" if variant == "lib" else "single_include")
    jobs = []
    srcs = [os.path.join(MC, s) for s in [prop + ".cpp"] + spec.get("extra_src", [])]
    objs = []
    for s in srcs:
        o = os.path.join(out, "h_" + os.path.basename(s) + ".o")
        objs.append(o)
        extra = [] if os.path.basename(s) in spec.get("plain_src", []) else spec.get("cflags", [])
        jobs.append(base + extra + ["-std=c++17", "-I" + inc, "-I" + MC, '-DMC_VARIANT="%s"' % variant,
                            "-DMC_VARIANT_" + variant.upper(), '-DMC_PROP="%s"' % prop, "-c", s, "-o", o])
    if variant == "lib":
        for s in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))):
            o = os.path.join(out, "l_" + os.path.basename(s) + ".o")
            objs.append(o)
            jobs.append(base + spec.get("cflags", []) + ["-std=c++11", "-I" + inc, "-I" + os.path.join(REPO, "src"), "-c", s, "-o", o])
    # further builds of the library ("worlds"), each in a namespace of its own;
    # one that does not compile is left out, and the evidence says so
    for name, cc, std, flags in spec.get("worlds", []):
        d = os.path.join(out, "world_" + name)
        os.makedirs(d, exist_ok=True)
        wsrc = [os.path.join(MC, spec["world_src"])]
        if variant == "lib":
            wsrc += sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
        for s in wsrc:
            o = os.path.join(d, os.path.basename(s) + ".o")
            objs.append(o)
            jobs.append([cc, "-std=" + std, "-w", "-Dblet=blet_" + name, "-DWORLD=" + name] + flags +
                        ["-I" + inc, "-I" + os.path.join(REPO, "src"), "-I" + MC, "-c", s, "-o", o])
    exe = os.path.join(out, "check")
    return jobs, base + ["-o", exe] + objs + spec.get("libs", []), exe


def compile_all(todo):
    """todo: list of (jobs, link, exe)."""
    def one(cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            d = os.path.dirname(cmd[-1])
            if os.path.basename(d).startswith("world_"):
                missing.add(d)
                return
            raise CheckError("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    missing = set()
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, [j for jobs, _, _ in todo for j in jobs]))
        list(ex.map(one, [[x for x in l if os.path.dirname(x) not in missing] for _, l, _ in todo]))
    for d in sorted(missing):
        print("not built:", os.path.basename(d))
    return missing


def spawn(exe, out, args, asan, mem):
    env = dict(os.environ, LC_ALL="C.UTF-8")
    if asan:
        env.update(SAN_ENV)
    scratch = out + ".d"
    os.makedirs(scratch, exist_ok=True)
    cmd = [exe, "--out", out, "--status", out + ".status", "--scratch", scratch] + args
    if not asan:
        cmd += ["--mem", str(mem)]
    so, se = open(out + ".stdout", "wb"), open(out + ".stderr", "wb")
    return subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=so, stderr=se, env=env, cwd=scratch)


def outcome(p, out):
    """-> (kind, info) with kind ok | fail | crash."""
    st = open(out + ".status", "rb").read() if os.path.exists(out + ".status") else b""
    cur = int.from_bytes(st[0:8], "little") if len(st) >= 16 else None
    done = len(st) >= 16 and int.from_bytes(st[8:16], "little") == 1
    if done and p.returncode in (0, 10):
        with open(out + ".json") as f:
            d = json.load(f)
        return ("fail" if d["failed"] else "ok"), d
    err = open(out + ".stderr", "rb").read().decode("utf8", "replace")
    if p.returncode == 97:
        why = "no progress: the call does not terminate"
    elif p.returncode is not None and p.returncode < 0:
        why = "killed by signal %d (%s)" % (-p.returncode, signal.Signals(-p.returncode).name)
    elif p.returncode == 66:
        why = "memory error or undefined behaviour reported by the sanitizer"
    else:
        why = "process ended with status %s in the middle of the exploration" % p.returncode
    return "crash", {"case": cur, "why": why, "stderr": err[-3000:], "rc": p.returncode}


def run_one(exe, out, args, asan, mem, limit):
    p = spawn(exe, out, args, asan, mem)
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return "crash", {"case": None, "why": "no end within %d s" % limit, "stderr": "", "rc": "timeout"}
    return outcome(p, out)


def known_for(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return [k for k in json.load(f) if k.get("status") == "known" and k["property"] == prop]


def write_replay(prop, n, variant, tier, args, text, repro):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (prop, variant, n))
    with open(path, "w") as f:
        json.dump({"property": prop, "variant": variant, "tier": tier, "args": args, "reproduced": repro,
                   "report": text, "rerun": "python3 run.py replay " + path}, f, indent=1)
    return path


def confirm(prop, variant, exe, tmp, base_args, shard_args, kind, info, asan, mem):
    """Replay a failure before reporting it.  -> (args, text, how) or None."""
    case = info["fail_case"] if kind == "fail" else info["case"]
    if case is None or case >= 1 << 63:
        case = None
    text0 = info["fail_text"] if kind == "fail" else info["why"] + "\n" + info["stderr"]
    if case is not None:
        args = base_args + ["--case", str(case), "--ticks", "40"]
        k, i = run_one(exe, os.path.join(tmp, "replay-%s" % variant), args, asan, mem, 200)
        if k == "fail":
            return args, i["fail_text"], "the single case, replayed alone"
        if k == "crash" and (i["rc"] != "timeout" or kind == "crash"):
            return args, "case %s: %s\n%s" % (case, i["why"], i["stderr"]), "the single case, replayed alone"
    # depends on the cases before it (state shared between objects): replay the shard
    args = base_args + shard_args + ["--ticks", "40"]
    k, i = run_one(exe, os.path.join(tmp, "replay2-%s" % variant), args, asan, mem, 600)
    if k == "fail" and (kind != "fail" or i["fail_case"] == case):
        return args, i["fail_text"] + "(only after the cases before it in the same process)", "the shard, replayed from its start"
    if k == "crash" and kind == "crash" and i["case"] == info["case"]:
        return args, "case %s: %s\n%s" % (case, i["why"], i["stderr"]), "the shard, replayed from its start"
    sys.stderr.write("not reproduced (%s): %s\n" % (kind, text0))
    return None


def header_only_unusable(prop, todo, tmp):
    """What the compiler says when the library form builds and the header-only form of the same program does not."""
    if "lib" not in todo or "single" not in todo:
        return None
    try:
        compile_all([todo["lib"]])
    except CheckError:
        return None
    try:
        compile_all([todo["single"]])
    except CheckError as e:
        return str(e).replace(tmp, "")[:3000]
    return None


def write_evidence(prop, tier, seed, spec, cov, t0, violations):
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def check(prop, tier):
    t0 = time.time()
    spec = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    asan = bool(spec.get("asan"))
    mem = spec.get("mem", 3000)
    variants = spec.get("variants", ["lib", "single"])
    known = known_for(prop)
    tmp = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    try:
        todo = {v: build(prop, v, os.path.join(tmp, v)) for v in variants}
        if spec.get("custom_build"):
            import importlib
            importlib.import_module(spec["custom_build"]).prepare(REPO, tmp, MC, compile_all)
        try:
            missing = compile_all(list(todo.values()))
        except CheckError as e:
            text = header_only_unusable(prop, todo, tmp)
            if text is None:
                raise
        else:
            text = None
        if text is not None and not spec.get("both_forms"):  # that is for C20 to report; the property is decided on the form that builds
            variants = ["lib"]
            todo = {"lib": todo["lib"]}
            missing = compile_all([todo["lib"]])
            print("note: the header-only form does not build here; only the library form was explored")
        elif text is not None:
            path = write_replay(prop, 0, "single", tier, [], text, "built again")
            write_evidence(prop, tier, seed, spec, {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "executions": 0, "evaluations": 0, "distinct_nontrivial": 0,
                                                    "exhaustive": False, "bounds": spec["bounds"][0 if tier == "quick" else 1], "rule": spec["rule"], "samples": [text[:300]]}, t0, 1)
            print("the header-only form does not build where the library does:\n%s" % text)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        t_build = time.time() - t0
        per = max(1, NPROC // len(variants))
        base = ["--tier", tier]
        for k in known:
            base += ["--known", k["signature"]]
        if spec.get("transcript"):
            base += ["--transcript"]
        procs = []
        for v in variants:
            for s in range(per):
                out = os.path.join(tmp, "%s-%d" % (v, s))
                sa = ["--shard", str(s), "--nshards", str(per)]
                procs.append((v, s, out, sa, spawn(todo[v][2], out, base + sa, asan, mem)))
        limit = float(os.environ.get("MC_LIMIT", 840 if tier == "quick" else 6 * 3600))
        results, bad = [], []
        for v, s, out, sa, p in procs:
            try:
                p.wait(max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                for q in procs:
                    if q[4].poll() is None:
                        q[4].kill()
                raise CheckError("exploration did not finish within %d s" % limit)
            k, i = outcome(p, out)
            results.append((v, s, out, k, i))
            if k != "ok":
                bad.append((v, s, out, sa, k, i))
        violations = []
        # earliest case of each variant first; one confirmed report per variant is enough
        bad.sort(key=lambda b: (b[0], (b[5].get("fail_case") if b[4] == "fail" else b[5].get("case")) or 0))
        seen = set()
        for v, s, out, sa, k, i in bad:
            if v in seen:
                continue
            c = confirm(prop, v, todo[v][2], tmp, base, sa, k, i, asan, mem)
            if c:
                seen.add(v)
                violations.append((v, c))
        unconfirmed = bool(bad) and not violations
        if not bad and spec.get("transcript"):
            violations += compare_transcripts(prop, results, per, todo, tmp, base, asan, mem)
        cov, knownhits = coverage(spec, results, variants, tier)
        cov["build_s"] = round(t_build, 1)
        if spec.get("worlds"):
            cov["not_built"] = sorted(os.path.relpath(d, tmp) for d in missing)
        write_evidence(prop, tier, seed, spec, cov, t0, len(violations))
        for k in known:
            if knownhits.get(k["signature"]):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        for n, (v, (args, text, how)) in enumerate(violations):
            path = write_replay(prop, n, v, tier, args, text, how)
            print("violated in variant '%s' (%s):\n%s" % (v, how, text))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        if violations:
            return 1
        if unconfirmed:
            raise CheckError("a failure was seen but could not be reproduced")
        print("%s %s: held on %d executions (%d states, %d transitions) in %.1f s" %
              (prop, tier, cov.get("executions", 0), cov.get("states", 0), cov.get("transitions", 0), time.time() - t0))
        return 0
    finally:
        if not os.environ.get("MC_KEEP"):
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print("kept", tmp)


def compare_transcripts(prop, results, per, todo, tmp, base, asan, mem):
    """C20: the per-case transcript hashes of both variants must be equal."""
    worst = None
    for s in range(per):
        a = array.array("I")
        b = array.array("I")
        a.frombytes(open(os.path.join(tmp, "lib-%d.tr" % s), "rb").read())
        b.frombytes(open(os.path.join(tmp, "single-%d.tr" % s), "rb").read())
        if a == b:
            continue
        n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        case = n * per + s
        worst = case if worst is None else min(worst, case)
    if worst is None:
        return []
    args = base + ["--case", str(worst), "--ticks", "40", "--verbose"]
    texts = {}
    for v in ("lib", "single"):
        out = os.path.join(tmp, "tr-" + v)
        run_one(todo[v][2], out, args, asan, mem, 200)
        texts[v] = open(out + ".stdout", "rb").read().decode("utf8", "replace")
    if texts["lib"] == texts["single"]:
        raise CheckError("transcripts differ at case %d but not when replayed alone" % worst)
    text = "case %d: the two forms of the library differ\n--- compiled library\n%s\n--- header-only\n%s" % (worst, texts["lib"], texts["single"])
    return [("lib", (args, text, "both forms replayed on the single case"))]


def coverage(spec, results, variants, tier):
    states, tr, val, ex, comp, space = set(), 0, 0, 0, 0, 0
    counters, known, samples = {}, {}, []
    per_variant = {}
    for v, s, out, k, i in results:
        if k == "crash":
            continue
        a = array.array("Q")
        a.frombytes(open(out + ".states", "rb").read())
        states.update(a)
        tr += i["transitions"]; val += i["validated"]; ex += i["executed"]; comp += i["comparisons"]
        space = max(space, i["space"])
        per_variant[v] = per_variant.get(v, 0) + i["executed"]
        for n, x in i["counters"].items():
            counters[n] = counters.get(n, 0) + x
        for n, x in i["known"].items():
            known[n] = known.get(n, 0) + x
        samples += i["samples"]
    complete = all(r[3] == "ok" for r in results) and all(n == space for n in per_variant.values())
    cov = {"states": len(states), "transitions": tr, "traces_validated_against_impl": val,
           "executions": ex, "case_space": space, "executions_per_variant": per_variant, "comparisons": comp,
           "counters": counters, "exhaustive": complete, "bounds": spec["bounds"][0 if tier == "quick" else 1],
           "rule": spec["rule"], "samples": samples[:6] or ["(none)"]}
    if spec["level"] in ("exploration", "fault_enumeration"):
        cov["evaluations"] = ex
        cov["distinct_nontrivial"] = len(states)
    return cov, known


def replay(path):
    d = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="mc-replay-")
    try:
        t = build(d["property"], d["variant"], os.path.join(tmp, "b"))
        try:
            compile_all([t])
        except CheckError as e:
            if not d["args"]:
                print("fail: does not build\n%s" % e)
                return 1
            raise
        k, i = run_one(t[2], os.path.join(tmp, "r"), d["args"] + ["--verbose"], bool(CHECKS[d["property"]].get("asan")), 3000, 900)
        print(k)
        print(i["fail_text"] if k == "fail" else i.get("why", "") + i.get("stderr", ""))
        print(open(os.path.join(tmp, "r.stdout"), "rb").read().decode("utf8", "replace"))
        return 0 if k == "ok" else 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    try:
        if cmd == "check":
            tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
            return check(sys.argv[2], "thorough" if tier == "thorough" else "quick")
        if cmd == "replay":
            return replay(sys.argv[2])
        if cmd == "setup":
            for t in (["g++", "--version"], ["python3", "--version"]):
                subprocess.run(t, check=True, stdout=subprocess.DEVNULL)
            print("ok: each check builds what it needs from", REPO)
            return 0
    except CheckError as e:
        print("check error: %s" % e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
