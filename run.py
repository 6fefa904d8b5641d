#!/usr/bin/env python3
"""run.py <property> [quick|thorough] | run.py <property> --replay FILE

Builds /verif/harness/<property>.cpp against /repo's current headers in a
scratch directory, runs the exhaustive exploration, writes
/verif/evidence/<property>.json.  Exit 0: the property held on everything
explored; 1: VIOLATION line printed; 2: the check could not give an answer."""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CONF = json.load(open(os.path.join(VERIF, "checks.json")))


def known_for(pid, scratch):
    """The committed findings of this property, as key<TAB>text lines."""
    path = os.path.join(scratch, "known.txt")
    with open(path, "w") as o:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            line = line.rstrip("\n")
            if not line.startswith("known: "):
                continue
            head, _, text = line[len("known: "):].partition(" :: ")
            prop, key = head.split(None, 1)
            if prop == "property=" + pid:
                o.write("%s\t%s\n" % (key.strip(), text))
    return path


def build(pid, scratch, conf):
    exe = os.path.join(scratch, "harness")
    flags = ["-std=c++14", "-include", "cstdint", "-w", "-Wno-psabi", "-flifetime-dse=0", "-ftrivial-auto-var-init=pattern", "-I", os.path.join(REPO, "include"),
             "-I", os.path.join(VERIF, "harness")]
    if conf.get("runtime"):
        return build_recorded(pid, scratch, conf, flags, exe)
    if conf.get("sanitize", True):
        flags += ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]
    else:
        flags += ["-O1"]
    src = os.path.join(VERIF, "harness", conf.get("source", pid + ".cpp"))
    cmd = ["g++"] + flags + conf.get("flags", []) + [src, "-o", exe, "-lboost_date_time"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 and conf.get("same_units"):
        # mixed units do not compile against this tree: judge what does
        print("NOTE: the harness of %s does not compile with mixed units against %s; one unit is used for each kind of quantity" % (pid, REPO))
        conf["reduced"] = True
        r = subprocess.run(cmd + ["-DVERIF_SAME_UNITS"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("\n".join([l for l in r.stdout.splitlines() if "error" in l][:8]) or r.stdout[:1500])
        print("ERROR: the harness of %s does not compile against %s" % (pid, REPO))
        return None
    return exe


WRAPPED = ["memcpy", "memmove", "memset", "memcmp", "strlen", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_rwlock_rdlock",
           "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
           "strtok", "localtime", "gmtime", "asctime", "ctime", "setlocale", "chdir", "umask", "setenv"]


def build_recorded(pid, scratch, conf, flags, exe):
    """All memory accesses of the harness and the library call the recording run time of harness/<runtime>."""
    obj, run = os.path.join(scratch, "harness.o"), os.path.join(scratch, "runtime.o")
    steps = [["g++", "-include", os.path.join(VERIF, "harness", "recorded.hpp")] + flags + ["-O0", "-g1", "-fsanitize=thread", "-c", os.path.join(VERIF, "harness", pid + ".cpp"), "-o", obj],
             ["g++", "-std=c++14", "-O1", "-w", "-fno-builtin", "-c", os.path.join(VERIF, "harness", conf["runtime"]), "-o", run],
             ["g++", obj, run, "-o", exe, "-Wl," + ",".join("--wrap=" + f for f in WRAPPED), "-rdynamic", "-ldl", "-lpthread", "-lboost_date_time"]]
    for cmd in steps:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print("\n".join([l for l in r.stdout.splitlines() if "error" in l][:8]) or r.stdout[:1500])
            print("ERROR: the harness of %s does not compile against %s" % (pid, REPO))
            return None
    return exe


def main():
    pid = sys.argv[1]
    conf = CONF["checks"][pid]
    tier = "quick"
    replay = None
    if len(sys.argv) > 2:
        if sys.argv[2] == "--replay":
            replay = os.path.abspath(sys.argv[3])
        else:
            tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=86:max_allocation_size_mb=1024:allocator_may_return_null=1:detect_stack_use_after_return=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=0"
        env["TMPDIR"] = scratch
        exe = build(pid, scratch, conf)
        if exe is None:
            return 2
        tbuild = time.time() - t0
        known = known_for(pid, scratch)
        if replay:
            w = os.path.join(scratch, "r")
            os.mkdir(w)
            r = subprocess.run([exe, "--property", pid, "--replay", replay, "--scratch", w, "--known", known, "--tier", tier], env=env)
            return 0 if r.returncode == 0 else 1
        out = os.path.join(scratch, "result.json")
        rdir = os.path.join(VERIF, "evidence")
        os.makedirs(rdir, exist_ok=True)
        rfile = os.path.join(rdir, pid + ".replay.txt")
        if os.path.exists(rfile):
            os.unlink(rfile)
        work = os.path.join(scratch, "work")
        os.mkdir(work)
        jobs = min(8, os.cpu_count() or 1)
        r = subprocess.run([exe, "--property", pid, "--tier", tier, "--out", out, "--replay-out", rfile,
                            "--scratch", work, "--known", known, "--jobs", str(jobs)],
                           env=env, stdout=subprocess.PIPE, text=True)
        sys.stdout.write(r.stdout)
        rc = r.returncode
        if rc not in (0, 1):
            print("ERROR: harness of %s ended with %d" % (pid, rc))
            rc = 2
        if os.path.exists(out):
            res = json.load(open(out))
            ev = {
                "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
                "coverage": {
                    "states": res["states"],
                    "transitions": res["transitions"],
                    "traces_validated_against_impl": res["executions"],
                    "evaluations": res["evaluations"],
                    "exhaustive": rc == 0,
                    "executions_per_scenario": res["scenarios"],
                    "bounds": conf.get("bounds", ""),
                    "rule": "states: distinct reference-model states reached; transitions: distinct edges of the "
                            "decision tree plus steps of exhaustive inner loops; traces: complete executions of the "
                            "real library code compared with the reference after every step; evaluations: single comparisons",
                    "samples": res["samples"][:12],
                },
                "assumptions": conf.get("assumptions", []) + CONF.get("assumptions", []),
                "known_findings_seen": res["known"],
                "build_s": round(tbuild, 2),
                "wall_s": round(time.time() - t0, 2),
                "violations": 1 if rc == 1 else 0,
            }
            with open(os.path.join(rdir, pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
            print("%s %s: states=%d transitions=%d executions=%d evaluations=%d wall=%.1fs (build %.1fs)" % (
                pid, tier, res["states"], res["transitions"], res["executions"], res["evaluations"], time.time() - t0, tbuild))
            if rc == 0 and res["executions"] == 0:
                print("ERROR: nothing was explored")
                rc = 2
        if rc == 0 and conf.get("reduced"):
            print("ERROR: no violation with one unit for each kind of quantity, and mixed units do not compile: no answer")
            rc = 2
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (pid, rfile))
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


sys.exit(main())
