#!/usr/bin/env python3
"""Runs the check of one property:  run.py <id> [quick|thorough]

Builds the property's harness from /repo's current working tree, explores
generated cases, writes evidence/<id>.json and prints the verdict.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

NPROC = os.cpu_count() or 4

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer"],
    # where the many instantiations make compiling the bottleneck
    "address": ["-fsanitize=address", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
    "plain": [],
}


def env_for(san):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:"
                         "detect_stack_use_after_return=0:"
                         "allocator_may_return_null=1:max_allocation_size_mb=4096")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:second_deadlock_stack=1"
    e.setdefault("QT_QPA_PLATFORM", "offscreen")
    e.setdefault("SDL_VIDEODRIVER", "dummy")
    e.setdefault("SDL_AUDIODRIVER", "dummy")
    return e


# Programs of the harness (they use the public interface only) that the tree
# does not compile
BROKEN = []


def tree_hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        if os.path.isdir(p):
            for root, dirs, files in sorted(os.walk(p)):
                dirs.sort()
                for f in sorted(files):
                    q = os.path.join(root, f)
                    h.update(q.encode())
                    h.update(open(q, "rb").read())
        elif os.path.exists(p):
            h.update(p.encode())
            h.update(open(p, "rb").read())
    return h.hexdigest()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def build(prop, variant, conf, fuzz=False):
    """Compiles the harness; returns the path of the binary."""
    cxx = "clang++" if fuzz else conf.get("cxx", "g++")
    san = variant["san"]
    flags = ["-std=" + conf.get("std", "c++20"), "-g1", variant.get("opt", "-O1"),
             "-I" + REPO, "-I" + os.path.join(HERE, "engine"),
             "-I" + os.path.join(HERE, "harness")]
    flags += conf.get("flags", []) + variant.get("flags", [])
    if fuzz:
        flags += ["-fsanitize=fuzzer-no-link,address,undefined",
                  "-fno-sanitize-recover=all"]
    else:
        flags += SAN[san]
    srcs = [os.path.join(HERE, "harness", s) for s in variant.get("src", conf["src"])]
    main = os.path.join(HERE, "engine", "pbt_fuzz.cpp" if fuzz else "pbt_main.cpp")
    libs = variant.get("libs", conf.get("libs", []))
    name = variant["name"] + ("-fuzz" if fuzz else "")
    out = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(HERE, "build")),
                       prop, name)
    key = tree_hash([os.path.join(REPO, "lager"), os.path.join(REPO, "resources"),
                     os.path.join(HERE, "engine")] + srcs +
                    [os.path.join(HERE, "harness", f)
                     for f in os.listdir(os.path.join(HERE, "harness"))
                     if f.endswith(".hpp")],
                    " ".join([cxx] + flags + libs))
    exe = os.path.join(out, "harness")
    stamp = os.path.join(out, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    gen = conf.get("pre")
    if gen:
        srcs += gen(out, REPO, HERE)
    jobs = []
    for i, s in enumerate(srcs + [main]):
        o = os.path.join(out, "%d.o" % i)
        fl = list(flags)
        if s == main and not fuzz:
            fl = [f for f in fl if not f.startswith("-O")] + ["-O1"]
        jobs.append((s, o, [cxx] + fl + ["-I" + out, "-c", s, "-o", o]))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        rs = list(ex.map(lambda j: (j, sh(j[2])), jobs))
    good = []
    for j, r in rs:
        if r.returncode:
            r = sh(j[2])  # alone, in case it was for lack of memory
        if r.returncode:
            print(r.stdout[-6000:])
            print("ERROR: cannot compile %s" % j[0])
            if r.returncode < 0 or " error:" not in r.stdout:
                sys.exit(2)
            BROKEN.append((j[0], " ".join(j[2]), r.stdout))
        else:
            good.append(j)
    link = [cxx] + (["-fsanitize=fuzzer,address,undefined"] if fuzz else SAN[san]) \
        + [j[1] for j in good] + ["-o", exe] + libs + ["-lpthread"]
    r = sh(link)
    if r.returncode:
        if BROKEN:
            return None
        print(r.stdout[-6000:])
        print("ERROR: cannot link")
        sys.exit(2)
    if BROKEN:
        return exe  # with the targets that still compile; not stamped
    open(stamp, "w").write(key)
    return exe


def fuzz_campaign(exe, target, seconds, seed, outdir, jobs, env):
    """Runs libFuzzer on one target; returns a replay file or None, and stats."""
    corpus = os.path.join(outdir, "corpus-" + target)
    shutil.rmtree(corpus, ignore_errors=True)
    os.makedirs(corpus)
    procs = []
    for j in range(jobs):
        e = dict(env)
        e["PBT_TARGET"] = target
        rep = os.path.join(outdir, "fuzz-%s-%d.replay" % (target, j))
        if os.path.exists(rep):
            os.remove(rep)
        e["PBT_FUZZ_OUT"] = rep
        cmd = [exe, corpus, "-seed=%d" % (seed * 100 + j + 1),
               "-max_total_time=%d" % seconds, "-max_len=4096", "-len_control=50",
               "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1",
               "-reload=1", "-artifact_prefix=" + outdir + "/"]
        procs.append((rep, subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE,
                                            stderr=subprocess.STDOUT, text=True,
                                            errors="replace", cwd=outdir)))
    execs, cov, found = 0, 0, None
    for rep, p in procs:
        o, _ = p.communicate()
        for l in o.splitlines():
            if "number_of_executed_units" in l:
                execs += int(l.split()[-1])
            if " cov: " in l:
                cov = max(cov, int(l.split(" cov: ")[1].split()[0]))
        if os.path.exists(rep) and not found:
            found = rep
    n = len(os.listdir(corpus))
    shutil.rmtree(corpus, ignore_errors=True)
    return found, {"target": target, "executions": execs, "coverage": cov,
                   "corpus": n, "seconds": seconds, "jobs": jobs}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    conf = CHECKS[prop]
    t0 = time.time()
    variants = conf.get("variants") or [dict(name="main", san="asan")]
    variants = [v for v in variants
                if tier == "replay" or tier in v.get("tiers", ("quick", "thorough"))]
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    repdir = os.path.join(HERE, "replays")
    os.makedirs(repdir, exist_ok=True)

    with cf.ThreadPoolExecutor(max(1, len(variants))) as ex:
        exes = list(ex.map(lambda v: build(prop, v, conf), variants))
    build_s = time.time() - t0

    if tier == "replay":
        # runs one replay file again on every variant that has its target
        path = os.path.abspath(sys.argv[3])
        failed = known_target = False
        for v, exe in zip(variants, exes):
            if exe is None:
                continue
            env = env_for(v["san"])
            env.update(v.get("env", {}))
            scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
            env["VERIF_SCRATCH"] = scratch
            env["XDG_RUNTIME_DIR"] = scratch
            r = sh([exe, "replay", path], env=env, cwd=scratch)
            shutil.rmtree(scratch, ignore_errors=True)
            if r.returncode == 2:
                continue  # not one of its targets
            known_target = True
            print("-- variant " + v["name"])
            print(r.stdout[-8000:])
            failed = failed or r.returncode != 0
        sys.exit(2 if not known_target else 1 if failed else 0)

    known, fixed = [], []
    kf = os.path.join(HERE, "known-findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop]

    cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": []}
    details, violation = [], None
    for vi, (v, exe) in enumerate(zip(variants, exes)):
        if exe is None:
            continue
        env = env_for(v["san"])
        env.update(v.get("env", {}))
        out = os.path.join(os.path.dirname(exe), "out.json")
        if os.path.exists(out):
            os.remove(out)
        replay = os.path.join(repdir, "%s-%s.replay" % (prop, v["name"]))
        if os.path.exists(replay):
            os.remove(replay)
        cases, tmax = v.get(tier, conf.get(tier))
        scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        env["VERIF_SCRATCH"] = scratch
        env["XDG_RUNTIME_DIR"] = scratch
        log = os.path.join(os.path.dirname(exe), "log.txt")
        with open(log, "w") as lf:
            r = subprocess.run(
                [exe, "run", "--seed", str(seed * 64 + vi), "--cases", str(cases),
                 "--workers", str(v.get("workers", conf.get("workers", NPROC))),
                 "--time", str(tmax), "--out", out, "--replay", replay,
                 "--shrink", str(conf.get("shrink", 40))],
                env=env, stdout=lf, stderr=subprocess.STDOUT, cwd=scratch)
        shutil.rmtree(scratch, ignore_errors=True)
        if BROKEN and (r.returncode not in (0, 1) or not os.path.exists(out)):
            continue  # no targets left
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print(open(log, errors="replace").read()[-4000:])
            print("ERROR: harness ended with %d" % r.returncode)
            sys.exit(2)
        o = json.load(open(out))
        o["variant"] = v["name"]
        o["sanitizer"] = v["san"]
        o["time_limit_s"] = tmax
        details.append(o)
        cov["evaluations"] += o["evaluations"]
        cov["distinct_nontrivial"] += o["distinct_nontrivial"]
        cov["samples"] += o["samples"][:6]
        if o["unreproduced"]:
            print("note: a failure could not be reproduced and is not reported: "
                  + o["unreproduced"][:300])
        if r.returncode == 1:
            txt = open(log, errors="replace").read()
            print(txt[-5000:])
            violation = (replay, o["message"])
            break

    if BROKEN and not violation:
        # every program that uses the interface as documented is an input too
        replay = os.path.join(repdir, "%s-program.txt" % prop)
        with open(replay, "w") as f:
            for src, cmd, txt in BROKEN:
                f.write("%s\n%s\n%s\n\n" % (src, cmd, txt[:20000]))
        violation = (replay, "programs that used to compile no longer do: "
                     + " ".join(os.path.basename(b[0]) for b in BROKEN))
        print(violation[1])
    fuzz = []
    if tier == "thorough" and not violation and conf.get("fuzz"):
        v = dict(variants[0])
        fexe = build(prop, v, conf, fuzz=True)
        env = env_for("asan")
        scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        env["VERIF_SCRATCH"] = scratch
        env["XDG_RUNTIME_DIR"] = scratch
        for target, seconds in conf["fuzz"]:
            rep, st = fuzz_campaign(fexe, target, seconds, seed,
                                    os.path.dirname(fexe), NPROC, env)
            fuzz.append(st)
            cov["evaluations"] += st["executions"]
            if rep:
                # decide with the replay binary: confirm three times and shrink
                r = sh([exes[0], "shrink", rep], env=env_for("asan"), cwd=scratch)
                if r.returncode == 1:
                    dst = os.path.join(repdir, "%s-fuzz.replay" % prop)
                    shutil.copy(rep, dst)
                    print(r.stdout[-4000:])
                    violation = (dst, "found by coverage-guided fuzzing")
                    break
                print("note: fuzzer finding did not reproduce: " + rep)
        shutil.rmtree(scratch, ignore_errors=True)

    findings = []
    if not violation:
        for k in known:
            if k.get("status") != "open":
                continue
            r = sh([exes[0], "probe", k["probe"]], env=env_for(variants[0]["san"]))
            if r.returncode == 1:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                findings.append(k["id"])
            elif r.returncode != 0:
                print(r.stdout[-2000:])
                print("ERROR: probe %s" % k["probe"])
                sys.exit(2)

    rules = {}
    labels = {}
    for o in details:
        rules.update(o["rules"])
        for k, n in o["labels"].items():
            labels[k] = labels.get(k, 0) + n
    cov["rule"] = ("Each case is a generated choice sequence decoded into the named "
                   "target's inputs/operations; non-trivial per target: " +
                   "; ".join("%s: %s" % kv for kv in rules.items()))
    cov["per_target"] = {}
    for o in details:
        for k, n in o["per_target"].items():
            kk = k if len(details) == 1 else "%s/%s" % (o["variant"], k)
            cov["per_target"][kk] = n
    cov["labels"] = labels
    cov["discarded"] = sum(o["discarded"] for o in details)
    cov["nontrivial_total"] = sum(o["nontrivial"] for o in details)
    cov["choices_drawn"] = sum(o["choices"] for o in details)
    cov["case_budget_reached"] = not any(o["timed_out"] for o in details)
    if fuzz:
        cov["fuzz_campaigns"] = fuzz
    if findings:
        cov["known_findings_reproduced"] = findings
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov,
        "assumptions": conf.get("assumptions", []) + [
            "generated-input search: absence of a violation is evidence over the "
            "explored cases only",
            "g++ 13 / clang 18 with the sanitizers named per variant",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    ev["coverage"]["build_s"] = round(build_s, 2)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %d discarded, build %.1fs, total %.1fs"
          % (prop, tier, cov["evaluations"], cov["distinct_nontrivial"],
             cov["discarded"], build_s, time.time() - t0))
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
