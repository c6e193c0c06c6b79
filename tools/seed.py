#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy of /repo (arguments: ids, default
all): the patch applies, builds, passes the stable tests, and the demonstration
succeeds without it and fails with it.  With --check, also run this property's
quick check against it."""
import json, os, subprocess, sys, shutil, time

S = "/verif/seeded"
W = "/tmp/seedcheck"


def sh(cmd, cwd=None, env=None, timeout=1500):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--check" in sys.argv
    only_check = "--only-check" in sys.argv
    ids = args or sorted(os.listdir(S))
    repo = W + "/repo"
    sh(f"rm -rf {W}; mkdir -p {W}; cp -a /repo {repo}")
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for i in ids:
        d = f"{S}/{i}"
        sh("git checkout -q -- .", repo)
        out = []
        if not only_check:
            rc, o = sh(f"bash {d}/demo.sh", repo, timeout=300)
            out.append("demo-clean=%s" % ("ok" if rc == 0 else "BAD\n" + o[-1500:]))
        rc, o = sh(f"git apply {d}/patch.diff", repo)
        if rc:
            print(i, "PATCH DOES NOT APPLY", o); continue
        if not only_check:
            # bind the scratch copy over /repo in a private mount namespace
            rc, o = sh(f"unshare -m bash -c 'mount --bind {repo} /repo && bash /opt/vp/build.sh >/tmp/seedcheck/b.log 2>&1 && bash /opt/vp/test.sh {W}/o.json >/dev/null 2>&1'")
            if rc:
                print(i, "BUILD FAILS"); sh("tail -30 /tmp/seedcheck/b.log | cat"); continue
            passed = set(json.load(open(W + "/o.json"))["passed"])
            miss = [t for t in base if t not in passed]
            out.append("tests=%s" % (miss or "ok"))
            rc, o = sh(f"bash {d}/demo.sh", repo, timeout=300)
            out.append("demo-bug=%s" % ("fails(ok)" if rc else "BAD (passes)"))
        if check or only_check:
            p = json.load(open(d + "/meta.json"))["property"]
            env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=W + "/build")
            t = time.time()
            rc, o = sh(f"python3 run.py {p} --tier quick" if False else f"python3 /verif/run.py {p} quick", "/verif", env)
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            out.append("check=%s rc=%d %.0fs" % (v[:1] or o[-300:], rc, time.time() - t))
        print(i, *out, flush=True)
    sh("git -C /repo status --short")
    shutil.rmtree(W, ignore_errors=True)


main()
