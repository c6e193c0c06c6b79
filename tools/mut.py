#!/usr/bin/env python3
"""Ad-hoc mutation runs: mut.py FILE [ids].  FILE holds blocks separated by
lines '####'; a block is 'id property', then '--- path' sections with
<<<< old ==== new >>>> replacements.  Each is applied to a scratch copy and the
property's quick check is run against it."""
import os, re, shutil, subprocess, sys, time

W = "/tmp/mut%d" % os.getpid()
repo = W + "/repo"
os.makedirs(W)
subprocess.check_call(f"git -C /repo archive --prefix=repo/ HEAD | tar x -C {W}", shell=True)
subprocess.check_call("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=repo)
only = sys.argv[2:]
for block in re.split(r"(?m)^####.*\n", open(sys.argv[1]).read()):
    if not block.strip():
        continue
    head, _, rest = block.strip("\n").partition("\n")
    mid, prop = head.split()
    if only and mid not in only:
        continue
    subprocess.check_call("git checkout -q -- .", shell=True, cwd=repo)
    ok = True
    for sec in re.split(r"(?m)^--- ", rest)[1:]:
        path, _, body = sec.partition("\n")
        p = os.path.join(repo, path.strip())
        s = open(p).read()
        for m in re.finditer(r"(?ms)^<<<<\n(.*?)^====\n(.*?)^>>>>", body):
            if s.count(m.group(1)) != 1:
                print(mid, "old text occurs", s.count(m.group(1)), "times in", path); ok = False; break
            s = s.replace(m.group(1), m.group(2))
        open(p, "w").write(s)
    if not ok:
        continue
    t = time.time()
    r = subprocess.run(["python3", "/verif/run.py", prop, "quick"], cwd="/verif", text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=W + "/build"))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(mid, prop, "rc=%d" % r.returncode, v[:1] or ("MISSED" if r.returncode == 0 else r.stdout[-600:]), "%.0fs" % (time.time() - t), flush=True)
shutil.rmtree(W)
