#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from a description on stdin or in a file:

id: ...
property: ...
needs: ...
breaks: ...
--- file
<<<<
old
====
new
>>>>
--- demo.cpp [extra g++ flags]
...
"""
import sys, os, re, json, subprocess, shutil

txt = open(sys.argv[1]).read() if len(sys.argv) > 1 else sys.stdin.read()
for block in re.split(r"^#### *$", txt, flags=re.M):
    if not block.strip():
        continue
    head, *parts = re.split(r"^--- ", block, flags=re.M)
    meta = {m[0]: m[1].strip() for m in re.findall(r"^(\w+): (.*)$", head, flags=re.M)}
    d = "/verif/seeded/" + meta["id"]
    os.makedirs(d, exist_ok=True)
    w = "/tmp/mkseed"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for p in parts:
        name, body = p.split("\n", 1)
        if name.startswith("demo.cpp"):
            flags = name[len("demo.cpp"):].strip()
            open(d + "/demo.cpp", "w").write(body.rstrip() + "\n")
            open(d + "/demo.sh", "w").write(
                "#!/bin/bash\n# exits 0 when the property holds\n"
                "here=$(cd \"$(dirname \"$0\")\" && pwd)\n"
                "out=$(mktemp -d) || exit 3\n"
                "trap 'rm -rf \"$out\"' EXIT\n"
                "g++ -std=c++17 -g -w -I\"$PWD\" -I\"$PWD/_build\" \"$here/demo.cpp\" -o \"$out/demo\" "
                + flags + " || exit 2\n"
                "timeout 60 \"$out/demo\"\n")
            continue
        f = w + "/" + name.strip()
        s = open(f).read()
        for old, new in re.findall(r"<<<<\n(.*?)\n====\n(.*?)\n?>>>>", body, flags=re.S):
            if s.count(old) != 1:
                sys.exit("%s: %d matches in %s for:\n%s" % (meta["id"], s.count(old), name, old))
            s = s.replace(old, new)
        open(f, "w").write(s)
    diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
    assert diff, meta["id"]
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w, ignore_errors=True)
    print("wrote", d)
