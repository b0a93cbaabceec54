#!/usr/bin/env python3
"""mkseed.py FILE: write /verif/seeded/<id>/ from a list of planted bugs (development tool)."""
import sys, os, subprocess, json, shutil, tempfile
V = "/verif"
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir="/tmp")
    subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
    for f, old, new in b["edits"]:
        p = f"{t}/r/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True))
    shutil.rmtree(t)
    open(d + "/main.rs", "w").write("#[allow(dead_code)]\nmod util;\n#[allow(unused_imports)]\nuse util::*;\n" + b["demo"].lstrip())
    shutil.copy(V + "/tools/demo/demo.sh", d + "/demo.sh")
    shutil.copy(V + "/tools/demo/util.rs", d + "/util.rs")
    json.dump({"property": b["p"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
