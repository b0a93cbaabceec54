#!/usr/bin/env python3
"""trial.py FILE [ID...] (development tool): what the proofs and the harness make of edits of /repo.

FILE defines EDITS, a list of dicts: id, edits=[(file, old, new)], bug=None or the property it breaks.
Each is applied to a scratch copy; it has to compile and to pass the tests."""
import sys, os, subprocess, tempfile, shutil, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INNER = r'''
import sys, os, json
sys.path.insert(0, "@V@")
import check
from props import PROPS
work = check.Work()
fns = None
vext, e = check.build_vext()
mp, rs = os.path.join(work.dir, "m.map"), os.path.join(work.dir, "m.rs")
r, o, e = check.run([vext, check.REPO, "@V@/contracts", rs, mp], 120)
out = {"fatal": [], "failed": {}, "undecided": {}, "props": []}
if r != 0: out["fatal"].append(e[-300:])
else:
    mods = sorted({f.module for f in check.read_map(mp) if f.module})
    p = check.prove(vext, work, mods)
    if not p.ok: out["fatal"] += p.notes
    else:
        bad = set()
        for f in p.fns:
            if f.kind == "trusted": continue
            if f.kind == "missing": out["undecided"][f.id] = "missing"
            elif f.kind == "external": out["undecided"][f.id] = "external: " + p.externals.get(f.id, "")
            elif f.errors:
                if not f.intact(): out["undecided"][f.id] = "lost %s unknown %s" % (f.lost, f.unknown)
                elif all(e["rlimit"] for e in f.errors): out["undecided"][f.id] = "rlimit"
                else:
                    out["failed"][f.id] = [e["message"] + " | " + " ".join(e["detail"].split())[:300] for e in f.errors][:2]
                    bad.add(f.id)
            elif not f.intact(): out.setdefault("notes", []).append("%s intact=no but verified (%s %s)" % (f.id, f.lost, f.unknown))
        out["loose"] = [e["message"] for e in p.loose][:3]
        for k, c in PROPS.items():
            if "roots" in c and any(f.id in bad for f in check.select(p.fns, c["roots"])): out["props"].append(k)
work.close()
print("RESULT " + json.dumps(out))
'''.replace("@V@", V)
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]

def one(a):
    slot, b = a
    t = tempfile.mkdtemp(dir="/tmp", prefix="trial.")
    res = []
    try:
        subprocess.check_call("mkdir r && cd /repo && tar cf - --exclude ./target . | tar xf - -C %s/r" % t, shell=True, cwd=t)
        for f, old, new in b["edits"]:
            p = f"{t}/r/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return b, ["BAD EDIT %s occurs %d times: %r" % (f, s.count(old), old[:60])]
            open(p, "w").write(s.replace(old, new))
        env = dict(os.environ, RG_REPO=t + "/r", CARGO_TARGET_DIR="/tmp/trialtgt%s/%d" % (V.replace("/", "_"), slot), CARGO_NET_OFFLINE="true", VERIF_TIER="quick", VERIF_SEED="1")
        r = subprocess.run("cargo test --workspace --offline 2>&1", shell=True, cwd=t + "/r", env=env, capture_output=True, text=True)
        ok = sum(1 for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith(" ok"))
        if ok < 45:
            res.append("TESTS ok=%d %s" % (ok, "\n".join(l for l in r.stdout.splitlines() if l.startswith(("error", "  --> ")) or "FAILED" in l)[:600]))
        env.pop("CARGO_TARGET_DIR")
        r = subprocess.run(["python3", "-c", INNER], env=env, capture_output=True, text=True)
        l = [l for l in r.stdout.splitlines() if l.startswith("RESULT ")]
        if not l:
            return b, res + ["NO RESULT " + r.stderr[-500:]]
        j = json.loads(l[0][7:])
        for x in j["fatal"]: res.append("FATAL " + x)
        for k, v in j["failed"].items(): res.append("FAILED %s: %s" % (k, " ## ".join(v)))
        for k, v in j["undecided"].items(): res.append("undecided %s: %s" % (k, v[:300]))
        for x in j.get("loose", []): res.append("loose " + x)
        for x in j.get("notes", []): res.append("note " + x)
        if j["props"]: res.append("alarms: " + " ".join(j["props"]))
        if b.get("bug") and b["bug"] not in j["props"]:
            r = subprocess.run(["python3", V + "/check.py", b["bug"]], env=env, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append("HARNESS %s rc=%d %s" % (b["bug"], r.returncode, v[:1] or "MISSED"))
        return b, res
    finally:
        shutil.rmtree(t, ignore_errors=True)

todo = [b for b in ns["EDITS"] if not only or b["id"] in only]
import queue
slots = queue.Queue()
N = int(os.environ.get("N", "3"))
for i in range(N): slots.put(i)
def go(b):
    s = slots.get()
    try: return one((s, b))
    finally: slots.put(s)
with ThreadPoolExecutor(N) as ex:
    for b, res in ex.map(go, todo):
        bad = any(x.startswith(("FATAL", "FAILED", "BAD", "TESTS", "NO")) for x in res)
        if b.get("bug"):
            hit = any(x.startswith("alarms:") and b["bug"] in x for x in res) or any("rc=1" in x for x in res)
            tag = "CAUGHT" if hit else "MISSED"
        else:
            tag = "ALARM" if bad else ("weak" if res else "ok")
        print("== %s %s" % (b["id"], tag))
        for x in res: print("   " + x)
        sys.stdout.flush()
