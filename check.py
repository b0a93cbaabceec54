#!/usr/bin/env python3
"""Decide one property of /repo.

    check.py PROPERTY            the check (VERIF_SEED, VERIF_TIER from the environment)
    check.py replay FILE         run a failing case of the real code again

The deciding step is deductive: vext extracts the functions of /repo's current
source together with the contracts of /verif/contracts, and Verus has to accept
every obligation. Beside it, the harness looks for an input on which the real
code breaks the property; it is what turns a failed obligation into a failing
input, and the stated bounded stand-in for what no contract reaches.
"""
import glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RG_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS, TRUSTED_ALWAYS, BASELINE_ONLY  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
TARGET = os.environ.get("RG_TARGET", os.path.join(VERIF, "target"))
NCPU = os.cpu_count() or 4
T0 = time.time()
DEADLINE = 780 if TIER == "quick" else 3000

VERIFICATION_MESSAGES = (
    "postcondition not satisfied", "precondition not satisfied", "assertion failed", "assertion might not hold",
    "invariant not satisfied", "loop invariant not", "possible arithmetic", "possible division", "possible bit shift",
    "possible overflow", "decreases not satisfied", "could not prove termination", "recommendation not met",
    "unable to prove", "requires not satisfied", "constructed value may fail", "bitvector", "split assertion failure",
    "cannot prove", "failed this", "obligation", "index out of bounds", "termination proof", "unreachable", "loop must have a decreases",
)
RLIMIT_MESSAGES = ("resource limit", "rlimit", "timed out", "out of memory")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout, cwd=None, env=None, mem=None):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -1000, o.decode("utf8", "replace"), e.decode("utf8", "replace")


class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="rgcheck-", dir="/tmp")
        shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        self.scratch = tempfile.mkdtemp(prefix="rgcheck-", dir=shm)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.scratch, ignore_errors=True)


# ---------------------------------------------------------------- building

def build_vext():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET)
    env.pop("RUSTFLAGS", None)
    r, o, e = run(["cargo", "build", "--release", "--offline", "--quiet"], 600, os.path.join(VERIF, "vext"), env)
    exe = os.path.join(TARGET, "release", "vext")
    return exe if r == 0 and os.path.exists(exe) else None, e


def build_harness(work):
    """with the hooks; without them if /repo has changed so that they no longer compile"""
    src = os.path.join(VERIF, "harness")
    if REPO != "/repo":
        src = os.path.join(work.dir, "harness")
        shutil.copytree(os.path.join(VERIF, "harness"), src, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(src, "Cargo.toml")
        t = open(p).read().replace('"/repo"', '"%s"' % REPO)
        open(p, "w").write(t)
    notes = []
    for hooked in (True, False):
        tdir = os.path.join(TARGET, "h" if hooked else "hn")
        env = dict(os.environ, CARGO_TARGET_DIR=tdir)
        env["RUSTFLAGS"] = "--cfg rusty_git_verif" if hooked else ""
        r, o, e = run(["cargo", "build", "--offline", "--quiet"], 600, src, env)
        exe = os.path.join(tdir, "debug", "rg-harness")
        if r == 0 and os.path.exists(exe):
            lib = os.path.join(work.dir, "fault.so")
            r, o, e = run(["gcc", "-shared", "-fPIC", "-O1", "-o", lib, os.path.join(src, "fault.c"), "-ldl"], 120)
            mine = os.path.join(work.dir, "rg-harness")
            shutil.copy2(exe, mine)
            return mine, (lib if r == 0 else None), hooked, notes
        notes.append(("with hooks: " if hooked else "without hooks: ") + "; ".join(re.findall(r"^error.*", e, re.M)[:4]))
    return None, None, False, notes


# ---------------------------------------------------------------- the proof

class Fn:
    def __init__(self, c):
        (self.kind, self.src, self.key, gen, srcl, self.module) = c[:6]
        c = c + [""] * (11 - len(c))
        self.lost, self.unknown, self.inlined, self.locals, self.reason = c[6:11]
        m = re.match(r"(\d+)-(\d+)", gen or "")
        self.lo, self.hi = (int(m.group(1)), int(m.group(2))) if m else (0, -1)
        self.srcl = srcl
        self.id = self.src + "|" + self.key
        self.errors = []
        self.time = 0.0

    def intact(self):
        return self.kind == "fn" and not self.lost and not self.unknown


def read_map(path):
    out = []
    for l in open(path):
        c = l.rstrip("\n").split("\t")
        if len(c) >= 6:
            out.append(Fn(c))
    return out


def verus(rs, extra, timeout):
    cmd = ["verus", "--triggers-mode", "silent", os.path.basename(rs), "--output-json", "--time-expanded", "--error-format=json", "--num-threads", str(max(2, NCPU - 2))] + extra
    r, o, e = run(cmd, timeout, os.path.dirname(rs))
    try:
        j = json.loads(o)
    except ValueError:
        j = None
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("$message_type") == "diagnostic" and d.get("level") == "error" and not d["message"].startswith("aborting"):
                diags.append(d)
    return r, j, diags, e, " ".join(cmd)


def own_lines(d, name):
    """(primary lines, all lines) of a diagnostic in the generated file"""
    prim, rest = [], []
    for s in d["spans"]:
        if os.path.basename(s["file_name"]) == name:
            (prim if s["is_primary"] else rest).append((s["line_start"], s["line_end"], s.get("label")))
    return prim, rest


def locate(fns, d, name):
    prim, rest = own_lines(d, name)
    # the smallest function which contains a span: a failed precondition points
    # at the call and at the callee's clause, a failed postcondition at the
    # clause and at the exit
    cands = []
    for (a, b, lab) in prim + rest:
        for f in fns:
            if f.kind in ("fn", "external", "trusted") and f.lo <= a and b <= f.hi:
                cands.append((f, lab or "", a))
    return cands


class Proof:
    """everything the verifier said about the current source"""

    def __init__(self):
        self.ok = False          # it ran to the end
        self.fns = []
        self.notes = []
        self.cmd = ""
        self.lemmas = {}         # name -> (module, success)
        self.loose = []          # errors outside of any extracted function
        self.times = {}
        self.seconds = 0.0
        self.smt_ms = 0
        self.verified = self.errors = 0
        self.externals = {}
        self.raw = ""


def attribute(fns, diags, name):
    """the errors of each function, and those outside of any"""
    errors, loose = {}, []
    for d in diags:
        got = locate(fns, d, name)
        msg = d["message"]
        fn = None
        if got:
            if "precondition" in msg:
                # the call, not the callee's clause
                c = [g for g in got if g[0].kind == "fn" and "failed precondition" not in g[1]]
                fn = (c or got)[0][0]
            else:
                c = [g for g in got if g[0].kind == "fn"]
                fn = (c or got)[0][0]
        text = ""
        for s in d["spans"]:
            if s["text"]:
                text += "    %s line %d: %s  %s\n" % ("*" if s["is_primary"] else " ", s["line_start"], s["text"][0]["text"].strip()[:200], s.get("label") or "")
        rl = any(k in msg.lower() for k in RLIMIT_MESSAGES)
        item = {"message": msg, "detail": text, "rlimit": rl, "line": (own_lines(d, name)[0] or [(0, 0, None)])[0][0]}
        if fn is not None and fn.kind == "fn":
            errors.setdefault(fn.id, []).append(item)
        else:
            loose.append(item)
    return errors, loose


def prove(vext, work, modules, vacuity=False):
    p = Proof()
    t = time.time()
    name = "vac" if vacuity else "o"
    rs, mp = os.path.join(work.dir, name + ".rs"), os.path.join(work.dir, name + ".map")
    ext = {}
    j = None
    # all of it within ten minutes, so that there is time for the search
    left = (lambda n: max(45, min(n, 520 - (time.time() - t)))) if TIER == "quick" else (lambda n: n)
    for attempt in range(8):
        cmd = [vext, REPO, os.path.join(VERIF, "contracts"), rs, mp]
        for k in ext:
            cmd += ["--external", k]
        if vacuity:
            cmd += ["--vacuity-full" if TIER == "thorough" else "--vacuity"]
        r, o, e = run(cmd, 120)
        if r != 0:
            p.notes.append("extraction failed: " + e.strip()[-600:])
            return p
        p.fns = read_map(mp)
        extra = []
        for m in modules:
            extra += ["--verify-module", m]
        if vacuity:
            extra += ["--multiple-errors", "6", "--rlimit", "3"]
        else:
            extra += ["--multiple-errors", "1" if TIER == "quick" else "3"]
        if TIER == "thorough" and not vacuity:
            extra += ["--rlimit", "40"]
        r, j, diags, err, p.cmd = verus(rs, extra, left(400))
        res = (j or {}).get("verification-results", {})
        compiled = j is not None and not res.get("encountered-vir-error", False) and (res.get("verified", 0) + res.get("errors", 0) > 0)
        if compiled:
            break
        # functions which the verifier does not take: set them aside, and say so
        new = {}
        where = []
        for d in diags:
            got = locate(p.fns, d, name + ".rs")
            prim = [(a, b) for (a, b, _) in own_lines(d, name + ".rs")[0]]
            got1 = [g for g in got if any(g[0].lo <= a <= g[0].hi for (a, b) in prim)] or got
            if got1:
                for g in got1:
                    if g[0].kind == "fn":
                        new[g[0].id] = d["message"][:200]
            else:
                where.append(d["message"][:200])
        new = {k: v for k, v in new.items() if k not in ext}
        if not new:
            p.notes.append("the verifier does not take the extracted crate: " + " / ".join(where[:4] or [d["message"][:200] for d in diags[:4]] or [err[-300:]]))
            return p
        ext.update(new)
    else:
        p.notes.append("the verifier does not take the extracted crate after setting aside " + ", ".join(ext))
        return p
    p.externals = ext
    p.ok = True
    res = j["verification-results"]
    p.verified, p.errors = res["verified"], res["errors"]
    smt = j.get("times-ms", {}).get("smt", {})
    p.smt_ms = smt.get("smt-run", 0)
    for m in smt.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            p.times.setdefault(m["module"], []).append((f["function"], f.get("mode:", f.get("mode")), f["time-micros"], f["success"]))
    p.raw = err
    errors, p.loose = attribute(p.fns, diags, name + ".rs")
    # a proof which fails may only have had bad luck: it is one if it succeeds with any seed of the solver
    for seed in ((7, 1234) if not vacuity else ()):
        if not errors and not p.loose:
            break
        extra2 = list(extra)
        if not p.loose:
            mods = {f.module for f in p.fns if f.id in errors}
            extra2 = [x for m in sorted(mods) for x in ("--verify-module", m)] + extra[2 * len(modules):]
        r2, j2, diags2, err2, _ = verus(rs, extra2 + ["--smt-option", "smt.random_seed=%d" % seed], left(300))
        res2 = (j2 or {}).get("verification-results", {})
        if j2 is None or res2.get("encountered-vir-error", False) or not res2.get("verified", 0) + res2.get("errors", 0):
            break
        errors2, loose2 = attribute(p.fns, diags2, name + ".rs")
        for k in list(errors):
            if k not in errors2:
                p.notes.append("proved with another seed of the solver: " + k)
                del errors[k]
        if not loose2:
            p.loose = []
    if not errors and not p.loose and p.errors:
        p.verified, p.errors = p.verified + p.errors, 0
    for f in p.fns:
        f.errors = errors.get(f.id, [])
    p.seconds = time.time() - t
    return p


# ---------------------------------------------------------------- the harness

def campaign(exe, lib, work, prop, millis, nproc, results):
    procs = []
    for i in range(nproc):
        d = os.path.join(work.dir, "run%d" % i)
        os.makedirs(d)
        sc = os.path.join(work.scratch, "s%d" % i)
        os.makedirs(sc)
        env = dict(os.environ, RG_SCRATCH=sc)
        if lib:
            env["RG_FAULT_LIB"] = lib

        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        lg = open(os.path.join(d, "log"), "w")
        procs.append((d, subprocess.Popen([exe, "run", prop, str(SEED * 1000 + i), str(millis), "1000000000", d], env=env, stdout=lg, stderr=lg, stdin=subprocess.DEVNULL, preexec_fn=pre), sc))
    end = time.time() + millis / 1000 + 150
    for d, p, sc in procs:
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            rc = -1000
            p.wait()
        results.append((d, rc))
        shutil.rmtree(sc, ignore_errors=True)


def confirm(exe, lib, work, case):
    """does the case fail again, on its own? Returns what happened or None."""
    sc = tempfile.mkdtemp(dir=work.scratch)
    env = dict(os.environ, RG_SCRATCH=sc)
    if lib:
        env["RG_FAULT_LIB"] = lib
    r, o, e = run([exe, "replay", case], 100, env=env, mem=12 << 30)
    shutil.rmtree(sc, ignore_errors=True)
    if r == 0:
        return None
    if r == -1000:
        return "the case does not end within 100 s"
    m = re.search(r"^FAILS: .*", o, re.M)
    if m:
        return m.group(0)[7:]
    if r == 101:
        return None
    return "the process dies (%d) %s" % (r, e.strip().replace("\n", " ")[-300:])


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


# ---------------------------------------------------------------- the check

def select(fns, roots):
    """the functions a property depends on, from the patterns in props.py"""
    out = []
    for pat in roots:
        src, _, key = pat.partition("|")
        # what is printed for debugging belongs to no property but the absence of panics
        hits = [f for f in fns if f.src == src and (f.key == key or (key == "*" and "Debug for" not in f.key) or (key == "Debug" and "Debug for" in f.key))]
        if not hits:
            out.append(Fn(["missing", src, key, "", "", ""]))
        out += hits
    seen, uniq = set(), []
    for f in out:
        if f.id not in seen:
            seen.add(f.id)
            uniq.append(f)
    return uniq


def trusted_items():
    """every unchecked item, read from the contract files on each run"""
    out = []
    for p in sorted(glob.glob(os.path.join(VERIF, "contracts", "*.vc"))):
        lines = open(p).read().split("\n")
        for i, l in enumerate(lines):
            m = re.search(r"assume_specification(?:<.*?>)?\s*\[\s*(.*?)\s*\]", l)
            if m:
                out.append("assumed contract: " + m.group(1))
            if "external_body" in l and not l.startswith("@struct"):
                for k in lines[i + 1:i + 8]:
                    m = re.search(r"\b(?:proof\s+)?fn\s+(\w+)|struct\s+(\w+)", k)
                    if m:
                        out.append("unverified body: " + (m.group(1) or m.group(2)) + " (" + os.path.basename(p) + ")")
                        break
            if re.search(r"\buninterp\b", l):
                m = re.search(r"fn\s+(\w+)", l)
                if m:
                    out.append("uninterpreted: " + m.group(1))
            m = re.match(r"@fn (\S+) ;;.*\btrusted=(\S+)", l)
            if m:
                out.append("trusted contract: %s (%s)" % (m.group(1), m.group(2).replace("~", " ")))
    return sorted(set(out))


def check(prop):
    cfg = PROPS[prop]
    work = Work()
    try:
        return check_in(prop, cfg, work)
    finally:
        work.close()


def check_in(prop, cfg, work):
    roots = cfg.get("roots", [])
    state = {}
    th = threading.Thread(target=lambda: state.update(zip(("exe", "lib", "hooked", "hnotes"), build_harness(work))))
    th.start()
    vext, verr = build_vext()
    proof = vac = None
    if roots and vext:
        mp, rs = os.path.join(work.dir, "m.map"), os.path.join(work.dir, "m.rs")
        r, o, e = run([vext, REPO, os.path.join(VERIF, "contracts"), rs, mp], 120)
        modules = []
        if r == 0:
            fns = read_map(mp)
            for f in select(fns, roots):
                if f.module and f.module not in modules:
                    modules.append(f.module)
            for m in cfg.get("lemma_modules", []):
                if m not in modules:
                    modules.append(m)
        th2 = threading.Thread(target=lambda: state.update(vac=prove(vext, work, modules, True)))
        th2.start()
        proof = prove(vext, work, modules)
        th2.join()
        vac = state.get("vac")
    elif roots:
        log("the extractor does not build:", verr[-400:])
    th.join()
    exe, lib, hooked = state.get("exe"), state.get("lib"), state.get("hooked")

    millis = cfg.get("millis", 15000) if TIER == "quick" else cfg.get("thorough_millis", 240000)
    results = []
    nproc = max(2, NCPU)
    if exe:
        campaign(exe, lib, work, prop, millis, nproc, results)
    cov = {"cases": 0, "operations": 0, "nontrivial": 0, "distinct": 0, "accepting": 0}
    samples, fails, odd = [], [], []
    for d, rc in results:
        rf = os.path.join(d, "result.json")
        if rc == 0 and os.path.exists(rf):
            j = json.load(open(rf))
            for k in cov:
                cov[k] += j[k]
            samples += j["samples"][:1]
            for f in j["failures"]:
                fails.append((f["file"], f["error"], f["brief"]))
        else:
            cur = os.path.join(d, "current.hang" if os.path.exists(os.path.join(d, "current.hang")) else "current")
            if os.path.exists(cur):
                fails.append((cur, "the process ended with %d" % rc, ""))
            else:
                odd.append("a run ended with %d: %s" % (rc, open(os.path.join(d, "log")).read()[-300:]))

    # --- failing inputs of the real code
    out_dir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(out_dir, exist_ok=True)
    violations = []
    known = known_findings(prop)
    known_hit = set()
    for f, err, brief in fails:
        again = confirm(exe, lib, work, f)
        if again is None:
            odd.append("not reproduced: " + err[:200])
            continue
        sig = again + " " + brief
        k = [i for i, (pat, _) in enumerate(known) if re.search(pat, sig)]
        if k:
            known_hit.update(k)
            continue
        h = hashlib.sha1(open(f, "rb").read()).hexdigest()[:12]
        dst = os.path.join(out_dir, "%s-%s.case" % (prop, h))
        shutil.copy(f, dst)
        violations.append((dst, again, brief))
        if len(violations) >= 2:
            break

    # --- obligations
    sel = select(proof.fns, roots) if proof else []
    failed, undecided, discharged = [], [], []
    vacuous = []
    n_obl = n_dis = 0
    if proof:
        if not proof.ok:
            undecided = [(f, "; ".join(proof.notes)) for f in sel]
        else:
            for f in sel:
                if f.kind == "trusted":
                    continue
                n_obl += 1
                if f.kind == "missing":
                    undecided.append((f, "no such function in the current source"))
                elif f.kind == "external":
                    undecided.append((f, "outside of the verifier's reach: " + proof.externals.get(f.id, "not processed by the extractor")))
                elif f.errors:
                    if not f.intact():
                        undecided.append((f, "its proof no longer applies to the code (%s)" % (f.lost or f.unknown)))
                    elif all(e["rlimit"] for e in f.errors):
                        undecided.append((f, "resource limit"))
                    else:
                        failed.append(f)
                else:
                    n_dis += 1
                    discharged.append(f)
            mods = {f.module for f in sel} | set(cfg.get("lemma_modules", []))
            for m in mods:
                for (name, mode, us, okk) in proof.times.get(m, []):
                    if mode == "proof":
                        n_obl += 1
                        if okk:
                            n_dis += 1
            lem = [(m, n) for m in mods for (n, mode, us, okk) in proof.times.get(m, []) if mode == "proof" and not okk]
            if vac and vac.ok:
                for f in vac.fns:
                    if f.kind == "fn" and f.id in {x.id for x in discharged}:
                        if not any("assertion failed" in e["message"] for e in f.errors) and not any(e["rlimit"] for e in f.errors):
                            vacuous.append(f.key)
    for f in undecided:
        log("not proved:", f[0].id, "-", f[1][:300])
    for f in failed:
        log("FAILED:", f.id, [e["message"] for e in f.errors][:3])
    for k in vacuous:
        log("vacuous:", k)

    nfi = []
    if failed and not violations:
        dst = os.path.join(out_dir, "%s-obligations.txt" % prop)
        with open(dst, "w") as w:
            w.write("Obligations of property %s which the verifier does not accept on the current source.\n" % prop)
            w.write("No failing input was found (%d cases tried).\n\nverifier: %s\n\n" % (cov["cases"], proof.cmd))
            for f in failed:
                w.write("%s %s (source lines %s)\n" % (f.src, f.key, f.srcl))
                for e in f.errors:
                    w.write("  %s\n%s" % (e["message"], e["detail"]))
                w.write("\n")
        nfi.append(dst)

    level = cfg["level"]
    wall = time.time() - T0
    trusted = TRUSTED_ALWAYS + trusted_items() if roots else ["no obligation: bounded check only"]
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": level,
        "coverage": {
            "obligations": n_obl, "discharged": n_dis,
            "checker_cmd": (proof.cmd + "   (on the crate vext extracts from " + REPO + "/src and /verif/contracts)") if proof else "none",
            "trusted_base": trusted,
            "functions_under_contract": [f.src + " " + f.key for f in discharged],
            "functions_not_proved": [f[0].id + ": " + f[1][:300] for f in undecided] + [f.id + ": obligation failed" for f in failed],
            "functions_with_vacuous_contract": vacuous,
            "vacuity_check": ("assert(false) is refused at the start and at the end of every function" if TIER == "thorough" else "assert(false) is refused under the preconditions of every function") if vac and vac.ok else "did not run",
            "back_end": "Verus 0.2026.09.13 with Z3",
            "solver_ms": proof.smt_ms if proof else 0,
            "verifier_s": round(proof.seconds, 1) if proof else 0,
            "evaluations": cov["cases"], "distinct_nontrivial": cov["distinct"],
            "operations": cov["operations"],
            "rule": "seeded cases of the generators for this property, run on the real crate and compared with an independent oracle; a case is non-trivial when it has an expectation on an answer (or feeds arbitrary bytes to a decoder), and distinct by its full text",
            "bounded": cfg.get("bounded", ""),
            "hooks": bool(hooked),
            "samples": samples[:4] or ["none"],
        },
        "assumptions": cfg.get("assumptions", []) + (state.get("hnotes") or []) + odd + (proof.notes if proof else []),
        "wall_s": round(wall, 1),
        "violations": len(violations) + len(nfi),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    for i in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[i][1]))
    print("%s: %d of %d obligations discharged (%d functions), %d cases on the real code (%d distinct), hooks %s, %.0f s"
          % (prop, n_dis, n_obl, len(discharged), cov["cases"], cov["distinct"], "on" if hooked else "off", wall))
    for dst, again, brief in violations:
        print("failing input: %s" % again[:600])
        if failed:
            print("failed obligations: %s" % ", ".join(f.key for f in failed))
        print("VIOLATION property=%s replay=%s" % (prop, dst))
    for dst in nfi:
        print("failed obligations: %s" % ", ".join(f.src + " " + f.key for f in failed))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, dst))
    return 1 if violations or nfi else 0


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        work = Work()
        try:
            if sys.argv[2].endswith(".txt"):
                print(open(sys.argv[2]).read())
                return 1
            exe, lib, hooked, notes = build_harness(work)
            r = confirm(exe, lib, work, os.path.abspath(sys.argv[2]))
            print(r or "the case holds")
            return 1 if r else 0
        finally:
            work.close()
    if len(sys.argv) != 2 or sys.argv[1] not in PROPS:
        print("usage: check.py PROPERTY | check.py replay FILE", file=sys.stderr)
        return 2
    return check(sys.argv[1])


if __name__ == "__main__":
    sys.exit(main())
