#!/usr/bin/env python3
"""Solver-based checking of /repo's current sources.

  vprun.py check C01 [--tier quick|thorough]   decide one property (exit 0 / exit 1 + VIOLATION line)
  vprun.py harness NAME [...]                  run single harnesses and print every non-success
  vprun.py list                                list harnesses
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
REF = REPO + "/reference"
SRC = REF + "/src"
JOBS = int(os.environ.get("VP_JOBS", "8"))

sys.path.insert(0, VERIF)
import registry  # noqa: E402

INC = ["-I" + VERIF + "/env", "-I" + VERIF + "/harness"] + ["-I%s/%s" % (SRC, d) for d in (
    "taimpl/include", "client/include", "util/include", "taimpl/include/internal",
    "clientimpl/include", "clientimpl/include/internal", "clientimpl/include/porting", "clientimpl/src/internal",
    "clientimpl/src/porting", "taimpl/src/internal", "taimpl/src/porting")] + ["-isystem", REF + "/include"]
DEFS = ["-DENABLE_SOC_KEY_TESTS", "-D_GNU_SOURCE", "-std=gnu11", "-w"]
CBMC_FLAGS = ["--no-malloc-may-fail", "--drop-unused-functions", "--unwinding-assertions", "--slice-formula"]
NOSAFETY = ["--no-standard-checks"]
# Encoding-size reduction (stated in every evidence file): the session and per-session pools of 256 slots are
# compiled with 32 slots in the harnesses that build a whole session; the slot allocator itself is checked at 256.
POOLS = [(r"(#\s*define\s+NUM_[A-Z_]*SLOTS\s+)256\b", r"\g<1>32")]
SMALL = {"client/include/sa_types.h": [(r"(#\s*define\s+MAX_NUM_ALLOWED_TA_IDS\s+)32\b", r"\g<1>2"), (r"(#\s*define\s+DH_MAX_MOD_SIZE\s+)512\b", r"\g<1>128")]}
WRAPS = ["time", "pthread_mutex_init", "pthread_mutex_lock", "pthread_mutex_unlock", "sleep"]


def log(*a):
    print(*a, flush=True)


def limits(mem_gb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * (1 << 30)),) * 2)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, timeout, mem_gb=14, **kw):
    """Run with a time and memory cap; kill the whole group at the end. -> (rc | None on timeout, out, err, secs)"""
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits(mem_gb) if mem_gb else os.setsid, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        rc = None
    return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), time.time() - t0


# ------------------------------------------------------------------------------------------------ building
def repo_sources(h):
    """Every C source of the trusted application (and of util), minus those the harness replaces by a model."""
    pats = h.get("trees", ["taimpl/src", "util/src"])
    files = []
    for t in pats:
        files += sorted(glob.glob("%s/%s/**/*.c" % (SRC, t), recursive=True))
    drop = h["replaced"]
    return [f for f in files if not any(f.endswith("/" + d) for d in drop)]


class Build:
    def __init__(self, work):
        self.work = work
        self.cache = {}

    def prepared(self, f, transforms):
        """Path of the file to compile: the file itself, or a copy with the declared reductions applied."""
        text = open(f, errors="replace").read()
        new = text
        for a, b in transforms:
            new = re.sub(a, b, new)
        if new == text:
            return f
        out = os.path.join(self.work, "x" + hashlib.sha1((f + repr(transforms)).encode()).hexdigest()[:10] + "_" + os.path.basename(f))
        if not os.path.exists(out):
            tmp = out + ".%d" % os.getpid()
            with open(tmp, "w") as o:
                o.write('#line 1 "%s"\n' % f + new)
            os.replace(tmp, out)
        return out

    def forced(self, h):
        """Reduced copies of headers, force-included so that their include guard wins."""
        out = []
        for rel, subs in h.get("headers", SMALL).items():
            f = os.path.join(SRC, rel)
            if os.path.exists(f):
                p = self.prepared(f, subs)
                if p != f:
                    out += ["-include", p]
        return out

    def obj(self, f, defs, transforms, native=None):
        key = hashlib.sha1(repr((f, defs, transforms, native)).encode()).hexdigest()[:14]
        return os.path.join(self.work, os.path.basename(f)[:-2] + "." + key + (".o" if native else ".gb"))

    def compile(self, f, defs, transforms, native=None):
        out = self.obj(f, defs, transforms, native)
        if os.path.exists(out):
            return out, None
        src = self.prepared(f, transforms)
        inc = INC + ["-I" + os.path.dirname(f)]
        tmp = out + ".t%d" % os.getpid()
        if native:
            cmd = native + ["-DVP_REPLAY"] + DEFS + defs + inc + ["-c", src, "-o", tmp]
        else:
            cmd = ["goto-cc", "-DVP_CBMC"] + DEFS + defs + inc + ["-c", src, "-o", tmp]
        rc, o, e, _ = run(cmd, 120, None)
        if rc != 0:
            return None, (o + e)[-2000:]
        os.replace(tmp, out)
        return out, None

    def units(self, h, native=False):
        tr = POOLS if h.get("pools", True) else []
        tr = tr + [tuple(x) for x in h.get("transforms", [])]
        hdr = self.forced(h)
        dfs = ["-D" + d for d in h.get("defs", [])] + hdr
        if h.get("havoc_log"):
            dfs += ["-DVP_HAVOC_LOG=%d" % h["havoc_log"]]
        if h.get("pid"):
            dfs += ["-DVP_PROP=%d" % int(h["pid"][1:])]
        u = [(f, hdr, tr) for f in repo_sources(h)]
        u += [(VERIF + "/env/" + e, dfs, []) for e in h["env"]]
        u += [(VERIF + "/harness/" + h["file"], dfs, [])]
        u += [(VERIF + "/env/" + ("vp_replay.c" if native else "vp_cbmc.c"), dfs, [])]
        return u

    def build_all(self, hs, pool):
        todo = {}
        for h in hs:
            for u in self.units(h):
                todo[self.obj(*u)] = u
        res = dict(zip(todo, pool.map(lambda u: self.compile(*u), todo.values())))
        return {k: v[1] for k, v in res.items() if v[1]}

    def link(self, h):
        out = os.path.join(self.work, h["name"] + ".goto")
        objs = [self.obj(*u) for u in self.units(h)]
        missing = [o for o in objs if not os.path.exists(o)]
        if missing:
            return None, "not compiled: " + ", ".join(os.path.basename(m) for m in missing)
        rc, o, e, _ = run(["goto-cc"] + objs + ["--function", "HARNESS", "-o", out], 120, None)
        if rc == 0 and h.get("instrument"):
            rc, o, e, _ = run(["goto-instrument"] + h["instrument"] + [out, out + ".ins"], 120, None)
            out += ".ins"
        if rc != 0:
            return None, (o + e)[-2000:]
        return out, None

    def native(self, h, cc, san, pool):
        flags = [cc, "-g", "-O0", "-ffunction-sections", "-fdata-sections", "-fno-omit-frame-pointer"] + san
        us = self.units(h, True)
        ins = tuple("/" + x for x in h.get("trace_pc", []))
        rs = list(pool.map(lambda u: self.compile(u[0], u[1], u[2], flags + (["-fsanitize-coverage=trace-pc"] if ins and u[0].endswith(ins) else [])), us))
        bad = [e for o, e in rs if e]
        if bad:
            return None, bad[0]
        out = os.path.join(self.work, h["name"] + "." + cc + ".replay")
        cmd = [cc] + san + [o for o, _ in rs] + ["-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-no-pie",
                                               "-Wl,-z,lazy", "-Wl,--allow-multiple-definition", "-lpthread", "-o", out]
        cmd += ["-Wl,--wrap=" + w for w in WRAPS]
        rc, o, e, _ = run(cmd, 120, None)
        if rc != 0:
            return None, (o + e)[-2000:]
        return out, None


# ------------------------------------------------------------------------------------------------ solving
def cbmc_cmd(h, goto, unwind=None):
    cmd = ["cbmc", goto, "--json-ui", "--verbosity", "8", "--object-bits", str(h.get("object_bits", 10)), "--unwind", str(unwind or h["unwind"])]
    us = ["vp_log_bytes.0:%d" % h.get("log_unwind", 2400), "vp_havoc.0:%d" % (h.get("havoc_log", 160) + 2), "ffs.0:34",
          "strnlen.0:%d" % h.get("strnlen", 70), "strlen.0:%d" % h.get("strlen", 70), "vp_fill.0:%d" % h.get("fill", 1200)]
    us += h.get("unwindset", [])
    cmd += ["--unwindset", ",".join(us)]
    cmd += CBMC_FLAGS
    if h.get("pid") and h["pid"] not in h.get("safety", "").split():
        cmd += NOSAFETY
    cmd += ["--sat-solver", h.get("solver", "cadical")]
    cmd += h.get("flags", [])
    return cmd


def parse(out):
    try:
        return json.loads(out)
    except ValueError:
        i = out.rfind("\n}")
        for cut in (out + "]", out[:i + 2] + "]" if i > 0 else out):
            try:
                return json.loads(cut)
            except ValueError:
                pass
    return None


def classify(r):
    d, p = r.get("description", ""), r.get("property", "")
    if d.startswith("REACH: "):
        return "reach"
    if ".no-body." in p:
        return "nobody"
    if ".unwind." in p or ".recursion" in p or d.startswith("unwinding assertion") or d.startswith("recursion unwinding"):
        return "unwind"
    if d.startswith("PROP: "):
        return "prop"
    if d.startswith("ENV: "):
        return "env"
    return "safety"


def solve(h, goto, timeout, unwind=None):
    cmd = cbmc_cmd(h, goto, unwind)
    rc, out, err, secs = run(cmd, timeout, h.get("mem", 12))
    r = {"name": h["name"], "secs": secs, "cmd": " ".join(cmd), "failed": [], "reach_ok": [], "reach_missing": [], "nobody": [],
         "unwind": [], "counts": {}, "functions": set(), "n": 0, "passed": 0, "status": "ok", "vars": 0, "clauses": 0, "vcc": 0, "solver_s": 0.0,
         "symex_s": 0.0}
    for m in re.finditer(r"(\d+) variables, (\d+) clauses", out):
        r["vars"], r["clauses"] = max(r["vars"], int(m[1])), max(r["clauses"], int(m[2]))
    m = re.search(r"Generated (\d+) VCC", out)
    r["vcc"] = int(m[1]) if m else 0
    r["queries"] = len(re.findall(r"SAT checker: instance is", out))
    r["solver_s"] = sum(float(x) for x in re.findall(r"Runtime Solver: ([\d.e+-]+)s", out))
    m = re.search(r"Runtime Symex: ([\d.e+-]+)s", out)
    r["symex_s"] = float(m[1]) if m else 0.0
    if rc is None:
        r["status"], r["why"] = "inconclusive", "time cap %ds" % timeout
        return r
    doc = parse(out)
    res = None
    if doc:
        for x in doc:
            if isinstance(x, dict) and "result" in x:
                res = x["result"]
    if res is None:
        r["status"], r["why"] = "inconclusive", "no verdict (rc=%s): %s" % (rc, (out[-600:] + err[-300:]).replace("\n", " "))
        return r
    if any(x["status"] not in ("SUCCESS", "FAILURE") for x in res):
        r["status"], r["why"] = "inconclusive", "solver gave up (rc=%s): %s" % (rc, "; ".join(re.findall(r'"messageText": "([^"]*)",\s*"messageType": "ERROR"', out))[:300])
        return r
    for x in res:
        k = classify(x)
        loc = x.get("sourceLocation", {})
        f = loc.get("file", "")
        if f.startswith(REPO + "/"):
            r["functions"].add(os.path.basename(f) + ":" + loc.get("function", "?"))
        ok = x["status"] == "SUCCESS"
        if k == "reach":
            (r["reach_missing"] if ok else r["reach_ok"]).append(x["description"][7:])
            continue
        if k == "nobody":
            if not ok:
                r["nobody"].append(x["property"].split(".no-body.")[-1])
            continue
        if k in ("safety", "env") and h.get("pid") and h["pid"] not in h.get("safety", "").split():
            continue  # memory safety belongs to other properties
        r["n"] += 1
        r["counts"][k] = r["counts"].get(k, 0) + 1
        if ok:
            r["passed"] += 1
        elif k == "unwind":
            r["unwind"].append(x)
        else:
            r["failed"].append({"property": x["property"], "kind": k, "description": x["description"], "file": f, "line": loc.get("line"),
                                "function": loc.get("function")})
    if r["failed"]:
        r["status"] = "fail"
    elif r["unwind"]:
        r["status"] = "unwind"
    elif r["reach_missing"]:
        r["status"], r["why"] = "vacuous", "not reachable: " + "; ".join(r["reach_missing"])
    elif not r["n"]:
        r["status"], r["why"] = "vacuous", "no obligations"
    return r


def trace(h, goto, prop, timeout, unwind=None):
    """Solver's values for one failing assertion, in program order."""
    cmd = cbmc_cmd(h, goto, unwind) + ["--property", prop, "--trace"]
    rc, out, err, secs = run(cmd, timeout, h.get("mem", 20))
    doc = parse(out) if rc is not None else None
    if not doc:
        log("  (no trace: rc=%s %.0fs %s %s)" % (rc, secs, out[-200:].replace("\n", " "), err[-200:]))
        return None
    for x in doc:
        if isinstance(x, dict) and "result" in x:
            for r in x["result"]:
                if r.get("property") == prop and r.get("trace"):
                    vals, locs, stack = [], [], []
                    dbg = open(os.environ["VP_TRACE"], "w") if os.environ.get("VP_TRACE") else None
                    for s in r["trace"]:
                        if s.get("stepType") == "input" and s.get("inputID") == "nd" and stack and stack[-1] != "__CPROVER_initialize":
                            v = (s.get("values") or [{}])[0]
                            b = v.get("binary")
                            vals.append(int(b, 2) if b else int(re.sub(r"[a-zA-Z]+$", "", v.get("data", "0")) or 0))
                            if dbg:
                                dbg.write("%d %s\n" % (vals[-1], " < ".join(stack[-1:-5:-1])))
                        if s.get("stepType") == "function-call":
                            locs.append(s.get("function", {}).get("displayName", "?"))
                            stack.append(locs[-1])
                        if s.get("stepType") == "function-return" and stack:
                            stack.pop()
                    return vals, locs
    return None


def replay(h, build, pool, vals, dest, fail):
    """Run the same harness natively over the real code with the solver's values."""
    vf = dest + ".values"
    with open(vf, "w") as f:
        f.write("\n".join(map(str, vals)) + "\n")
    attempts = []
    for cc, san in (("gcc", ["-fsanitize=address,undefined", "-fno-sanitize=alignment,shift,nonnull-attribute", "-fsanitize-recover=undefined"]),
                    ("clang", ["-fsanitize=memory"])):
        exe, err = build.native(h, cc, san, pool)
        if not exe:
            attempts.append("%s build failed: %s" % (cc, err))
            continue
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=1:halt_on_error=1",
                   UBSAN_OPTIONS="print_stacktrace=1", MSAN_OPTIONS="halt_on_error=1")
        rc, out, er, secs = run([exe, vf], 20, None, env=env)
        text = out + er
        attempts.append("[%s rc=%s] %s" % (cc, rc, text[-3000:]))
        if fail["kind"] in ("prop", "env"):
            if "REPLAY-FAIL" in out:
                return True, "\n".join(attempts)
        if rc is None:
            return True, "\n".join(attempts) + "\nnative run does not terminate (20 s cap)"
        if "AddressSanitizer" in text or "MemorySanitizer" in text or (rc is not None and rc < 0):
            return True, "\n".join(attempts)
        if fail["kind"] == "safety" and "runtime error:" in text:
            return True, "\n".join(attempts)
    return False, "\n".join(attempts)


# ------------------------------------------------------------------------------------------------ checks
def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def known_for(known, pid, h, f):
    for k in known:
        if k.get("status") != "known" or k.get("property") != pid or k.get("harness") != h["name"]:
            continue
        if k.get("function") and k["function"] != f.get("function"):
            continue
        if re.search(k["assertion"], f["description"]):
            return k
    return None


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    hs = [dict(h, pid=pid) for h in registry.HARNESSES if pid in h["props"] and (tier == "thorough" or not h.get("thorough_only"))]
    if tier == "thorough":
        hs = [dict(h, **h.get("thorough", {})) for h in hs]
    work = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    known = load_known()
    violations, notes, results = [], [], []
    cap = 3000 if tier == "thorough" else int(os.environ.get("VP_CAP", "420"))
    try:
        b = Build(work)
        with cf.ThreadPoolExecutor(JOBS) as pool:
            bad = b.build_all(hs, pool)

            def one(h):
                goto, err = b.link(h)
                if not goto:
                    return h, {"name": h["name"], "status": "inconclusive", "why": "cannot encode: " + (next(iter(bad.values()), "") or err or "")[-800:], "secs": 0,
                               "functions": set(), "n": 0, "passed": 0, "failed": []}, None
                r = solve(h, goto, h.get("cap", cap))
                uw = None
                if r["status"] == "unwind":
                    uw = h["unwind"] * 2 + 8
                    r2 = solve(h, goto, h.get("cap", cap), uw)
                    if r2["status"] in ("fail", "ok"):
                        r2["secs"] += r["secs"]
                        r = r2
                        r["note"] = "loop bound raised to %d" % uw
                    else:
                        r["status"] = "unwind"
                return h, r, (goto, uw)
            order = sorted(hs, key=lambda h: -h.get("weight", 10))
            results = list(pool.map(one, order))
            budget_end = t0 + (780 if tier == "quick" else 20000)
            for h, r, g in results:
                if r["status"] in ("fail", "unwind") and g:
                    fails = r["failed"] if r["status"] == "fail" else [
                        {"property": x["property"], "kind": "unwind", "description": x["description"], "file": x.get("sourceLocation", {}).get("file", ""),
                         "line": x.get("sourceLocation", {}).get("line"), "function": x.get("sourceLocation", {}).get("function")} for x in r["unwind"]]
                    left = []
                    for f in fails:
                        k = known_for(known, pid, h, f)
                        if k:
                            line = "KNOWN-FINDING: property=%s %s" % (pid, k["what"])
                            if line not in notes:
                                notes.append(line)
                        else:
                            left.append(f)
                    rank = {"prop": 0, "env": 1, "safety": 2, "unwind": 3}
                    left.sort(key=lambda f: rank[f["kind"]])
                    confirmed = False
                    tried = []
                    for f in left[:4]:
                        if time.time() > budget_end or violations:
                            break
                        t = trace(h, g[0], f["property"], max(60, min(h.get("cap", cap), budget_end - time.time())), g[1])
                        dest = os.path.join(rdir, "%s-%s-%s" % (pid, h["name"], re.sub(r"\W+", "_", f["property"])))
                        if t is None:
                            tried.append((f, "no trace"))
                            continue
                        ok, text = replay(h, b, pool, t[0], dest, f)
                        with open(dest + ".txt", "w") as o:
                            o.write("property %s\nharness %s (%s)\nassertion %s\n  %s\n  at %s:%s in %s\nreproduced natively: %s\nvalues: %s.values\n\n%s\n\ncalls: %s\n" % (
                                pid, h["name"], h["file"], f["property"], f["description"], f["file"], f["line"], f["function"], ok, dest, text, " ".join(t[1][-60:])))
                        if ok:
                            violations.append((h["name"], f, dest + ".txt"))
                            confirmed = True
                            break
                        tried.append((f, text[-500:]))
                    r["confirmed"] = confirmed
                    if not confirmed and left and not violations:
                        r["status"] = "unconfirmed"
                        for f, text in tried:
                            notes.append("UNCONFIRMED property=%s harness=%s %s (%s at %s:%s): solver counterexample did not reproduce on the real code" % (
                                pid, h["name"], f["description"], f["property"], f["file"], f["line"]))
                elif r["status"] in ("inconclusive", "vacuous"):
                    notes.append("INCONCLUSIVE property=%s harness=%s %s" % (pid, h["name"], r.get("why", "")))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    decided = [r for _, r, _ in results if r["status"] == "ok"]
    fn = sorted(set().union(*[r["functions"] for _, r, _ in results])) if results else []
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the real sources (goto-cc + CBMC, SAT back end) regenerated from the working tree on this run; "
                           "each obligation below is decided for every value of the harness's symbolic inputs within the stated bounds.",
            "harnesses": [{
                "name": h["name"], "status": r["status"], "bounds": h.get("bounds", ""), "claim": h.get("claim", ""), "unwind": h["unwind"],
                "obligations": r["n"], "discharged": r["passed"], "by_kind": r.get("counts", {}), "queries": r.get("queries", 0),
                "solver_seconds": round(r.get("solver_s", 0), 2), "symex_seconds": round(r.get("symex_s", 0), 2), "wall_seconds": round(r["secs"], 2),
                "sat_variables": r.get("vars", 0), "sat_clauses": r.get("clauses", 0), "vccs": r.get("vcc", 0),
                "reachability_witnesses": r.get("reach_ok", []), "externals_left_arbitrary": sorted(set(r.get("nobody", []))), "why": r.get("why", ""),
                "note": r.get("note", "")} for h, r, _ in results],
            "functions_encoded": fn,
            "obligations": sum(r["n"] for _, r, _ in results), "discharged": sum(r["passed"] for _, r, _ in results),
            "harnesses_decided": len(decided), "harnesses_total": len(results),
            "queries": sum(r.get("queries", 0) for _, r, _ in results), "solver_seconds": round(sum(r.get("solver_s", 0) for _, r, _ in results), 2),
            "notes": notes,
        },
        "assumptions": registry.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for n in notes:
        log(n)
    for h, r, _ in results:
        log("  %-28s %-12s obligations %d/%d  solver %.1fs  wall %.1fs" % (h["name"], r["status"], r["passed"], r["n"], r.get("solver_s", 0), r["secs"]))
    if violations:
        name, f, path = violations[0]
        log("violated: %s (%s:%s %s) in harness %s" % (f["description"], f["file"], f["line"], f["function"], name))
        log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if results and not any(r["status"] in ("ok", "unconfirmed", "fail", "unwind") for _, r, _ in results):
        log("no harness of %s could be decided" % pid)
        return 2
    log("property %s held on everything explored (%d harnesses, %d obligations, %.0fs)" % (pid, len(results), ev["coverage"]["discharged"], ev["wall_s"]))
    return 0


def one_harness(names, keep):
    work = tempfile.mkdtemp(prefix="vp-h-")
    b = Build(work)
    try:
        hs = [h for h in registry.HARNESSES if any(re.fullmatch(n, h["name"]) for n in names)]
        if os.environ.get("VP_PID"):
            hs = [dict(h, pid=os.environ["VP_PID"]) for h in hs]
        with cf.ThreadPoolExecutor(JOBS) as pool:
            bad = b.build_all(hs, pool)
            for k, e in bad.items():
                log("COMPILE", k, e)

            def go(h):
                goto, err = b.link(h)
                if not goto:
                    return h, None, err
                return h, solve(h, goto, int(os.environ.get("VP_CAP", "420"))), goto
            for h, r, g in pool.map(go, hs):
                if r is None:
                    log(h["name"], "LINK", g)
                    continue
                log("== %s: %s %d/%d vcc %d vars %d symex %.1f solver %.1f wall %.1f %s nobody=%s reach=%s/%s" % (
                    h["name"], r["status"], r["passed"], r["n"], r["vcc"], r["vars"], r["symex_s"], r["solver_s"], r["secs"], r.get("why", ""), sorted(set(r["nobody"])),
                    len(r["reach_ok"]), len(r["reach_ok"]) + len(r["reach_missing"])))
                for x in r["reach_missing"]:
                    log("   UNREACHED", x)
                for x in r["unwind"]:
                    log("   UNWIND", x["property"], x.get("sourceLocation", {}).get("file"), x.get("sourceLocation", {}).get("line"))
                seen = set()
                for f in r["failed"]:
                    if (f["file"], f["line"], f["kind"]) in seen:
                        continue
                    seen.add((f["file"], f["line"], f["kind"]))
                    log("   FAIL", f["property"], f["description"], "%s:%s" % (f["file"], f["line"]))
                if keep and r["failed"]:
                    f = r["failed"][0]
                    t = trace(h, g, f["property"], 600)
                    if t:
                        ok, text = replay(h, b, pool, t[0], work + "/r", f)
                        log("   REPLAY of", f["property"], "reproduced" if ok else "NOT reproduced", "\n", text[-1800:])
                        log("   values", t[0][:60])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if a[:1] == ["check"]:
        sys.exit(check(a[1], tier))
    if a[:1] == ["harness"]:
        keep = "--replay" in a
        one_harness([x for x in a[1:] if not x.startswith("--")], keep)
        return
    if a[:1] == ["list"]:
        for h in registry.HARNESSES:
            log(h["name"], ",".join(h["props"]), h["file"])
        return
    print(__doc__)
    sys.exit(2)


if __name__ == "__main__":
    main()
