#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--only job] [--keep]
Decides one property of textwolf: compiles the harnesses of the property together with the headers of the
current tree (/repo/include) to LLVM bitcode, executes them symbolically (engine/bin/symx), replays every
counterexample natively (real compiler, AddressSanitizer / valgrind) and reports those that reproduce."""
import sys, os, json, subprocess, time, shutil, hashlib, concurrent.futures, re, tempfile, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import spec
REPO = os.environ.get("TEXTWOLF", "/repo")
NCPU = min(8, os.cpu_count() or 4)
CXXNATIVE = ["g++", "-std=gnu++98", "-g", "-O0", "-w", "-I" + REPO + "/include", "-I" + HERE + "/engine", "-I" + HERE + "/harness"]

def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd, start_new_session=True)
        return p.returncode, p.stdout.decode("latin-1")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("latin-1")

def die(msg):
    print("ERROR: " + msg); sys.exit(3)

def defs(job):
    return ["-D%s=%s" % (k, v) for k, v in sorted(job.get("defs", {}).items())]

def compile_bc(job, wd):
    out = os.path.join(wd, job["name"] + ".bc")
    rc, t = sh([HERE + "/engine/cc.sh", out, HERE + "/harness/" + job["src"]] + ["-I" + HERE + "/harness"] + job.get("symflags", []) + defs(job), timeout=240, env=dict(os.environ, TEXTWOLF=REPO))
    return (out, None) if rc == 0 else (None, t)

def compile_native(job, wd, kind):
    out = os.path.join(wd, job["name"] + "." + kind)
    if os.path.exists(out): return out, None
    fl = {"asan": ["-fsanitize=address,bounds,integer-divide-by-zero,bool,return,null", "-fno-sanitize-recover=undefined"], "plain": [], "opt": ["-O3"]}[kind]
    if not job.get("ubsan", True): fl = ["-fsanitize=address"] if kind == "asan" else fl
    rc, t = sh(CXXNATIVE + fl + job.get("natflags", []) + defs(job) + [HERE + "/harness/" + job["src"], HERE + "/engine/sym_native.cpp", "-o", out + ".tmp"], timeout=240)
    if rc != 0: return None, t
    os.rename(out + ".tmp", out); return out, None

def write_input(path, by, ch):
    with open(path, "w") as f:
        f.write(" ".join(str(b) for b in by) + "\n" + " ".join(str(c) for c in ch) + "\n")

def replay(job, wd, v, inp):
    """does the counterexample break the real code? returns (reproduced, how)"""
    env = dict(os.environ, SYM_INPUT=inp, ASAN_OPTIONS="detect_leaks=0:exitcode=44:allocator_may_return_null=1:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=0", SYM_ALARM=str(job.get("alarm", 10)))
    kind = v["kind"]
    if kind == "uninit":
        exe, err = compile_native(job, wd, "plain")
        if not exe: return False, "native build failed: " + err[-300:]
        rc, t = sh(["valgrind", "-q", "--error-exitcode=43", exe], timeout=120, env=dict(env, SYM_ALARM="100"))
        return (rc in (43, 42) or rc < 0), "valgrind exit %d: %s" % (rc, t[-400:])
    exe, err = compile_native(job, wd, "asan")
    if not exe: return False, "native build failed: " + err[-300:]
    rc, t = sh([exe], timeout=job.get("alarm", 10) + 30, env=env)
    how = "exit %d: %s" % (rc, t[-600:])
    if kind == "assert":
        return (rc == 42 or rc == 44 or (rc < 0)), how
    if kind == "nontermination":
        return (rc in (-14, 142, 124, 44, 42) or "AddressSanitizer" in t), how
    return (rc not in (0,)), how

def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"^finding: property=(\S+) job=(\S+) label=\"([^\"]*)\" (.*)$", l.strip())
            if m and m.group(1) == pid: out.append(m.groups())
    except OSError: pass
    return out

def main():
    args = sys.argv[1:]; pid = None; tier = os.environ.get("VERIF_TIER", "quick"); only = None; keep = False; i = 0
    while i < len(args):
        if args[i] == "--tier": tier = args[i + 1]; i += 2
        elif args[i] == "--only": only = args[i + 1]; i += 2
        elif args[i] == "--keep": keep = True; i += 1
        else: pid = args[i]; i += 1
    if pid not in spec.PROPS: die("unknown property %s" % pid)
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    prop = spec.PROPS[pid]; jobs = [dict(j) for j in prop["jobs"](tier)]
    if only: jobs = [j for j in jobs if re.search(only, j["name"])]
    rc, t = sh([HERE + "/engine/build.sh"], timeout=900)
    if rc != 0 or not os.path.exists(HERE + "/engine/bin/symx"): die("cannot build the engine: " + t[-2000:])
    wd = tempfile.mkdtemp(prefix="symx_%s_" % pid); tokens = os.path.join(wd, "tokens")
    budget = prop.get("budget", {}).get(tier, 240 if tier == "quick" else 3000)
    tend = t0 + budget
    # longest jobs first
    jobs.sort(key=lambda j: -j.get("cost", 1))
    for k, j in enumerate(jobs):
        j.setdefault("name", "%s_%d" % (os.path.splitext(j["src"])[0], k))
    def runjob(j):
        r = {"job": j["name"], "src": j["src"], "defs": j.get("defs", {}), "status": "ok"}
        bc, err = compile_bc(j, wd)
        if not bc: r["status"] = "compile error"; r["error"] = err[-3000:]; return r
        od = os.path.join(wd, j["name"] + ".out"); os.makedirs(od)
        tmo = max(5, min(j.get("timeout", budget), tend - time.time()))
        cmd = [HERE + "/engine/bin/symx", "--out", od, "--timeout", str(tmo), "--workers", str(NCPU), "--tokens", tokens, "--max-steps", str(j.get("max_steps", 400000)), "--cross-every", str(j.get("cross_every", 1000)), "--split-addr", str(j.get("split_addr", 0))]
        if os.environ.get("VERIF_STOP"): cmd += ["--stop-viol", os.environ["VERIF_STOP"]]
        if tier == "thorough": cmd += ["--dump", od, "--dump-every", "50"]
        cmd += [bc, HERE + "/engine/bin/rt.bc"]
        ts = time.time(); rc, t = sh(cmd, timeout=tmo + 150); r["wall_s"] = round(time.time() - ts, 2)
        if rc != 0 or not os.path.exists(od + "/done"): r["status"] = "engine error"; r["error"] = "exit %d %s" % (rc, t[-2000:]); return r
        agg = {}; covers = {}; labels = {}; inc = {}; viols = []; samples = []; fns = set(); lines = set()
        for f in sorted(glob.glob(od + "/w*.json")):
            d = json.load(open(f))
            for k, v in d.items():
                if isinstance(v, (int, float)): agg[k] = max(agg.get(k, 0), v) if k in ("max_path_steps", "exprs") else agg.get(k, 0) + v
            for k, v in d["covers"].items(): covers[k] = covers.get(k, 0) + v
            for k, v in d["assert_labels"].items(): labels[k] = labels.get(k, 0) + v
            for k, v in d["incomplete"].items(): inc[k] = inc.get(k, 0) + v
            viols += d["violations"]; samples += d["samples"]; fns |= set(d["functions"]); lines |= set(d["lines"])
        n = int(open(od + "/done").read().split()[0]); got = len(glob.glob(od + "/w*.json"))
        if got < n: inc["worker died"] = n - got
        if agg.get("leftover"): inc["paths not explored (time)"] = agg["leftover"]
        r.update(agg=agg, covers=covers, labels=labels, incomplete=inc, viols=viols, samples=samples, functions=fns, lines=lines)
        r["missing_covers"] = [c for c in j.get("covers", []) if c not in covers]
        # native validation of explored paths
        r["validated"] = 0; r["mismatch"] = []
        exe, err = compile_native(j, wd, "asan")
        if not exe: r["status"] = "native compile error"; r["error"] = err[-2000:]; return r
        for k, s in enumerate(samples[:3]):
            m = re.match(r"bytes=([0-9a-f]*) choices=([0-9,]*)", s)
            inp = os.path.join(wd, "%s.sample%d" % (j["name"], k)); hx = m.group(1)
            write_input(inp, [int(hx[q:q + 2], 16) for q in range(0, len(hx), 2)], [c for c in m.group(2).split(",") if c])
            rc, t = sh([exe], timeout=60, env=dict(os.environ, SYM_INPUT=inp, ASAN_OPTIONS="detect_leaks=0:exitcode=44:detect_stack_use_after_return=1"))
            if rc == 0: r["validated"] += 1
            else: r["mismatch"].append("%s -> exit %d %s" % (s, rc, t[-200:]))
        # one representative per kind/label/place, replayed natively
        seen = {}; r["confirmed"] = []; r["unconfirmed"] = []
        for v in viols:
            key = (v["kind"], v["label"], v["where"]); 
            if seen.get(key, 0) >= 3 or len(r["confirmed"]) >= 4: continue
            seen[key] = seen.get(key, 0) + 1
            inp = os.path.join(wd, "%s.viol%d" % (j["name"], len(r["confirmed"]) + len(r["unconfirmed"]))); write_input(inp, v["bytes"], v["choices"])
            ok, how = replay(j, wd, v, inp); v["replay"] = how; v["input"] = inp
            if ok: r["confirmed"].append(v); seen[key] = 3
            else: r["unconfirmed"].append(v)
            if ok and os.environ.get("VERIF_STOP") and not [k for k in known_findings(pid) if re.fullmatch(k[1], r["job"]) and k[2] == v["label"]]:   # experiments only: end with the first violation
                print("VIOLATION property=%s replay=none %s %s" % (pid, r["job"], v["label"]), flush=True); shutil.rmtree(wd, ignore_errors=True); os.killpg(0, 9)
        return r
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex: results = list(ex.map(runjob, jobs))
    # ---- evaluation
    bad = [r for r in results if r["status"] != "ok"]
    known = known_findings(pid); nviol = 0; reported = []
    rdir = os.path.join(HERE, "replay", pid); shutil.rmtree(rdir, ignore_errors=True)
    for r in results:
        for v in r.get("confirmed", []):
            kf = [k for k in known if re.fullmatch(k[1], r["job"]) and k[2] == v["label"]]
            if kf: reported.append("KNOWN-FINDING: property=%s %s" % (pid, kf[0][3])); continue
            os.makedirs(rdir, exist_ok=True); name = "%s-%d" % (r["job"], nviol); p = os.path.join(rdir, name + ".input"); shutil.copy(v["input"], p)
            j = [x for x in jobs if x["name"] == r["job"]][0]
            with open(os.path.join(rdir, name + ".txt"), "w") as f:
                f.write(json.dumps(v, indent=1) + "\n")
                f.write("# native replay:\n# g++ -std=gnu++98 -g -fsanitize=address -I/repo/include -I/verif/engine -I/verif/harness %s /verif/harness/%s /verif/engine/sym_native.cpp -o /tmp/replay && SYM_INPUT=%s /tmp/replay\n" % (" ".join(defs(j)), j["src"], p))
            print("  %s in %s: %s (%s) input bytes=%s choices=%s [%s]" % (v["kind"], r["job"], v["label"], v["where"], bytes(v["bytes"]), v["choices"], v["replay"].strip().splitlines()[0][:160] if v["replay"].strip() else ""))
            reported.append("VIOLATION property=%s replay=%s" % (pid, os.path.join(rdir, name + ".txt"))); nviol += 1
    tot = {}
    for r in results:
        for k, v in r.get("agg", {}).items(): tot[k] = max(tot.get(k, 0), v) if k in ("max_path_steps", "exprs") else tot.get(k, 0) + v
    fns = set(); lines = set(); covers = {}; labels = {}
    for r in results:
        fns |= r.get("functions", set()); lines |= r.get("lines", set())
        for k, v in r.get("covers", {}).items(): covers[k] = covers.get(k, 0) + v
        for k, v in r.get("labels", {}).items(): labels[k] = labels.get(k, 0) + v
    byfile = {}
    for l in lines:
        f, n = l.rsplit(":", 1); byfile.setdefault(f, set()).add(int(n))
    if os.environ.get("VERIF_LINES"): open(os.path.join(os.environ["VERIF_LINES"], pid), "w").write("\n".join(sorted(lines)))
    inc = {r["job"]: r["incomplete"] for r in results if r.get("incomplete")}
    cross = {"queries": 0, "agree": 0, "disagree": 0, "no_answer": 0}
    if tier == "thorough":
        files = sorted(glob.glob(wd + "/*.out/*.smt2"))[:400]
        def cv(f):
            rc, t = sh(["cvc5", "--tlimit=20000", f], timeout=40); exp = f.split(".")[-2]; t = t.strip().split("\n")[-1]
            return "agree" if t == exp else "disagree" if t in ("sat", "unsat") and exp in ("sat", "unsat") else "no_answer"
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for a in ex.map(cv, files): cross["queries"] += 1; cross[a] += 1
        if cross["disagree"]: bad.append({"job": "cross-check", "status": "z3 and cvc5 disagree", "error": ""})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.get("level", "model_checking"),
        "coverage": {"states": int(tot.get("forks", 0) + tot.get("paths", 0)), "transitions": int(tot.get("instructions", 0)), "traces_validated_against_impl": sum(r.get("validated", 0) for r in results),
            "samples": [s for r in results for s in [r["job"] + ": " + x for x in r.get("samples", [])[:1]]][:20] or ["none"],
            "exhaustive": not inc and not bad, "what_is_counted": "states = symbolic states (paths + forks), transitions = LLVM instructions executed symbolically, traces = explored paths replayed in the natively compiled harness with the same outcome",
            "bounds": prop["bounds"](tier) if callable(prop["bounds"]) else prop["bounds"], "paths": int(tot.get("paths", 0)), "assertions_evaluated": int(tot.get("asserts", 0)), "assertions_decided_by_constant_folding_on_the_path": int(tot.get("asserts_folded", 0)), "assertions_decided_by_z3": int(tot.get("asserts_smt", 0)),
            "z3_queries": int(tot.get("z3_queries", 0)), "z3_time_s": round(tot.get("z3_time", 0), 2), "branch_decisions_by_byte_domain": int(tot.get("domain_decisions", 0)), "of_these_cross_checked_with_z3": int(tot.get("cross_checked", 0)), "query_cache_hits": int(tot.get("cache_hits", 0)), "unknown_answers": int(tot.get("unknown", 0)),
            "cvc5_cross_check": cross if tier == "thorough" else "thorough tier only",
            "assertion_labels": labels, "cover_points_reached": covers, "cover_points_missed": {r["job"]: r["missing_covers"] for r in results if r.get("missing_covers")},
            "incomplete": inc, "functions_encoded": sorted(fns)[:150], "functions_encoded_count": len(fns), "lines_encoded": {f: len(n) for f, n in sorted(byfile.items())},
            "jobs": [{"job": r["job"], "harness": r["src"], "defs": r["defs"], "status": r["status"], "paths": int(r.get("agg", {}).get("paths", 0)), "wall_s": r.get("wall_s"), "z3_queries": int(r.get("agg", {}).get("z3_queries", 0)), "z3_time_s": round(r.get("agg", {}).get("z3_time", 0), 2), "max_path_steps": r.get("agg", {}).get("max_path_steps")} for r in results],
            "counterexamples_not_reproduced_natively": [{"job": r["job"], "kind": v["kind"], "label": v["label"], "where": v["where"], "bytes": v["bytes"], "choices": v["choices"], "replay": v["replay"][-200:]} for r in results for v in r.get("unconfirmed", [])][:20],
            "native_mismatch": [m for r in results for m in r.get("mismatch", [])][:10]},
        "assumptions": spec.ASSUMPTIONS + prop.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(HERE + "/evidence/%s.json" % pid, "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d jobs, %d paths, %d instructions, %d assertions (%d by z3), %d z3 queries %.1fs, %d cover points, %.1fs wall" % (pid, tier, len(jobs), tot.get("paths", 0), tot.get("instructions", 0), tot.get("asserts", 0), tot.get("asserts_smt", 0), tot.get("z3_queries", 0), tot.get("z3_time", 0), len(covers), time.time() - t0))
    for r in results:
        if r.get("incomplete"): print("NOTE incomplete %s: %s" % (r["job"], json.dumps(r["incomplete"])[:600]))
        if r.get("missing_covers"): print("NOTE not reached in %s: %s" % (r["job"], r["missing_covers"]))
        for m in r.get("mismatch", []): print("NOTE native run differs in %s: %s" % (r["job"], m))
        for v in r.get("unconfirmed", []): print("NOTE not reproduced natively in %s: %s %s %s bytes=%s choices=%s: %s" % (r["job"], v["kind"], v["label"], v["where"], v["bytes"], v["choices"], v["replay"][-200:].replace("\n", " ")))
    for l in sorted(set(reported)): print(l)
    if keep: print("work directory " + wd)
    else: shutil.rmtree(wd, ignore_errors=True)
    if nviol: sys.exit(1)
    if bad:
        for r in bad: print("ERROR: job %s: %s\n%s" % (r["job"], r["status"], r.get("error", "")))
        sys.exit(3)
    sys.exit(0)
main()
