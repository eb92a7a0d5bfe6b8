#!/usr/bin/env python3
"""check.py <property-id> [quick|thorough]

Decides one property by bounded symbolic execution of the real code in /repo:
harness + /repo headers -> clang -> LLVM bitcode -> engine/symex (path-wise symbolic
execution, Z3) -> every reported counterexample is replayed against a native build.
Exit 0 (held on everything explored) or 1 with a VIOLATION line."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYM_REPO", "/repo")
sys.path.insert(0, V)
import specs

CLANG = ["clang++-18", "-w", "-std=c++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
         "-ffp-contract=off", "-gline-tables-only"]
PLAT = {"seq": "sequential", "opt": "optimized_sequential"}


def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode(errors="replace")


def engine():
    """build the symbolic executor when missing or out of date"""
    d = os.path.join(V, "engine")
    h = hashlib.sha256()
    for f in sorted(os.listdir(d)):
        h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    out = os.path.join(V, ".build", "engine")
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(V, ".build", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(out, "stamp")
        if not (os.path.exists(stamp) and open(stamp).read() == h.hexdigest()):
            rc, o = sh(["bash", os.path.join(d, "build.sh"), out])
            if rc:
                print("engine build failed\n" + o[-3000:]); sys.exit(3)
            open(stamp, "w").write(h.hexdigest())
    return out


def includes(plat):
    # shadow/ first: a <random> whose engines return arbitrary (symbolic) draws
    return ["-I" + os.path.join(V, "lib", "shadow"), "-I" + os.path.join(V, "lib"), "-I" + os.path.join(V, "harness"),
            "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src/graphblas/platforms", PLAT[plat])]


def compile_bc(u, plat, defs, out):
    return sh(CLANG + ["-emit-llvm", "-c"] + includes(plat) + defs + [os.path.join(V, "harness", u["src"]), "-o", out], timeout=600)


def compile_native(u, plat, defs, out, san):
    flags = ["-std=c++17", "-w", "-O0", "-rdynamic"]
    if san:
        flags += ["-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
    return sh(["clang++-18"] + flags + includes(plat) + defs + [os.path.join(V, "harness", u["src"]), os.path.join(V, "lib/replay.cpp"), "-o", out, "-ldl"], timeout=600)


def run_native(exe, entry, rfile, timeout=20, perturb=None):
    env = dict(os.environ, SYM_REPLAY=rfile, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=0")
    if perturb is not None:
        env["MALLOC_PERTURB_"] = str(perturb)
    return sh([exe, entry], timeout=timeout, env=env, cwd=os.path.dirname(exe))


def parse_known():
    known = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) entry=(\S+) label=(\S+)(?: note=(\S+))? (.*)", l)
            if m:
                known.append(dict(property=m[1], entry=m[2], label=m[3], note=m[4], text=m[5]))
    return known


def is_known(known, pid, v):
    for k in known:
        if k["property"] != pid or k["entry"] not in ("*", v["entry"]):
            continue
        if k["label"].replace("_", " ") != v["label"].replace("_", " "):
            continue
        if k["note"]:
            ok = True
            for kv in k["note"].split(","):
                a, b = kv.split("=")
                if not re.search(r"# %s = %s(\n|$)" % (re.escape(a), re.escape(b)), v["replay"]):
                    ok = False
            if not ok:
                continue
        return k
    return None


def strip_tmpl(s):
    o, d = "", 0
    s = s.replace("operator<<", "operator@@").replace("operator<", "operator@")
    for ch in s:
        if ch == "<": d += 1
        elif ch == ">": d = max(0, d - 1)
        elif d == 0: o += ch
    o = o.split("(")[0].strip().split(" ")[-1]
    return o.replace("@@", "<<").replace("@", "<")


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = specs.PROPS[pid]
    t0 = time.time()
    eng = engine()
    work = os.path.join(V, ".build", "run", pid + "." + tier)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    repdir = os.path.join(V, "evidence", "replay")
    os.makedirs(repdir, exist_ok=True)
    known = parse_known()
    budget = float(os.environ.get("SYM_BUDGET", spec.get("thorough_s", 700) if tier == "thorough" else spec.get("quick_s", 150)))
    jobs = []
    for ui, u in enumerate(spec["units"]):
        if u.get("tier") == "thorough" and tier != "thorough":
            continue
        for plat in u.get("plats", ["seq", "opt"]):
            defs = ["-D" + d for d in u.get("defs", [])]
            if tier == "thorough":
                defs += ["-DTHOROUGH=1"]
            if plat == "opt":
                defs += ["-DOPT=1"]
            jobs.append(dict(u=u, plat=plat, defs=defs, name="%d.%s.%s" % (ui, os.path.basename(u["src"]).split(".")[0], plat)))
    ncpu = os.cpu_count() or 8
    pool = cf.ThreadPoolExecutor(ncpu)
    natpool = cf.ThreadPoolExecutor(max(2, ncpu // 2))
    for j in jobs:
        j["bc"] = os.path.join(work, j["name"] + ".bc")
        j["fbc"] = pool.submit(compile_bc, j["u"], j["plat"], j["defs"], j["bc"])
    for j in jobs:
        j["exe"] = os.path.join(work, j["name"] + ".nat")
        j["fnat"] = pool.submit(compile_native, j["u"], j["plat"], j["defs"], j["exe"], False)
    notes, results, nviol, findings = [], [], 0, {}
    validated, vsamples = 0, []
    fns, lines, reach, unsup = set(), set(), {}, {}
    tot = dict(paths=0, ok=0, assumed=0, unsup=0, limit=0, unknown=0)
    stats = {}
    complete = True
    build_failed = False
    for idx, j in enumerate(jobs):
        rc, o = j["fbc"].result()
        if rc:
            print("NOTE %s: harness %s does not compile against this tree (%s); no verdict from it" % (pid, j["u"]["src"], j["plat"]))
            print(o[-3000:])
            notes.append("compile failed: " + j["name"]); complete = False; build_failed = True
            continue
        left = budget - (time.time() - t0)
        share = max(5.0, left / (len(jobs) - idx))
        share = min(share * 2.5, max(5.0, left))  # early units may use slack
        outj = os.path.join(work, j["name"] + ".json")
        cmd = [os.path.join(eng, "symex"), os.path.join(eng, "runtime.bc"), j["bc"], "-o", outj, "-t", "%.1f" % share, "-j", str(ncpu), "-s", str(j["u"].get("solver_ms", 10000))]
        if j["u"].get("fp"): cmd.append("--fp")
        if j["u"].get("split"): cmd.append("--split")
        if j["u"].get("max_insts"): cmd += ["-m", str(j["u"]["max_insts"])]
        if any(k["property"] == pid for k in known):
            for k in known:
                if k["property"] == pid: cmd += ["--known", k["label"].replace("_", " ")]
        rc, o = sh(cmd, timeout=share + 120)
        if rc or not os.path.exists(outj):
            print("NOTE %s: symbolic execution of %s ended abnormally (%s)\n%s" % (pid, j["name"], rc, o[-1500:]))
            notes.append("engine failure: " + j["name"]); complete = False
            if not os.path.exists(outj): continue
        d = json.load(open(outj)); j["res"] = d
        for e in d["entries"]:
            for k in tot: tot[k] += e.get(k, 0)
            results.append(dict(unit=j["name"], entry=e["name"], paths=e["paths"], complete=e["complete"], undecided=e["unsup"] + e["limit"] + e["unknown"]))
            if not e["complete"] or e["unsup"] or e["unknown"] or e["limit"]: complete = False
            if not e["complete"]: notes.append("%s %s: exploration stopped by the time budget or by a violation" % (j["name"], e["name"]))
        for k, v in d["stats"].items(): stats[k] = stats.get(k, 0) + v
        for k, v in d["reach"].items(): reach[k] = reach.get(k, 0) + v
        for k, v in d["unsup"].items(): unsup[k] = unsup.get(k, 0) + v
        fns |= set(f for f in (strip_tmpl(x) for x in d["functions"]) if f.startswith(("grb::", "algorithms::")))
        lines |= set(x for x in d["lines"] if "/repo/src/" in x or REPO + "/src/" in x)
        if d["violations"]:
            j["fsan"] = natpool.submit(compile_native, j["u"], j["plat"], j["defs"], os.path.join(work, j["name"] + ".san"), True)
            # confirm at once, so that a broken tree is reported quickly
            nv = confirm(pid, j, d, known, findings, repdir, work, notes)
            nviol += nv
            if nv:
                break
    # witnesses: paths the executor completed are replayed natively; the real build must agree
    if not nviol:
        for j in jobs:
            if "res" not in j: continue
            rc, o = j["fnat"].result()
            if rc:
                notes.append("native build failed: " + j["name"]); print(o[-1500:]); continue
            ss = j["res"]["samples"]
            per = {}
            pick = []
            for s in ss:
                if per.get(s["entry"], 0) < 3: per[s["entry"]] = per.get(s["entry"], 0) + 1; pick.append(s)
            pick = pick[:24]

            def one(a):
                i, s = a
                rf = os.path.join(work, "%s.s%d.txt" % (j["name"], i))
                open(rf, "w").write(s["replay"])
                return s, rf, run_native(j["exe"], s["entry"], rf)
            for s, rf, (rc, o) in pool.map(one, enumerate(pick)):
                got = "|".join(l[6:] for l in o.splitlines() if l.startswith("REACH "))
                if rc == 0 and got == s["reach"]:
                    validated += 1
                    if len(vsamples) < 6: vsamples.append("%s %s: %s" % (j["name"], s["entry"], s["replay"].strip().replace("\n", "; ")[:300]))
                elif rc in (10, 13):
                    keep = os.path.join(repdir, "%s-w%d.txt" % (pid, nviol)); shutil.copy(rf, keep)
                    lab = [l for l in o.splitlines() if l.startswith("REPLAY")]
                    v = dict(entry=s["entry"], label=(lab[0].replace("REPLAY FAILED ", "") if lab else ""), replay=s["replay"])
                    if is_known(known, pid, v): continue
                    print("native replay of a solver witness fails: %s %s: %s" % (j["name"], s["entry"], lab))
                    print("VIOLATION property=%s replay=%s" % (pid, keep)); nviol += 1
                else:
                    notes.append("witness mismatch %s %s rc=%s native=%s symbolic=%s" % (j["name"], s["entry"], rc, got[:80], s["reach"][:80]))
    # vacuity: every label in the harness must have been reached
    if not nviol:
        want = set()
        for j in jobs:
            src = open(os.path.join(V, "harness", j["u"]["src"])).read()
            image = open(j["exe"], "rb").read() if os.path.exists(j["exe"]) else None   # labels this variant compiles
            want |= set(w for w in re.findall(r'sym_reach\("([^"]+)"\)', src) if image is None or w.encode() + b"\0" in image)
        miss = sorted(w for w in want if w not in reach and not (w.startswith("T:") and tier != "thorough"))
        if miss:
            notes.append("vacuous (never reached): " + ", ".join(miss)); complete = False
    for k in findings.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=spec.get("assumptions", []) + specs.COMMON_ASSUMPTIONS,
              coverage=dict(states=tot["paths"], transitions=stats.get("decisions", 0), traces_validated_against_impl=validated,
                            samples=vsamples or ["(none)"],
                            rule="states = symbolic paths executed to their end over the real code's LLVM IR; transitions = symbolic branch/selection decisions; every path covers all values satisfying its path condition",
                            exhaustive=bool(complete and not nviol), bounds=spec["bounds_thorough"] if tier == "thorough" and "bounds_thorough" in spec else spec["bounds"],
                            infeasible_or_assumed_away=tot["assumed"], undecided_paths=tot["unsup"] + tot["limit"] + tot["unknown"],
                            assertions_checked=stats.get("asserts", 0), assertions_closed_by_term_rewriting=stats.get("asserts_trivial", 0),
                            solver="z3 4.8.12 (libz3)", solver_queries=stats.get("queries", 0), solver_sat=stats.get("sat", 0), solver_unsat=stats.get("unsat", 0), solver_unknown=stats.get("qunknown", 0),
                            solver_cache_hits=stats.get("cache_hits", 0), solver_time_s=round(stats.get("solver_s", 0), 2),
                            instructions=stats.get("insts", 0), per_entry=results,
                            functions_encoded=sorted(fns), repo_source_lines_executed=len(lines),
                            reached=reach, unsupported=unsup, notes=notes))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for n in notes: print("NOTE", n)
    for u, c in list(unsup.items())[:10]: print("UNSUPPORTED", c, u)
    print("%s %s: %s, %d paths, %d assertions, %d solver queries (%.1fs), %d witnesses validated, %.1fs" % (
        pid, tier, "VIOLATED" if nviol else "held" + ("" if complete else " on what was explored (incomplete)"), tot["paths"], stats.get("asserts", 0), stats.get("queries", 0), stats.get("solver_s", 0), validated, time.time() - t0))
    pool.shutdown(wait=False, cancel_futures=True)
    natpool.shutdown(wait=False, cancel_futures=True)
    if not os.environ.get("SYM_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(1 if nviol else 0)


def confirm(pid, j, d, known, findings, repdir, work, notes):
    n = 0
    seen = {}
    for v in d["violations"]:
        k = is_known(known, pid, v)
        if k:
            findings[k["text"]] = k["text"]; continue
        key = (v["entry"], v["label"])
        if seen.get(key, 0) >= 2: continue
        rf = os.path.join(repdir, "%s-%s-%d.txt" % (pid, j["plat"], n))
        open(rf, "w").write(v["replay"] + "# unit %s entry %s kind %s label %s\n# at %s\n" % (j["name"], v["entry"], v["kind"], v["label"], v["where"].replace("\n", "\n# ")))
        ok = False
        rc, o = j["fnat"].result()
        if rc == 0:
            for pt in (None, 85, 255):
                rc, o = run_native(j["exe"], v["entry"], rf, perturb=pt)
                if v["kind"] == "limit": ok = rc == -999
                else: ok = rc not in (0, 11, 12, 2)
                if ok: break
        if not ok and v["kind"] != "limit":
            rc, o = j["fsan"].result()
            if rc == 0:
                rc, o = run_native(os.path.join(work, j["name"] + ".san"), v["entry"], rf)
                ok = rc not in (0, 11, 12, 2)
        if ok:
            seen[key] = seen.get(key, 0) + 1
            print("%s: %s in %s/%s: %s\n  at %s" % (pid, v["kind"], j["name"], v["entry"], v["label"], v["where"]))
            print("  native replay: " + " ".join(l for l in o.splitlines() if "REPLAY" in l or "ERROR" in l or "runtime error" in l)[:300])
            print("VIOLATION property=%s replay=%s" % (pid, rf)); n += 1
        else:
            notes.append("counterexample not reproduced natively, not reported: %s %s %s/%s (rc %s) at %s" % (j["name"], v["entry"], v["kind"], v["label"], rc, v["where"].split("\n")[0]))
    return n


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        engine(); print("engine ready"); sys.exit(0)
    main()
