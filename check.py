#!/usr/bin/env python3
"""Runs the solver-based check of one property: check.py <PROPERTY> [quick|thorough]

1. builds, from /repo's current working tree, (a) the LLVM IR of the harness linked with the real crates
   and (b) the same harness as an ordinary native program;
2. lets the symbolic engine (engine/, z3) execute the property's jobs over all values of their symbolic inputs;
3. replays every counterexample on the native program and reports only what reproduces;
4. replays sampled path models natively and compares the observations with those of the engine;
5. writes evidence/<PROPERTY>.json.
Exit: 0 held, 1 violation, anything else: no answer (build failure, incomplete exploration, engine/native mismatch).
"""
import fnmatch, json, os, subprocess, sys, time, fcntl, shutil, tempfile, hashlib
from collections import Counter, defaultdict

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("INKSYM_REPO", "/repo")
B = os.environ.get("INKSYM_BUILD", os.path.join(V, ".build"))
TOOLCHAIN = "1.78.0-x86_64-unknown-linux-gnu"
CRATES = json.load(open(os.path.join(V, "crates.json")))  # property -> harness crates
WORKERS = int(os.environ.get("INKSYM_WORKERS", str(min(8, os.cpu_count() or 8))))

def env(extra=None):
    e = dict(os.environ); e.update({"RUSTUP_TOOLCHAIN": TOOLCHAIN, "CARGO_NET_OFFLINE": "true"})
    e.pop("RUSTFLAGS", None); e.update(extra or {})
    return e

def die(code, msg):
    print(msg, flush=True); sys.exit(code)

def stage(kind, crate):
    """Copy the harness sources next to /repo's lock file, so that nothing is written in /verif/harness or /repo."""
    d = os.path.join(B, kind)
    os.makedirs(d, exist_ok=True)
    for sub in ("common", crate):
        for root, _, files in os.walk(os.path.join(V, "harness", sub)):
            rel = os.path.relpath(root, os.path.join(V, "harness"))
            os.makedirs(os.path.join(d, rel), exist_ok=True)
            for f in files:
                src, dst = os.path.join(root, f), os.path.join(d, rel, f)
                data = open(src, "rb").read()
                if f == "Cargo.toml" and REPO != "/repo": data = data.replace(b"/repo/", REPO.encode() + b"/")
                if not os.path.exists(dst) or open(dst, "rb").read() != data: open(dst, "wb").write(data)
    lock, dst = open(os.path.join(REPO, "Cargo.lock"), "rb").read(), os.path.join(d, crate, "Cargo.lock")
    mark = os.path.join(d, crate, ".lock-src")
    h = hashlib.sha256(lock).hexdigest()
    if not os.path.exists(dst) or not os.path.exists(mark) or open(mark).read() != h:
        open(dst, "wb").write(lock); open(mark, "w").write(h)
    return os.path.join(d, crate)

def build(crates):
    """Engine, IR and native builds in parallel."""
    os.makedirs(B, exist_ok=True)
    jobs = [("engine", ["cargo", "build", "--release", "--offline"], os.path.join(V, "engine"), env({"CARGO_TARGET_DIR": os.path.join(B, "engine")}))]
    for c in crates:
        jobs.append(("ir-" + c, ["cargo", "rustc", "--release", "--offline", "--config", 'patch.crates-io.rowan.path="%s"' % os.path.join(V, "vendor/rowan"), "--", "-C", "lto=fat", "--emit=llvm-ir,link"],
                     stage("ir", c), env({"CARGO_TARGET_DIR": os.path.join(B, "tir"), "RUSTFLAGS": "--cfg inksym_ir --cap-lints allow -C no-vectorize-slp -C no-vectorize-loops"})))
        jobs.append(("native-" + c, ["cargo", "build", "--release", "--offline", "--config", "profile.release.lto=false", "--config", "profile.release.codegen-units=8"],
                     stage("native", c), env({"CARGO_TARGET_DIR": os.path.join(B, "tnat"), "RUSTFLAGS": "--cap-lints allow"})))
    for c in crates:  # an old .ll of another configuration must never be picked up
        pass
    procs = []
    for n, cmd, cwd, e in jobs:
        log = open(os.path.join(B, n + ".log"), "w")
        procs.append((n, subprocess.Popen(cmd, cwd=cwd, env=e, stdout=log, stderr=subprocess.STDOUT)))
    bad = [n for n, p in procs if p.wait() != 0]
    if bad:
        for n in bad: print("BUILD FAILED:", n); print(open(os.path.join(B, n + ".log")).read()[-3000:])
        die(2, "cannot build /repo's working tree for the check")
    out = {}
    for c in crates:
        deps = os.path.join(B, "tir/release/deps")
        lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("ink%s-" % c) and f.endswith(".ll")]
        out[c] = (max(lls, key=os.path.getmtime), os.path.join(B, "tnat/release/ink" + c))
    return out, os.path.join(B, "engine/release/inksym")

def native(binary, job, model, show=False, timeout=60):
    d = tempfile.mkdtemp(prefix="inksym-")
    try:
        f = os.path.join(d, "m"); open(f, "wb").write(bytes(model))
        e = env({"INKSYM_DIR": os.path.join(d, "w"), "RUST_BACKTRACE": "0"})
        os.makedirs(os.path.join(d, "w"))
        if show: e["INKSYM_SHOW"] = "1"
        try: p = subprocess.run([binary, str(job), f], env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired: return "hang", "no result within %ds" % timeout
        o = (p.stdout.decode("utf8", "replace") + p.stderr.decode("utf8", "replace")).replace(d, "<dir>")
        if p.returncode == 0: return "ok", o
        if p.returncode == 64: return "check", o  # may also have panicked later
        if p.returncode in (65, 66): return "outside", o
        return "panic", o
    finally: shutil.rmtree(d, ignore_errors=True)

def main():
    prop = sys.argv[1]; tier = (sys.argv[2:] + [os.environ.get("VERIF_TIER", "quick")])[0]
    only = os.environ.get("INKSYM_JOBS")  # comma separated names, for development
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    crates = CRATES[prop]
    lockf = None
    os.makedirs(B, exist_ok=True)
    lockf = open(os.path.join(B, "lock"), "w"); fcntl.flock(lockf, fcntl.LOCK_EX)
    bins, engine = build(crates)
    t_build = time.time() - t0
    known = []
    kf = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(kf): known = [json.loads(l) for l in open(kf) if l.strip() and not l.startswith("#")]
    limit = float(os.environ.get("INKSYM_TIME", "840" if tier == "quick" else "20000"))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": {}, "assumptions": [], "violations": 0}
    tot = Counter(); per = {}; reach = defaultdict(Counter); problems = []; viols = []; samples = []; functions = set(); errs = Counter(); allfn = 0; z3v = ""
    conc = Counter(); job_meta = {}; fork_sites = Counter()
    for c in crates:
        ll, nat = bins[c]
        jobs = []
        for l in subprocess.check_output([nat, "--list"], text=True).splitlines():
            i, name, p, t, need, bound = l.split("\t")
            if only:
                if name not in only.split(","): continue
            elif p != prop or (t != tier and not (tier == "thorough" and t == "quick")): continue
            jobs.append(int(i)); job_meta[(c, int(i))] = (name, [x for x in need.split(",") if x], bound)
        if not jobs: continue
        out = os.path.join(B, "out-%s-%s.jsonl" % (prop, c))
        if os.path.exists(out): os.remove(out)
        left = limit - (time.time() - t0) - 30
        cmd = [engine, "--ll", ll, "--out", out, "--jobs", ",".join(map(str, jobs)), "--workers", str(WORKERS), "--timeout", "%.0f" % max(left, 20), "--samples", "2", "--maxviol", "60"]
        if os.environ.get("INKSYM_PROFILE"): cmd.append("--profile")
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0: problems.append("engine failed on %s: %s" % (c, r.stdout.decode("utf8", "replace")[-1500:]))
        for l in open(out):
            try: d = json.loads(l)
            except ValueError: problems.append("bad engine record"); continue
            if d["t"] == "stat":
                s = per.setdefault((c, d["job"]), Counter())
                for k, v in d.items():
                    if isinstance(v, (int, float)) and k not in ("job",):
                        if k in ("max_vars", "max_steps"): s[k] = max(s[k], v)
                        else: s[k] += v; tot[k] += v
                for k, v in d["reach"].items(): reach[(c, d["job"])][k] += v
                for k, v in d["errs"].items(): errs[k] += v
                for k, v in d["concretized"].items(): conc[k] += v
            elif d["t"] == "viol": viols.append((c, d))
            elif d["t"] == "sample": samples.append((c, d))
            elif d["t"] == "internal": problems.append("engine: " + d["msg"])
            elif d["t"] == "fork": fork_sites[d["site"]] += d["n"]
            elif d["t"] == "meta": z3v = d["z3"]
            elif d["t"] == "end":
                if d["crashed_procs"]: problems.append("%d engine processes crashed" % d["crashed_procs"])
                functions |= set(d["functions"]); allfn += d["all_functions"]
    t_sym = time.time() - t0 - t_build
    # counterexamples: replay on the native build
    reported = []; knownhit = []; seen = set()
    for c, d in viols:
        name = job_meta[(c, d["job"])][0]
        key = (c, d["job"], d["kind"], d["msg"][:120])
        if key in seen: continue
        how, o = native(bins[c][1], d["job"], d["model"], show=True)
        ok = {"check": ("CHECK-FAILED " + d["msg"]) in o, "hang": how == "hang"}.get(d["kind"], how in ("panic", "hang"))
        if not ok:
            problems.append("counterexample of %s (%s: %s) does not reproduce natively (%s)" % (name, d["kind"], d["msg"][:200], how)); continue
        seen.add(key)
        sig = "%s|%s" % (d["kind"], d["msg"])
        k = next((k for k in known if k.get("status") == "known" and k["property"] == prop and fnmatch.fnmatch(name, k["job"]) and k["match"] in sig + "|" + o), None)
        if k: knownhit.append(k); continue
        rd = os.path.join(os.environ.get("INKSYM_REPLAY", os.path.join(V, "replay")), prop); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d.json" % (name, len(reported)))
        json.dump({"property": prop, "job": name, "job_id": d["job"], "crate": c, "kind": d["kind"], "message": d["msg"], "trace": d["trace"], "model": d["model"],
                   "rerun": "%s %d <file with the model bytes>" % (bins[c][1], d["job"]), "native": how, "native_output": o[-6000:]}, open(path, "w"), indent=1)
        reported.append((path, name, d, how, o))
    # samples: engine and native program must make the same observations
    checked = 0; shown = []
    bysrc = defaultdict(list)
    for c, d in samples: bysrc[(c, d["job"])].append(d)
    cap = 40 if tier == "quick" else 200
    for (c, j), ds in bysrc.items():
        step = max(1, len(ds) // cap); ds = ds[::step][:cap]
        d0 = tempfile.mkdtemp(prefix="inksym-")
        try:
            f = os.path.join(d0, "batch"); open(f, "w").write("".join("%d %s\n" % (j, bytes(d["model"]).hex() or "-") for d in ds))
            e = env({"INKSYM_DIR": os.path.join(d0, "w")}); os.makedirs(os.path.join(d0, "w"))
            p = subprocess.run([bins[c][1], "--batch", f], env=e, cwd=d0, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
            lines = [l for l in p.stdout.decode("utf8", "replace").splitlines() if l.startswith("HASH ")]
            for d, l in zip(ds, lines):
                _, h, n = l.split()
                if h != d["hash"]: problems.append("engine and native observations differ: job %s model %s" % (job_meta[(c, j)][0], bytes(d["model"]).hex()))
                else: checked += 1
            if len(lines) != len(ds): problems.append("native replay of passing samples of %s failed after %d of %d: %s" % (job_meta[(c, j)][0], len(lines), len(ds), p.stderr.decode("utf8", "replace")[-400:]))
        finally: shutil.rmtree(d0, ignore_errors=True)
        how, o = native(bins[c][1], j, ds[0]["model"], show=True)
        shown.append({"job": job_meta[(c, j)][0], "model_hex": bytes(ds[0]["model"]).hex(), "native": how, "observations": [x[6:200] for x in o.splitlines() if x.startswith("note: ")][:4]})
    jobs_ev = []
    for k, (name, need, bound) in sorted(job_meta.items()):
        s = per.get(k, Counter())
        v_here = any(c == k[0] and d["job"] == k[1] for c, d in viols)
        if not v_here:
            if s["paths"] == 0: problems.append("job %s completed no path" % name)
            if s["incomplete"] or s["unsupported"] or s["unknown"]: problems.append("job %s: %d paths not explored (%d unsupported, %d unknown)" % (name, s["incomplete"] + s["unsupported"], s["unsupported"], s["unknown"]))
            for r in need:
                if not reach[k][r]: problems.append("job %s never reached '%s' (vacuous)" % (name, r))
        jobs_ev.append({"job": name, "bounds": bound, "paths": s["paths"], "excluded_by_assumption": s["assumed"], "symbolic_bytes": s["max_vars"], "assertions_checked": s["checks"],
                        "assertions_with_symbolic_condition": s["sym_checks"], "instructions": s["steps"], "solver_queries": s["queries"], "solver_s": round(s["z3_time"], 2), "reached": dict(reach[k])})
    ev["coverage"] = {"states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": checked, "samples": shown[:12],
        "exhaustive": not problems and not reported,
        "functions_encoded": allfn, "repo_functions_encoded": len(functions), "repo_functions_sample": sorted(functions)[:60],
        "bounds": {j["job"]: j["bounds"] for j in jobs_ev}, "jobs": jobs_ev,
        "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"], "solver_time_s": round(tot["z3_time"], 2), "solver": "z3 " + z3v,
        "instructions_executed_symbolically": tot["steps"], "assertions_checked": tot["checks"], "concretized": dict(conc), "build_s": round(t_build, 1), "symbolic_s": round(t_sym, 1), "problems": problems[:20]}
    ev["assumptions"] = ["rowan's green-node interner is replaced by one that never shares nodes (vendor/rowan); native replays use the original",
        "hash-table hashes are a fixed constant in the symbolic runs (tables degrade to linear probing; iteration order is that of insertion)",
        "claims hold within the stated bounds per job; see DESIGN.md for what lies outside",
        "LLVM IR produced by rustc 1.78 -O1 with fat LTO; trusted: rustc, engine, z3"]
    ev["violations"] = len(reported)
    ev["wall_s"] = round(time.time() - t0, 1)
    evd = os.environ.get("INKSYM_EVIDENCE", os.path.join(V, "evidence"))
    os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, prop + ".json"), "w"), indent=1)
    for j in jobs_ev: print("  %-26s paths=%-7d checks=%-8d queries=%-6d solver=%.0fs instr=%.0fM" % (j["job"], j["paths"], j["assertions_checked"], j["solver_queries"], j["solver_s"], j["instructions"] / 1e6))
    for k, v in errs.most_common(5): print("  unsupported:", v, k[:400])
    for k, v in fork_sites.most_common(15): print("  fork", v, k[:300])
    for k in {json.dumps(k, sort_keys=True) for k in knownhit}:
        k = json.loads(k); print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: %d paths, %d queries, %.1fs solver, build %.0fs, symbolic %.0fs, %d samples validated" % (prop, tier, tot["paths"], tot["queries"], tot["z3_time"], t_build, t_sym, checked))
    for path, name, d, how, o in reported:
        print("  %s: %s: %s [native: %s]" % (name, d["kind"], d["msg"][:300], how))
        for x in o.splitlines()[-12:]: print("     | " + x[:300])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if reported: sys.exit(1)
    if problems:
        for p in problems[:10]: print("PROBLEM:", p)
        sys.exit(3)

if __name__ == "__main__": main()
