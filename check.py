#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its current sources.

  check.py <PROPERTY> [--tier quick|thorough] [--only JOBNAME] [--keep]

Every job compiles a harness (harness/*.cpp, which includes /repo's headers) to LLVM IR, runs the executor on it
(engine/symex: z3 decides all branches and assertions), and replays each counterexample natively before reporting it.
Exit 0: held on everything explored.  Exit 1: a confirmed violation (VIOLATION line).  Exit 2: the check itself failed.
"""
import sys, os, json, subprocess, time, tempfile, shutil, fcntl, re, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
sys.path.insert(0, HERE)
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "/usr/lib/llvm-18/bin/clang++"
LLLINK = "/usr/lib/llvm-18/bin/llvm-link"
H = os.path.join(HERE, "harness")
CFLAGS = ["-O1", "-g1", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fwrapv", "-fno-delete-null-pointer-checks", "-fno-vectorize", "-fno-pic", "-fno-pie", "-fno-slp-vectorize", "-fno-builtin",
          "-ffp-contract=off", "-DHIF_THROW", "-emit-llvm", "-Wno-everything"]
NPROC = int(os.environ.get("SX_PROCS", "8"))

def inc(): return ["-I" + REPO + "/src", "-I" + H, "-I" + REPO + "/libhifir/include"]

def build_engine():
    b = os.path.join(HERE, "build"); os.makedirs(b, exist_ok=True)
    exe = os.path.join(b, "symex")
    with open(os.path.join(b, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = [os.path.join(HERE, "engine", f) for f in sorted(os.listdir(os.path.join(HERE, "engine")))]
        h = hashlib.sha256()
        for f in src: h.update(open(f, "rb").read())
        stamp = os.path.join(b, "symex.sha"); want = h.hexdigest()
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want):
            r = subprocess.run(["bash", os.path.join(HERE, "engine", "build.sh"), b], capture_output=True, text=True)
            if r.returncode: print(r.stdout, r.stderr); raise SystemExit(2)
            open(stamp, "w").write(want)
    return exe

def run(cmd, timeout=None, env=None):
    try: return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, errors="replace")
    except subprocess.TimeoutExpired as e:
        class R: returncode = -999; stdout = ""; stderr = "timeout"
        return R()

def main():
    args = sys.argv[1:]; prop = args[0]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    only = args[args.index("--only") + 1] if "--only" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); strict = os.environ.get("SX_STRICT")
    from jobs import PROPS
    P = PROPS[prop]; t0 = time.time(); exe = build_engine()
    jobs = [j for j in P["jobs"] if (tier == "thorough" or not j.get("thorough_only")) and (tier == "quick" or not j.get("quick_only")) and (not only or only in j["name"])]
    W = tempfile.mkdtemp(prefix="sx_%s_" % prop); rc = 2
    try: rc = work(prop, P, tier, seed, strict, exe, jobs, W, t0, only)
    finally:
        if "--keep" not in args: shutil.rmtree(W, ignore_errors=True)
        else: print("kept", W)
    sys.stdout.flush(); sys.exit(rc)

def compile_ir(j, W, rt):
    key = hashlib.sha1((j["src"] + " ".join(j.get("defs", []))).encode()).hexdigest()[:12]; out = os.path.join(W, key + ".bc")
    r = run([CLANG, "-std=c++14"] + CFLAGS + inc() + (["-fopenmp", "-I" + os.path.join(H, "ompstub")] if j.get("omp") else []) + ["-D" + d for d in j.get("defs", [])] + ["-c", os.path.join(H, j["src"]), "-o", out + ".h"], 300)
    if r.returncode: return key, None, r.stderr[-3000:]
    r = run([LLLINK, out + ".h", rt, "-o", out], 120)
    return key, (out if r.returncode == 0 else None), r.stderr[-2000:]

def native(j, W, key, san="address"):
    exe = os.path.join(W, key + "." + j["entry"] + ".nat" + san)
    if os.path.exists(exe): return exe, ""
    o = os.path.join(W, "sxnative.%s.o" % (key + j["entry"]))
    r = run(["g++", "-std=c++14", "-O1", "-g", "-w", "-fsanitize=" + san, "-fno-sanitize-recover"] + (["-fopenmp", "-DSX_OMP"] if j.get("omp") else []) + [ "-ffp-contract=off", "-DHIF_THROW"] + inc() + ["-D" + d for d in j.get("defs", [])] +
            ["-DSX_NATIVE", "-DSX_ENTRY=" + j["entry"], os.path.join(H, j["src"]), os.path.join(H, "sxnative.cpp")] + j.get("native_libs", []) + ["-o", exe], 600)
    return (exe if r.returncode == 0 else None), r.stderr[-3000:]

def replay(j, W, key, viol, idx):
    if not j.get("omp"): return replay1(j, W, key, viol, idx, "address")
    a = replay1(j, W, key, viol, idx, "thread" if viol["label"].startswith("data race") else "address")  # other schedules may pass by luck
    return a if a[0] or viol["label"].startswith("data race") else max(a, replay1(j, W, key, viol, idx, "thread"), key=lambda r: bool(r[0]))

def replay1(j, W, key, viol, idx, san):
    exe, err = native(j, W, key, san)
    if not exe: return None, "native build failed: " + err[-600:]
    f = os.path.join(W, "replay.%s.%d.txt" % (re.sub(r"\W", "_", j["name"]), idx)); open(f, "w").write("\n".join(str(v) for _, v in viol["inputs"]) + "\n")
    env = dict(os.environ, SX_REPLAY=f, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:malloc_fill_byte=203:max_malloc_fill_size=1073741824:allocator_may_return_null=1:detect_stack_use_after_return=1")
    if j.get("tol"): env["SX_TOL"] = str(j["tol"])
    r = run([exe], 60, env)
    e = r.stderr
    if "SX-FAIL" in e: return True, e[e.index("SX-FAIL"):][:300]
    if "SX-ABORT" in e: return False, e[e.index("SX-ABORT"):][:200]
    if "ThreadSanitizer: data race" in e: return True, e[e.index("ThreadSanitizer"):][:600]
    if "SX-PASS" in e: return False, "native run passes"
    if "AddressSanitizer" in e: return True, e[e.index("AddressSanitizer"):][:600]
    if r.returncode == -999: return True, "native run does not terminate in 60 s"
    if r.returncode != 0: return True, "native run crashed with status %d: %s" % (r.returncode, e[-200:])
    return False, "native run inconclusive"

def work(prop, P, tier, seed, strict, exe, jobs, W, t0, only):
    rt = os.path.join(W, "rt.bc")
    r = run([CLANG, "-std=c++17"] + CFLAGS + ["-c", os.path.join(H, "sxrt.cpp"), "-o", rt], 300)
    if r.returncode: print("support runtime does not build:", r.stderr[-2000:]); return 2
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == prop and k.get("status") == "open"]
    pool = ThreadPoolExecutor(NPROC)
    uniq = {}
    for j in jobs: uniq.setdefault(j["src"] + " ".join(j.get("defs", [])), j)
    comp = {k: pool.submit(compile_ir, j, W, rt) for k, j in uniq.items()}
    def one(j, sh, shn):
        key, bc, err = comp[j["src"] + " ".join(j.get("defs", []))].result()
        if not bc: return {"build_error": err}, key
        out = os.path.join(W, "%s.%d.json" % (re.sub(r"\W", "_", j["name"]), sh))
        tl = j.get("time_t", 600) if tier == "thorough" else j.get("time", 120)
        cmd = [exe, bc, "--entry", j["entry"], "--out", out, "--time", str(tl), "--shard", "%d/%d" % (sh, shn)] + j.get("opts", [])
        if j.get("random"): cmd += ["--seed", str(seed * 1000003 + sh + 1)]
        r = run(cmd, tl + 200)
        try: return json.load(open(out)), key
        except Exception: return {"engine_error": (r.stderr or "")[-500:] + " rc=%d" % r.returncode}, key
    futs = []
    order = sorted(jobs, key=lambda j: -j.get("time", 120) * (2 if j.get("shards", 1) > 1 else 1))
    class Fut: pass
    # compile futures occupy the pool first; shards follow
    for j in order:
        n = j.get("shards_t" if tier == "thorough" else "shards", j.get("shards", 1))
        for s in range(n): futs.append((j, s, pool.submit(one, j, s, n)))
    res = {}; 
    for j, s, f in futs:
        d, key = f.result(); res.setdefault(j["name"], (j, key, []))[2].append(d)
    tot = dict(paths=0, done=0, assumed=0, cut=0, unsupported=0, limit=0, queries=0, unsat=0, sat=0, unknown=0, asserts=0, assert_queries=0, assert_folded=0, eq_queries=0, eq_by_path_query=0, eq_by_path_equations=0, forks=0, steps=0, solver_s=0.0, concretisations=0)
    funcs, samples, confirmed, unconfirmed, knownhits, notes, jsum, bad = set(), [], [], [], [], [], [], 0
    nat = []
    for name, (j, key, ds) in res.items():
        cov, js = {}, dict(job=name, harness=j["src"], entry=j["entry"], defs=j.get("defs", []), bounds=j.get("bounds", ""), complete=True, paths=0, asserts=0, queries=0, wall_s=0.0, cut=0, unsupported=0)
        seen = set(); vi = 0
        for d in ds:
            if "build_error" in d: notes.append("%s: harness does not compile against this tree: %s" % (name, d["build_error"][:700])); js["complete"] = False; bad += 1; break
            if "engine_error" in d: notes.append("%s: executor failed: %s" % (name, d["engine_error"])); js["complete"] = False; bad += 1; continue
            for k in tot: tot[k] += d.get(k, 0)
            js["complete"] &= d["complete"]; js["paths"] += d["done"]; js["asserts"] += d["asserts"]; js["queries"] += d["queries"]; js["wall_s"] = round(max(js["wall_s"], d["wall_s"]), 2); js["cut"] += d["cut"] + d["limit"]; js["unsupported"] += d["unsupported"]
            funcs.update(d["functions"])
            for k, v in d["cover"].items(): cov[k] = cov.get(k, 0) + v
            for k, v in list(d["cuts"].items())[:4]: notes.append("%s: path cut (%d): %s" % (name, v, k[:300]))
            for k, v in list(d["unsup"].items())[:4]: notes.append("%s: unsupported (%d): %s" % (name, v, k[:300]))
            for v in d["violations"]:
                if (v["label"], v["where"]) in seen: continue
                seen.add((v["label"], v["where"])); nat.append((j, key, v, vi)); vi += 1
        js["cover"] = cov
        miss = [c for c in j.get("cover", []) if not cov.get(c)]
        if miss: notes.append("%s: coverage labels never reached: %s" % (name, miss))
        js["missing_cover"] = miss; jsum.append(js)
        if strict and (miss or js["unsupported"] or js["cut"] or not js["complete"]): print("STRICT: %s miss=%s unsup=%d cut=%d complete=%s" % (name, miss, js["unsupported"], js["cut"], js["complete"]))
    built = set()
    for j, key, v, vi in nat:  # build each native binary once
        if (key, j["entry"]) not in built: built.add((key, j["entry"]))
    list(pool.map(lambda t: native(*t), [(next(j for j, k, _, _ in nat if k == kk and j["entry"] == ee), W, kk) for kk, ee in built]))
    rs = list(pool.map(lambda t: replay(t[0], W, t[1], t[2], t[3]), nat))
    for (j, key, v, vi), (ok, msg) in zip(nat, rs):
        rec = dict(job=j["name"], label=v["label"], where=v["where"], inputs=v["inputs"][:200], native=msg)
        if not ok: unconfirmed.append(rec); continue
        k = next((k for k in known if k["label"] == v["label"] and k.get("job", j["name"]) == j["name"] and k.get("where", "") in v["where"]), None)
        (knownhits if k else confirmed).append((rec, k) if k else rec)
    notes = list(dict.fromkeys(notes))
    for rec in unconfirmed: notes.append("unconfirmed counterexample (not reported): %s / %s / %s" % (rec["job"], rec["label"], rec["native"]))
    for js in jsum[:12]: samples.append({"job": js["job"], "bounds": js["bounds"], "paths": js["paths"], "asserts": js["asserts"]})
    cov = dict(tot); cov["solver_s"] = round(cov["solver_s"], 2)
    cov.update(explanation=P["how"], evaluations=tot["done"], distinct_nontrivial=tot["done"], states=tot["forks"] + len(jsum), transitions=tot["steps"], traces_validated_against_impl=len(nat),
               obligations=tot["asserts"], discharged=max(0, tot["asserts"] - len(nat)), rule="one evaluation = one symbolic path of a harness over the compiled sources, covering every input value satisfying its path condition; paths differ in at least one solver-decided branch",
               functions_encoded=sorted(funcs), jobs=jsum, samples=samples, exhaustive=all(j["complete"] and not j["cut"] and not j["unsupported"] for j in jsum), notes=notes[:60], unconfirmed=unconfirmed[:20], known_findings=[dict(r, finding=k["id"]) for r, k in knownhits],
               bounds=[j["job"] + ": " + j["bounds"] for j in jsum], trusted_base=["clang 18 -O1 lowering", "engine/symex", "z3 4.8.12", "harness models named in the assumptions"])
    ev = dict(property=prop, tier=tier, seed=seed, level=P.get("level", "model_checking"), coverage=cov, assumptions=P["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only: json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for rec, k in {k["id"]: (r, k) for r, k in knownhits}.values(): print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k["what"], k["id"]))
    notes[:] = list(dict.fromkeys(notes))
    for n in notes[:40]: print("note:", n[:900])
    print("%s %s: jobs=%d paths=%d asserts=%d queries=%d (solver %.1fs) cut=%d unsupported=%d complete=%s wall=%.1fs" % (prop, tier, len(jsum), tot["done"], tot["asserts"], tot["queries"], tot["solver_s"], tot["cut"] + tot["limit"], tot["unsupported"], cov["exhaustive"], time.time() - t0))
    if confirmed:
        rd = os.path.join(HERE, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        for i, rec in enumerate(confirmed[:5]):
            f = os.path.join(rd, "%s.%d.json" % (prop, i)); json.dump(rec, open(f, "w"), indent=1)
            print("  counterexample: job=%s assertion=%s at %s\n    native: %s" % (rec["job"], rec["label"], rec["where"], rec["native"].split("\n")[0]))
            print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    if tot["done"] == 0 or bad == len(jsum): print("no path was explored"); return 2
    return 0

if __name__ == "__main__": main()
