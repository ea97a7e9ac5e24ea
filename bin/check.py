#!/usr/bin/env python3
"""check.py <property-id>: decide one property on /repo's current working tree.

1. compiles the contract file(s) of the property together with the real sources of /repo to LLVM IR,
2. runs the deductive engine (build/ctv) on every proof_* function (all obligations, all paths),
3. replays failures natively (real doubles, ASan) to obtain a failing input,
4. writes evidence/<id>.json and reports.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CTV_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS  # noqa

CORES = int(os.environ.get("CTV_CORES", "8"))
INC = ["-I" + V + "/contracts", "-I" + REPO + "/ct_core/include", "-I" + REPO + "/ct_optcon/include",
       "-I" + REPO + "/ct_rbd/include", "-I" + REPO + "/ct_models/include",
       "-I" + REPO + "/ct_optcon/include/external", "-I" + V + "/contracts/stubs", "-I/usr/include/eigen3"]
IRFLAGS = ["-std=c++14", "-O2", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-pie",
           "-fno-math-errno", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_CPUID", "-DNDEBUG", "-gline-tables-only",
           "-ferror-limit=5"]


def run(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True,
                           errors="replace", **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def die(msg, code=2):
    print("CHECK-ERROR: " + msg)
    sys.exit(code)


def main():
    pid = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    prop = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ctv = V + "/build/ctv"
    if not os.path.exists(ctv) or not os.path.exists(V + "/build/support.bc"):
        rc, o, e = run(["bash", V + "/bin/setup.sh"], timeout=1500)
        if rc:
            die("setup failed: " + e[-2000:])
    tmp = tempfile.mkdtemp(prefix="ctv_%s_" % pid)
    try:
        rc = work(pid, prop, tier, seed, t0, ctv, tmp, only)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def work(pid, prop, tier, seed, t0, ctv, tmp, only):
    units = prop["units"]
    budget = int(os.environ.get("CTV_BUDGET", 0)) or prop.get("budget", 200 if tier == "quick" else 1200)

    def compile_unit(u):
        src = V + "/contracts/" + u + ".cpp"
        bc = tmp + "/" + u + ".bc"
        extra = prop.get("flags", [])
        rc, o, e = run(["clang++"] + IRFLAGS + INC + extra + ["-emit-llvm", "-c", src, "-o", bc], timeout=600)
        if rc:
            return u, None, e
        lk = tmp + "/" + u + ".l.bc"
        rc, o, e = run(["llvm-link-18", bc, "--only-needed", V + "/build/support.bc", "-o", lk], timeout=120)
        if rc:
            return u, None, e
        rc, o, e = run([ctv, lk, "--list"], timeout=60)
        return u, (lk, o.split()), e

    jobs = []
    with cf.ThreadPoolExecutor(CORES) as ex:
        for u, r, e in ex.map(compile_unit, units):
            if r is None:
                die("contract unit %s does not compile against the current tree:\n%s" % (u, e[-3000:]))
            if not r[1]:
                die("no proofs in " + u)
            for p in r[1]:
                if only and not re.search(only, p):
                    continue
                jobs.append((u, r[0], p))
    tcompile = time.time() - t0

    def prove(j):
        u, bc, p = j
        ot = "15000" if tier == "quick" else "60000"
        b = budget
        if tier == "quick":  # a check has 900 s in all
            b = max(20, min(budget, int(520 - (time.time() - t0))))
        rc, o, e = run([ctv, bc, p, "-t", str(b), "-o", ot], timeout=b * 1.2 + 45)
        try:
            r = json.loads(o)
        except Exception:
            r = {"proof": p, "unsupported": "engine ended with rc=%s %s" % (rc, e[-300:]), "labels": {}, "obligations": 0,
                 "discharged": 0, "failed": [], "undecided": [], "covers": {}, "backends": {}, "functions": [], "externs": [],
                 "assumptions": [], "loops": [], "paths": 0, "solver_secs": 0, "queries": 0, "secs": 0, "infeasible": 0}
        r["unit"] = u
        return r

    with cf.ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(prove, jobs))

    known = json.load(open(V + "/known_findings.json")) if os.path.exists(V + "/known_findings.json") else {"findings": []}
    kf = [k for k in known["findings"] if k.get("status") == "known" and k["property"] == pid]

    native = {}

    def get_native(u):
        if u in native:
            return native[u]
        exe = tmp + "/" + u + ".native"
        cmd = (["clang++", "-std=c++14", "-O1", "-w", "-DCTV_NATIVE", "-DNDEBUG", "-g0", "-fsanitize=address", "-rdynamic"] + INC
               + prop.get("flags", []) + prop.get("native_flags", []) + [V + "/contracts/" + u + ".cpp", V + "/contracts/native.cpp", "-o", exe, "-ldl", "-lpthread"]
               + prop.get("native_libs", []))
        rc, o, e = run(cmd, timeout=600)
        native[u] = exe if rc == 0 else None
        if rc:
            print("note: native replay build failed: " + e[-500:])
        return native[u]

    def replay(r, model):
        """returns (found, text)"""
        left = (840 if tier == "quick" else 36000) - (time.time() - t0)
        if left < 60:
            return False, "no time left for the native replay"
        exe = get_native(r["unit"])
        if not exe:
            return False, "native replay unavailable"
        mf = ""
        if model:
            mf = tmp + "/model.txt"
            with open(mf, "w") as f:
                for k, v in model.items():
                    if " " not in k:
                        f.write("%s %.17g\n" % (k, v))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_segv=0:handle_abort=0:exitcode=99:allocator_may_return_null=1")
        rc, o, e = run([exe, r["proof"], str(seed), "20000" if tier == "quick" else "200000", mf, "20" if tier == "quick" else "120"], timeout=min(300, left), env=env)
        if rc == 1 and "FAIL" in o:
            return True, o[:6000]
        if rc == 99 or "AddressSanitizer" in e:
            return True, "memory error reported by AddressSanitizer on the real code:\n" + e[:4000]
        return False, (o + e)[:2000]

    os.makedirs(V + "/evidence", exist_ok=True)
    rdir = V + "/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    violations, bounded, knownhits, errors = [], [], [], []
    for r in res:
        fails = r["failed"]
        rest = []
        for f in fails:
            hit = [k for k in kf if k["proof"] == r["proof"] and re.search(k["label"], f["label"])]
            if hit:
                knownhits.append(hit[0])
            else:
                rest.append(f)
        if rest:
            model = next((f["model"] for f in rest if f.get("hasModel")), None)
            if any(v[2] for v in violations) and tier == "quick":
                ok, txt = False, "not replayed: another obligation of this property has a failing input"
            else:
                ok, txt = replay(r, model)
            violations.append((r, rest, ok, txt))
            continue
        und = r["unsupported"] or r["undecided"]
        if und:
            model = next((f["model"] for f in r["undecided"] if f.get("hasModel")), None)
            ok, txt = replay(r, model)
            if ok:
                # known findings may show up here as well
                labs = re.findall(r"violated: ([^(\n]*)", txt)
                if labs and all(any(k["proof"] == r["proof"] and re.search(k["label"], l.strip()) for k in kf) for l in labs):
                    bounded.append((r, "undecided; native replay shows only listed findings"))
                else:
                    violations.append((r, r["undecided"] or [{"label": "undecided", "detail": r["unsupported"]}], True, txt))
            else:
                bounded.append((r, (r["unsupported"] or "; ".join("%s: %s" % (x["label"], x["detail"][:120]) for x in r["undecided"][:3]))
                                + " | bounded native stand-in: " + txt.strip()[:160]))
        elif not fails:
            if r["obligations"] == 0 or r["paths"] == 0:
                errors.append("%s: vacuous (paths=%d, obligations=%d)" % (r["proof"], r["paths"], r["obligations"]))
            elif not r["covers"]:
                errors.append("%s: no cover point reached" % r["proof"])

    tot = sum(r["obligations"] for r in res)
    dis = sum(r["discharged"] for r in res)
    backends = {}
    for r in res:
        for k, v in r["backends"].items():
            backends[k] = backends.get(k, 0) + v
    funcs = sorted({f for r in res for f in r["functions"]})
    assumptions = sorted({a for r in res for a in r["assumptions"]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.get("level", "proof"),
        "coverage": {
            "obligations": tot, "discharged": dis,
            "checker_cmd": "python3 bin/check.py " + pid,
            "trusted_base": ["clang 18 front end and -O2 middle end (C++ -> LLVM IR)", "ctv engine (/verif/engine: IR semantics, ring normaliser, case splits)",
                             "z3 4.8.12 / z3-new / cvc5 for the residual obligations", "models of external functions listed under externs"],
            "proofs": [{"proof": r["unit"] + ":" + r["proof"], "paths": r["paths"], "obligations": r["obligations"], "discharged": r["discharged"],
                        "solver_secs": round(r["solver_secs"], 3), "queries": r["queries"], "secs": round(r["secs"], 2), "covers": r["covers"],
                        "labels": r["labels"], "loops": r["loops"],
                        "status": "undecided (bounded stand-in)" if any(b[0] is r for b in bounded) else ("failed" if r["failed"] else "proved")} for r in res],
            "backends": backends,
            "functions_under_contract": len(funcs), "functions": funcs,
            "externs": sorted({x for r in res for x in r["externs"]}),
            "solver_secs": round(sum(r["solver_secs"] for r in res), 3),
            "bounded_standins": [{"proof": b[0]["proof"], "why": b[1]} for b in bounded],
            "compile_secs": round(tcompile, 1),
            "sizes": prop.get("sizes", ""),
        },
        "assumptions": [
            "IEEE double arithmetic is treated as exact real arithmetic (literals are read as the simplest rational that rounds to them)",
            "symbolic inputs are finite (no NaN/inf); divisions are considered where the divisor is non-zero",
            "single-threaded execution" if pid != "C31" else "sequentially consistent execution with the switches stated in sizes",
        ] + assumptions + prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    for k in {json.dumps(k, sort_keys=True) for k in knownhits}:
        k = json.loads(k)
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for r, why in bounded:
        print("BOUNDED: %s %s" % (r["proof"], why))
    print("%s: %d proofs, %d/%d obligations discharged, %d functions of /repo executed under contract, %.1fs"
          % (pid, len(res), dis, tot, len(funcs), time.time() - t0))
    if violations:
        for r, fl, found, txt in violations:
            path = "%s/%s_%s.txt" % (rdir, pid, r["proof"])
            with open(path, "w") as f:
                f.write("property %s\nproof %s (contracts/%s.cpp)\n\nfailed obligations:\n" % (pid, r["proof"], r["unit"]))
                seen = {}
                for x in fl:
                    seen[x["label"]] = seen.get(x["label"], 0) + 1
                    if seen[x["label"]] > 2:
                        continue
                    f.write("  [%s] %s\n    %s\n    model: %s\n" % (x["label"], x.get("status", ""), x.get("detail", ""), json.dumps(x.get("model", {}))))
                f.write("\nreplay against the real code: %s\n%s\n" % ("FAILS" if found else "no failing input found", txt))
            print("  %s: failed obligation(s): %s" % (r["proof"], ", ".join(sorted({x["label"] for x in fl}))))
            print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if found else " no-failing-input-found"))
        return 1
    if errors:
        for e in errors:
            print("CHECK-ERROR: " + e)
        return 2
    return 0


main()
