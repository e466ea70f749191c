#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property of /repo's current tree
   check.py --setup                     builds the tools and warms the build caches
   check.py --replay FILE               replays a counterexample against the native build

The server in /repo is compiled to LLVM IR together with the property's harness, and
the IR is executed symbolically; Z3 decides every branch and assertion (see DESIGN.md).
Exit 0: the property held on everything explored, exit 1 + VIOLATION line: it is broken,
exit 2: no verdict (build or machinery failure, incomplete exploration)."""
import fcntl, json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T = os.path.join(V, "target")
TOOLS = os.path.join(T, "tools")
TOOLCHAIN = "1.74.1"
sys.path.insert(0, V)
import props  # noqa: E402


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


def sh(cmd, env=None, cwd=V, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def newer(out, *ins):
    return os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(i) for i in ins)


def build_tools():
    os.makedirs(TOOLS, exist_ok=True)
    E = os.path.join(V, "engine")
    src = [os.path.join(E, f) for f in os.listdir(E)]
    jobs = []
    if not newer(os.path.join(TOOLS, "symex"), *src):
        jobs.append(f"g++ -O2 -std=c++17 -fno-rtti -fexceptions $(llvm-config-18 --cppflags) -w {E}/symex.cpp -o {TOOLS}/symex.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 && mv {TOOLS}/symex.tmp {TOOLS}/symex")
    if not newer(os.path.join(TOOLS, "prep"), os.path.join(E, "prep.cpp")):
        jobs.append(f"g++ -O1 -std=c++17 -fno-rtti -fexceptions $(llvm-config-18 --cppflags) -w {E}/prep.cpp -o {TOOLS}/prep.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 && mv {TOOLS}/prep.tmp {TOOLS}/prep")
    ps = [subprocess.Popen(j, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for j in jobs]
    for p in ps:
        out, _ = p.communicate()
        if p.returncode:
            raise RuntimeError("building the engine failed:\n" + out[-3000:])


def cargo_env(extra=None):
    e = {"RUSTUP_TOOLCHAIN": TOOLCHAIN, "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "", "CARGO_TERM_COLOR": "never"}
    for k in ("CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS"):
        os.environ.pop(k, None)
    e.update(extra or {})
    return e


def build_ir(prop):
    """The whole server + this property's harness as one unoptimised LLVM module."""
    feat = prop.lower()
    bc = os.path.join(T, f"{feat}.raw.bc")
    r = sh(["cargo", "rustc", "--release", "--offline", "--bin", "hirverif", "--features", "tower-lsp/" + feat, "--",
            f"--emit=llvm-bc={bc}", "-C", "no-prepopulate-passes", "-C", "linker=/bin/true"],
           env=cargo_env({"CARGO_TARGET_DIR": os.path.join(T, "ir")}), cwd=os.path.join(V, "harness"))
    if r.returncode or not os.path.exists(bc):
        raise RuntimeError("building /repo to LLVM IR failed:\n" + r.stdout[-4000:])
    return bc


def build_native(prop):
    feat = prop.lower()
    td = os.path.join(T, "native")
    r = sh(["cargo", "build", "--profile", "replay", "--offline", "--bin", "hirverif", "--features", "tower-lsp/" + feat],
           env=cargo_env({"CARGO_TARGET_DIR": td, "RUSTFLAGS": "--cfg hv_native"}), cwd=os.path.join(V, "harness"))
    b = os.path.join(td, "replay", "hirverif")
    if r.returncode or not os.path.exists(b):
        raise RuntimeError("building the replay binary failed:\n" + r.stdout[-3000:])
    dst = os.path.join(T, f"replay-{feat}")
    sh(["cp", "-f", b, dst])
    return dst


def replay(binary, path, timeout=60):
    """Runs a counterexample natively. Returns (reproduced, how)."""
    sh(["rm", "-rf", "/tmp/hv-replay-root"])  # the files a harness asks for
    e = dict(os.environ, HV_INPUT=path, RUST_BACKTRACE="0")
    try:
        r = subprocess.run([binary], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, "hang", "the native run did not end within %d s" % timeout
    finally:
        sh(["rm", "-rf", "/tmp/hv-replay-root"])
    if r.returncode == 0:
        return False, "pass", r.stdout
    if r.returncode == 4:
        return False, "assumption", r.stdout
    m = re.search(r"HV assertion (\d+) violated", r.stdout)
    if r.returncode == 3 and m:
        return True, "assertion " + m.group(1), r.stdout
    return True, "crash", r.stdout


def symex(bc, run, workers, timeout):
    cmd = [os.path.join(TOOLS, "symex"), bc, "--harness", str(run["h"]), "--workers", str(workers), "--timeout", str(timeout)]
    for p in run.get("params", []):
        cmd += ["--param", str(p)]
    if "max_path" in run:
        cmd += ["--max-path", str(run["max_path"])]
    t0 = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    try:
        d = json.loads(r.stdout)
    except ValueError:
        d = {"complete": False, "errors": 1, "error": "no output: " + (r.stdout[-500:] + r.stderr[-1500:]), "violations": [], "paths": 0, "reach": {}, "checks": {}, "samples": [], "functions": []}
    d["wall"] = time.time() - t0
    if d["errors"] and not d["error"]:
        d["error"] = r.stderr[-800:]
    return d


def write_replay(prop, run, v, n):
    d = os.path.join(V, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{run['h']}-{n}.txt")
    with open(p, "w") as f:
        f.write(f"# counterexample for {prop}: {run['what']}\n# {v['kind']} {v['code']} {v['msg']}\n")
        f.write("# replay: python3 /verif/check.py --replay " + p + "\n")
        for t in v.get("text", "").split("\x1e"):
            if t:
                f.write("# text: " + json.dumps(t) + "\n")
        f.write(f"property {prop}\nharness {run['h']}\n")
        for x in run.get("params", []):
            f.write(f"param {x}\n")
        for _, x in v["inputs"]:
            f.write(f"in {x}\n")
    return p


def main():
    if len(sys.argv) < 2:
        die(__doc__)
    os.makedirs(T, exist_ok=True)
    if sys.argv[1] == "--setup":
        build_tools()
        sh(["cargo", "fetch", "--offline"], env=cargo_env(), cwd=os.path.join(V, "harness"))
        print("setup done")
        return
    if sys.argv[1] == "--replay":
        f = sys.argv[2]
        prop = [l.split()[1] for l in open(f) if l.startswith("property ")][0]
        ok, how, out = replay(build_native(prop), f)
        print(out)
        print("REPRODUCED" if ok else "not reproduced", how)
        sys.exit(1 if ok else 0)

    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = props.PROPS[prop]
    t0 = time.time()
    budget = float(os.environ.get("HV_BUDGET", "760" if tier == "quick" else "7200"))
    lock = open(os.path.join(T, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)

    errs = []

    def tools():
        try:
            build_tools()
        except Exception as e:  # noqa: BLE001
            errs.append(str(e))
    th = threading.Thread(target=tools)
    th.start()
    try:
        raw = build_ir(prop)
    except RuntimeError as e:
        th.join()
        die(str(e))
    th.join()
    if errs:
        die(errs[0])
    bc, fns = os.path.join(T, prop.lower() + ".bc"), os.path.join(T, prop.lower() + ".fns")
    if not newer(bc, raw, os.path.join(TOOLS, "prep")):
        r = sh([os.path.join(TOOLS, "prep"), raw, bc + ".tmp", fns])
        if r.returncode:
            die("prep failed: " + r.stdout[-2000:])
        os.replace(bc + ".tmp", bc)
    build_s = time.time() - t0
    lock.close()

    only = os.environ.get("HV_ONLY")
    runs = [r for r in spec["runs"] if (tier == "thorough" or not r.get("thorough")) and (not only or str(r["h"]) in only.split(","))]
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == prop and k["status"] == "open"]
    native = None
    viols, findings, results, incomplete, machinery = [], [], [], [], []
    for run in runs:
        left = budget - (time.time() - t0)
        if left < 5:
            incomplete.append(f"{run['what']}: out of time")
            continue
        d = symex(bc, run, int(os.environ.get("HV_WORKERS", "8")), min(left, run.get("timeout", 1e9)))
        results.append((run, d))
        sys.stdout.write("%s h%-3s %-58s %7d paths %6d queries %6.1fs wall%s\n" % (
            prop, run["h"], run["what"][:58], d["paths"], d.get("solver_queries", 0), d["wall"],
            "" if d["complete"] and not d["errors"] else "  INCOMPLETE " + d["error"]))
        if os.environ.get("HV_REACH"):
            print("      reach", d["reach"], "solver", d.get("solver_s"), "checks", {k: v[0] for k, v in d["checks"].items()})
        sys.stdout.flush()
        if d["errors"]:
            machinery.append(f"{run['what']}: {d['error']}")
        fnd = [k for k in known if k["harness"] == run["h"]]
        expected = False
        for n, v in enumerate(d["violations"]):
            rp = write_replay(prop, run, v, n)
            if native is None:
                try:
                    native = build_native(prop)
                except RuntimeError as e:
                    die(str(e))
            for _ in range(8):  # native hash maps have a new order in each run
                ok, how, out = replay(native, rp)
                if ok:
                    break
            with open(rp, "a") as f:
                f.write("# native run: %s (%s)\n" % ("reproduced" if ok else "NOT reproduced", how))
            if not ok:
                machinery.append(f"counterexample {rp} ({v['kind']} {v['msg']}) is not reproduced by the native run: {how}")
                continue
            k = [k for k in fnd if [v["kind"], v["code"]] in k["match"] and (not k.get("msg") or k["msg"] in v["msg"])]
            if k:
                expected = True
                if k[0]["id"] not in [x["id"] for x in findings]:
                    findings.append(k[0])
                continue
            viols.append((run, v, rp, how))
            print(f"  {v['kind']} {v['code']} {v['msg']} [{how}]")
            for t in v.get("text", "").split("\x1e")[:3]:
                if t:
                    print("    text " + json.dumps(t))
            if how == "hang":
                break
        if viols:
            break
        if not d["complete"] and not expected and not d["errors"]:
            incomplete.append(f"{run['what']}: exploration not completed")
        if not d["violations"] and not d["errors"]:
            miss = [c for c in run.get("reach", []) if not d["reach"].get(str(c))]
            if miss:
                machinery.append(f"{run['what']}: vacuous, never reached {miss}")

    # evidence
    S = lambda k: sum(d.get(k, 0) for _, d in results)  # noqa: E731
    samples = []
    for run, d in results:
        for s in d["samples"][:3]:
            samples.append({"harness": run["h"], "inputs": [x[1] for x in s["inputs"]], "text": [t for t in s["text"].split("\x1e") if t]})
    validated = 0
    if tier == "thorough" and not viols and not machinery:
        try:
            native = native or build_native(prop)
            for run, d in results:
                if any(k["harness"] == run["h"] for k in known):
                    continue
                for n, s in enumerate(d["samples"]):
                    rp = write_replay(prop, run, {"kind": "sample", "code": 0, "msg": "", "inputs": s["inputs"], "text": s["text"]}, "sample")
                    ok, how, out = replay(native, rp)
                    if how != "pass":
                        machinery.append(f"native run of an explored path disagrees: harness {run['h']} {how} {out[-300:]}")
                    validated += 1
                    os.remove(rp)
        except RuntimeError as e:
            machinery.append(str(e))
    fl = [l.strip() for l in open(fns)] if os.path.exists(fns) else []
    named = sorted({re.sub(r"\$[A-Za-z0-9]+\$", "_", f)[:140] for f in fl if not f.startswith("core::ptr::drop_in_place") and ("hyper_ir_lsp" in f[:60] or "hirverif" in f[:60])})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the LLVM IR of /repo's server (rebuilt for this run); every branch on symbolic data and every assertion is decided by Z3 (QF_BV) over all values within the bounds.",
            "evaluations": S("paths"),
            "distinct_nontrivial": S("paths") - S("pruned"),
            "rule": "one evaluation = one feasible path, i.e. one satisfiable path condition over the symbolic inputs, standing for all inputs that meet it; distinct path conditions are disjoint",
            "samples": samples[:20],
            "runs": [{"harness": r["h"], "what": r["what"], "bounds": r["bounds"], "complete": d["complete"], "paths": d["paths"],
                      "instructions": d.get("instructions", 0), "symbolic_inputs": d.get("symbols", 0), "branch_decisions": d.get("decisions", 0),
                      "solver_queries": d.get("solver_queries", 0), "sat": d.get("solver_sat", 0), "unsat": d.get("solver_unsat", 0),
                      "solver_s": d.get("solver_s", 0), "assertions": d.get("asserts", 0), "assertions_symbolic": d.get("asserts_symbolic", 0),
                      "path_conditions_checked": d.get("pc_checks", 0), "witnesses": d["reach"], "wall_s": round(d["wall"], 2)} for r, d in results],
            "solver_queries": S("solver_queries"), "solver_s": round(S("solver_s"), 3), "assertions": S("asserts"),
            "instructions": S("instructions"),
            "repo_functions_encoded": len(named), "functions": named[:400],
            "paths_validated_natively": validated,
            "build_s": round(build_s, 1),
            "exhaustive": not incomplete and not machinery and not viols,
            "known_findings": [k["id"] for k in findings],
        },
        "assumptions": props.COMMON + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    p = os.path.join(V, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)

    for k in findings:
        print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
    print(f"{prop} {tier}: {S('paths')} paths, {S('solver_queries')} solver queries ({S('solver_s'):.1f} s), build {build_s:.0f} s, total {time.time()-t0:.0f} s")
    if viols:
        for _, _, rp, _ in viols[:5]:
            print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    if machinery or incomplete:
        die("; ".join(machinery + incomplete))


if __name__ == "__main__":
    main()
