#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--strict]

Decides one property: rebuilds the property's harness from /repo's current tree, translates the compiler's
post-LTO LLVM IR into symbolic states with /verif/symex (z3 decides every branch, address and assertion), replays
each counterexample natively, and writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION.  Exit 2: the check itself could not give an answer.
"""
import sys, os, json, subprocess, time, glob, threading, shutil, re
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TOPPO_REPO", "/repo")
OUT = os.path.join(V, "out")
sys.path.insert(0, os.path.join(V, "checks"))
import spec  # noqa: E402

ENV = dict(os.environ)
ENV.update(HOME=os.environ.get("HOME", "/root"), RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
LOG = []


def log(*a):
    s = " ".join(str(x) for x in a)
    LOG.append(s)
    print(s, flush=True)


class Broken(Exception):
    pass


def sh(cmd, cwd=None, timeout=800, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    return p.returncode, p.stdout


def build_symex():
    rc, o = sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "symex"))
    if rc != 0:
        raise Broken("symex does not build:\n" + o[-3000:])
    return os.path.join(V, "symex/target/release/symex")


def crate_dir(fam):
    """harness crates are copied next to their build output so that nothing under git control is written"""
    d = os.path.join(V, "harness", fam)
    shutil.copyfile("/opt/vp/Cargo.lock" if os.path.exists("/opt/vp/Cargo.lock") else os.path.join(V, "checks/Cargo.lock.seed"), os.path.join(d, "Cargo.lock"))
    return d


def build_module(fam):
    d = crate_dir(fam)
    for f in glob.glob(os.path.join(d, f"target/release/deps/h_{fam}.h_{fam}.*")):
        os.remove(f)
    # touch the root crate so that cargo emits the bitcode again even when nothing changed
    os.utime(os.path.join(d, "src/props.rs"))
    rc, o = sh(["cargo", "rustc", "--release", "--lib", "--offline", "--", "-C", "save-temps", "-C", "linker=/bin/true",
                "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], cwd=d)
    if rc != 0:
        raise Broken(f"harness {fam} does not compile against the current tree:\n" + o[-4000:])
    bc = [f for f in glob.glob(os.path.join(d, f"target/release/deps/h_{fam}.h_{fam}.*-cgu.0.rcgu.bc")) if "lto" not in f and "no-opt" not in f]
    if len(bc) != 1:
        raise Broken(f"expected one bitcode module for {fam}, found {bc}")
    rc, root = sh(["rustc", "--print", "sysroot"])
    os.makedirs(OUT, exist_ok=True)
    ll = os.path.join(OUT, f"{fam}.{os.getpid()}.ll")
    rc, o = sh([os.path.join(root.strip(), "lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis"), bc[0], "-o", ll])
    if rc != 0:
        raise Broken("llvm-dis failed: " + o[-2000:])
    for f in glob.glob(os.path.join(d, f"target/release/deps/h_{fam}.h_{fam}.*")):
        os.remove(f)
    return ll


def build_native(fam):
    d = crate_dir(fam)
    rc, o = sh(["cargo", "build", "--bin", f"native_{fam}", "--features", "native", "--profile", "replay", "--offline"], cwd=d)
    if rc != 0:
        raise Broken(f"native replayer {fam} does not build:\n" + o[-4000:])
    return os.path.join(d, f"target/replay/native_{fam}")


def native(binp, run, inputs, tag, tool=None, timeout=30):
    os.makedirs(OUT, exist_ok=True)
    f = os.path.join(OUT, f"in.{os.getpid()}.{tag}.txt")
    with open(f, "w") as h:
        h.write("\n".join(inputs) + "\n")
    cmd = [binp, run["h"], ",".join(map(str, run["p"])), f]
    if tool:
        cmd = tool + cmd
    cmd = ["bash", "-c", 'ulimit -v 8000000; ulimit -c 0; exec "$@"', "x"] + cmd
    try:
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        rc, o = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, o = "timeout", ""
    finally:
        os.remove(f)
    r = {"rc": rc, "obs": re.findall(r"^OBS (\d+)$", o, re.M), "fails": re.findall(r"^FAIL (.*)$", o, re.M),
         "panic": re.findall(r"^PANIC (.*)$", o, re.M), "end": (re.findall(r"^END (.*)$", o, re.M) or [None])[0], "out": o[-2500:]}
    return r


def reproduces(binp, run, v, tag):
    """replays a counterexample; returns a description when the real code fails on it"""
    r = native(binp, run, v["inputs"], tag)
    if r["end"] == "assume":
        return None
    if r["rc"] == "timeout":
        return "does not terminate within 30 s"
    if r["fails"]:
        return "fails: " + "; ".join(r["fails"])
    if r["panic"]:
        return "panics: " + r["panic"][0]
    if r["end"] is None:
        return f"crashes (status {r['rc']}): {r['out'][-300:]}"
    if v["kind"] in ("memory", "uninit", "ub", "stack") and shutil.which("valgrind"):
        r = native(binp, run, v["inputs"], tag, ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no"], 300)
        if r["rc"] == 99 or r["end"] is None:
            return "memory error: " + r["out"][:600].replace("\n", " | ")
    return None


def merge(lines):
    R = [json.loads(x) for x in lines if x.strip()]
    m = {k: sum(r[k] for r in R) for k in ("paths", "killed", "assume_kills", "expected_panics", "instrs", "forks", "checks", "incomplete", "queries", "sat", "unsat", "unknown")}
    m["solver_s"] = round(sum(r["solver_s"] for r in R), 3)
    m["max_query_s"] = max([r["max_query_s"] for r in R] or [0])
    m["z3"] = R[0]["z3"] if R else ""
    m["errors"] = sorted({e for r in R for e in r["errors"]})
    for k in ("covers", "labels"):
        m[k] = {}
        for r in R:
            for a, b in r[k].items():
                m[k][a] = m[k].get(a, 0) + b
    viol = {}
    for r in R:
        for v in r["violations"]:
            key = (v["kind"], v["label"])
            if key in viol:
                viol[key]["count"] += v["count"]
                viol[key]["alt"].append(v["inputs"])
            else:
                viol[key] = dict(v, alt=[])
    m["violations"] = list(viol.values())
    m["samples"] = [s for r in R for s in r["samples"]]
    m["funcs"] = sorted({f for r in R for f in r["funcs"]})
    m["procs"] = len(R)
    return m


def demangle(names):
    if not names:
        return []
    if shutil.which("c++filt"):
        p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return p.stdout.split("\n")[:len(names)]
    return names


def run_one(symex, ll, run, tier, idx, jobs, budget):
    f = os.path.join(OUT, f"res.{os.getpid()}.{idx}.json")
    if os.path.exists(f):
        os.remove(f)
    cmd = [symex, ll, "--harness", run["h"], "--params", ",".join(map(str, run["p"])), "--out", f, "--jobs", str(jobs), "--time", str(budget), "--samples", "6"] + run.get("opts", [])
    t = time.time()
    try:
        rc, o = sh(cmd, timeout=budget * 2 + 60)
    except subprocess.TimeoutExpired:
        rc, o = "timeout", ""
        subprocess.run(["pkill", "-f", f])
    lines = open(f).read().split("\n") if os.path.exists(f) else []
    if os.path.exists(f):
        os.remove(f)
    m = merge(lines)
    m["rc"] = rc
    m["wall_s"] = round(time.time() - t, 2)
    m["log"] = o[-1500:]
    return m


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    strict = False
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--only": only = a.pop(0)
        elif x == "--strict": strict = True
    t0 = time.time()
    prop = spec.PROPS[pid]
    runs = [dict(r) for r in prop["runs"] if (tier == "thorough" or r.get("tier", "q") == "q") and not (tier == "thorough" and r.get("tier") == "qonly")]
    if only: runs = [r for r in runs if re.search(only, r["h"])]
    fams = sorted({r["fam"] for r in runs})
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": {}, "wall_s": 0.0, "violations": 0,
          "assumptions": spec.ASSUMPTIONS + prop.get("assumptions", [])}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    evp = os.path.join(V, "evidence", pid + ".json")

    def write_ev():
        ev["wall_s"] = round(time.time() - t0, 2)
        with open(evp, "w") as h:
            json.dump(ev, h, indent=1)

    try:
        with ThreadPoolExecutor(16) as ex:
            fs = ex.submit(build_symex)

            def both(fam):
                ll = build_module(fam)   # shares dependency builds with the replayer: one after the other
                return ll
            ms = {f: ex.submit(both, f) for f in fams}
            symex = fs.result()
            lls = {f: ms[f].result() for f in fams}
            tb = time.time() - t0
            log(f"[{pid}] built {', '.join(fams)} in {tb:.1f}s")
            ns = {f: ex.submit(build_native, f) for f in fams}
            limit = prop.get("time", {}).get(tier, 240 if tier == "quick" else 800 - tb)
            budget0 = max(30, limit)
            tstart = time.time()
            res = [None] * len(runs)

            def go(i):
                left = max(5, budget0 - (time.time() - tstart))
                r = runs[i]
                b = min(left, r.get("time", {}).get(tier, left) if isinstance(r.get("time"), dict) else r.get("time", left))
                res[i] = run_one(symex, lls[r["fam"]], r, tier, i, r.get("jobs", 1), b)
            with ThreadPoolExecutor(8) as px:
                list(px.map(go, [i for i in range(len(runs)) if runs[i].get("jobs", 1) == 1]))
            for i in range(len(runs)):
                if runs[i].get("jobs", 1) > 1:
                    go(i)
            bins = {f: ns[f].result() for f in fams}
            for f in fams:
                os.remove(lls[f])
    except Broken as e:
        log("ERROR " + str(e))
        ev["coverage"] = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "error": str(e)[:2000]}
        write_ev()
        return 2

    # ---- verdict ----
    vio, unrepro, notes, samples, per = [], [], [], [], []
    validated, mism = 0, []
    tasks = []
    with ThreadPoolExecutor(8) as ex:
        for i, (r, m) in enumerate(zip(runs, res)):
            b = bins[r["fam"]]
            for k, v in enumerate(m["violations"]):
                tasks.append(("v", r, m, v, ex.submit(lambda r=r, v=v, b=b, i=i, k=k: next((z for z in ((x, reproduces(b, r, dict(v, inputs=x), f"{i}.{k}")) for x in [v["inputs"]] + v["alt"][:3]) if z[1]), None))))
            if "--real" not in r.get("opts", []):
                ss = m["samples"]
                step = max(1, len(ss) // 12)
                for k, s in enumerate(ss[::step][:12]):
                    tasks.append(("s", r, m, s, ex.submit(native, b, r, s["inputs"], f"s{i}.{k}")))
        for kind, r, m, v, fu in tasks:
            z = fu.result()
            name = f"{r['h']}({','.join(map(str, r['p']))})"
            if kind == "v":
                if z: vio.append((r, v, z[0], z[1]))
                else: unrepro.append((r, v))
            else:
                obs = [x.split("=", 1)[1] for x in v["obs"]]
                want = {"ok": "ok", "panic": "expected-panic"}.get(v["outcome"], v["outcome"])
                if m["violations"]:
                    continue
                if z["end"] != want or z["obs"][:len(obs)] != obs:
                    mism.append(f"{name} inputs {v['inputs'][:40]}: predicted {want} {obs[:20]}, real code gave {z['end']} {z['obs'][:20]} {z['out'][-200:]}")
                else:
                    validated += 1
                    if len(samples) < 12:
                        samples.append({"run": name, "inputs": v["inputs"][:64], "outcome": v["outcome"], "observed": obs[:32]})
    broken = []
    tot = {k: sum(m[k] for m in res) for k in ("paths", "killed", "expected_panics", "instrs", "forks", "checks", "incomplete", "queries", "sat", "unsat", "unknown")}
    for r, m in zip(runs, res):
        name = f"{r['h']}({','.join(map(str, r['p']))})"
        missing = [c for c in r.get("covers", ["end"]) if not m["covers"].get(c)]
        complete = not m["incomplete"] and not m["errors"] and m["rc"] == 0 and not m["unknown"]
        if m["paths"] == 0 and not m["violations"]:
            broken.append(f"{name}: nothing explored: rc={m['rc']} {m['errors'][:3]} {m['log'][-400:]}")
        elif missing and complete and not m["violations"]:
            broken.append(f"{name}: reachability witness not reached: {missing}")
        if not complete:
            notes.append(f"{name}: exploration incomplete (pending states {m['incomplete']}, unknown {m['unknown']}, rc {m['rc']}, errors {m['errors'][:3]})")
        per.append({"harness": r["h"], "params": r["p"], "bounds": r["b"], "exhaustive_within_bounds": complete, "paths": m["paths"], "instructions": m["instrs"], "assertion_evaluations": m["checks"],
                    "queries": m["queries"], "sat": m["sat"], "unsat": m["unsat"], "unknown": m["unknown"], "solver_s": m["solver_s"], "max_query_s": m["max_query_s"], "wall_s": m["wall_s"],
                    "witnesses": m["covers"], "assertions": m["labels"], "expected_panics": m["expected_panics"], "errors": m["errors"][:5]})
    funcs = sorted(set(demangle(sorted({f for m in res for f in m["funcs"]}))))
    own = [f for f in funcs if re.search(r"\b(util|alg|topo_spaces|geom|analysis)::", f)]
    ev["coverage"] = {
        "states": tot["paths"] + tot["forks"], "transitions": tot["instrs"], "traces_validated_against_impl": validated, "samples": samples,
        "paths": tot["paths"], "assertion_evaluations": tot["checks"], "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"],
        "solver_s": round(sum(m["solver_s"] for m in res), 2), "solver": "z3 " + (res[0]["z3"] if res else ""), "build_s": round(tb, 1),
        "exhaustive": not notes, "functions_encoded": own, "functions_encoded_total": len(funcs), "other_functions_encoded": [f for f in funcs if f not in own][:150],
        "runs": per, "bounds": prop["bounds"], "outside_the_claim": prop.get("outside", ""), "incomplete": notes}
    rc = 0
    if vio:
        ev["violations"] = len(vio)
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        for n, (r, v, inp, what) in enumerate(vio):
            p = os.path.join(d, f"{pid}-{n}.json")
            with open(p, "w") as h:
                json.dump({"property": pid, "family": r["fam"], "harness": r["h"], "params": r["p"], "inputs": inp, "kind": v["kind"], "label": v["label"], "replayed": what, "trace": v["trace"],
                           "how": f"build harness/{r['fam']} with --features native --profile replay; write inputs one per line to FILE; native_{r['fam']} {r['h']} {','.join(map(str, r['p']))} FILE"}, h, indent=1)
            log(f"counterexample {r['h']}{r['p']} [{v['kind']}] {v['label']}: inputs {inp[:40]}: {what}")
        log(f"VIOLATION property={pid} replay={os.path.join(d, pid + '-0.json')}")
        rc = 1
    for r, v in unrepro:
        log(f"NOT REPRODUCED {r['h']}{r['p']} [{v['kind']}] {v['label']} inputs {v['inputs'][:40]} trace {v['trace'][:4]}")
        notes.append(f"solver counterexample that the native build does not reproduce: {r['h']} [{v['kind']}] {v['label']}")
    if rc == 0 and unrepro: rc = 2
    if rc == 0 and mism:
        for x in mism[:5]: log("MISMATCH " + x)
        rc = 2
    if rc == 0 and broken:
        for x in broken: log("BROKEN " + x)
        rc = 2
    if strict and rc == 0 and notes: rc = 3
    for x in notes: log("note: " + x)
    # known findings that are recorded rather than repaired: each has its own concrete run
    for kf in prop.get("known", []):
        log(f"KNOWN-FINDING: property={pid} {kf}")
    for p in per:
        log(f"  {p['harness']}{p['params']}: paths {p['paths']} queries {p['queries']} solver {p['solver_s']}s wall {p['wall_s']}s max {p['max_query_s']}")
    log(f"[{pid}] {tier}: paths {tot['paths']}, assertions {tot['checks']}, queries {tot['queries']} (unsat {tot['unsat']}), validated {validated}, exhaustive {not notes}, {time.time() - t0:.1f}s -> {rc}")
    write_ev()
    return rc


if __name__ == "__main__":
    sys.exit(main())
