#!/usr/bin/env python3
"""Decides one property by symbolic execution of the compiled htrpc code.

usage: check.py ID [quick|thorough]     run the check of one property
       check.py --setup                 build everything the checks need
       check.py --entry NAME [tier]     run a single harness entry (development)
exit status: 0 held, 1 violated (with a VIOLATION line), 2 no answer.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HTRPC_REPO", "/repo")
B = os.path.join(V, "build")
TC = "stable-x86_64-unknown-linux-gnu"


def env(target):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTFLAGS", "CARGO_", "RUSTC"))}
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never")
    return e


class NoAnswer(Exception):
    pass


def run(cmd, cwd, e, what, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    if p.returncode != 0:
        raise NoAnswer("%s failed:\n%s" % (what, p.stdout[-4000:]))
    return p.stdout


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + "/src", V + "/harness/src"):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
    for p in (REPO + "/Cargo.toml", V + "/harness/Cargo.toml", V + "/harness/Cargo.lock"):
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()


def fresh(target, profile):
    """Cargo trusts modification times; make it look again whenever the content changed."""
    mark = os.path.join(target, "tree.sha256")
    now = tree_hash()
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != now:
        for sub in ("deps", ".fingerprint", "incremental"):
            d = os.path.join(target, profile, sub)
            if os.path.isdir(d):
                for f in os.listdir(d):
                    if re.match(r"(lib)?(htrpc|vsh)-", f):
                        p = os.path.join(d, f)
                        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        if os.path.exists(mark):
            os.remove(mark)
    return mark, now


def build_engine():
    t = os.path.join(B, "engine")
    run(["cargo", "build", "--release", "--offline", "-q"], V + "/engine", env(t), "building the engine")
    return os.path.join(t, "release", "symrun")


def entries_in_harness():
    s = open(V + "/harness/src/main.rs").read()
    return re.findall(r"::(h_[a-z0-9_]+)", s)


def build_module():
    """Whole program (harness + htrpc + dependencies + std) as one LLVM module."""
    t = os.path.join(B, "harness")
    os.makedirs(t, exist_ok=True)
    mark, now = fresh(t, "release")
    d = os.path.join(t, "release", "deps")
    find = lambda: [os.path.join(d, f) for f in (os.listdir(d) if os.path.isdir(d) else []) if re.match(r"vsh-.*\.ll$", f)]
    if os.path.exists(mark) and find():  # same sources (by content) as the module there
        return max(find(), key=os.path.getmtime)
    run(["cargo", "rustc", "--release", "--offline", "-q", "--", "--emit=llvm-ir", "-C", "no-prepopulate-passes", "-C", "linker=/bin/true"],
        V + "/harness", env(t), "building the harness")
    open(mark, "w").write(now)
    if not find():
        raise NoAnswer("no LLVM module was produced")
    return max(find(), key=os.path.getmtime)


_sysroot = None


def opt_module(src, entries, out):
    global _sysroot
    if _sysroot is None:
        _sysroot = run(["rustc", "--print", "sysroot"], V, env(B), "rustc").strip()
    opt = _sysroot + "/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt"
    run([opt, "-S", "-strip-debug",
         "-passes=internalize,globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)",
         "-internalize-public-api-list=" + ",".join(entries), src, "-o", out], V, env(B), "opt")


def build_replay():
    t = os.path.join(B, "replay")
    os.makedirs(t, exist_ok=True)
    mark, now = fresh(t, "replay")
    run(["cargo", "build", "--profile", "replay", "--features", "replay", "--offline", "-q"], V + "/harness", env(t), "building the replay binary")
    open(mark, "w").write(now)
    return os.path.join(t, "replay", "vsh")


def replay(exe, entry, inputs, param, path, timeout=60):
    """Runs the real code on the solver's values. Returns (outcome, log)."""
    with open(path, "w") as f:
        f.write(inputs + "\n")
    e = dict(os.environ, VS_PARAM=str(param), RUST_BACKTRACE="0")
    try:
        p = subprocess.run([exe, entry, path], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", "no result within %d s" % timeout
    if p.returncode == 0:
        return "ok", p.stdout
    if p.returncode == 3:
        return "assumption", p.stdout
    return "fail", p.stdout + "\nexit status %d" % p.returncode


def load_checks():
    sys.path.insert(0, V)
    import properties_map
    return properties_map.CHECKS


def max_instr(entry, param):
    """Instructions on one path after which the engine gives up (a suspected endless loop)."""
    sys.path.insert(0, V)
    import properties_map
    return properties_map.MAX_INSTR.get(entry, 60000000) * (4 if param else 1)


def symrun(engine, ir, entry, param, tl, out):
    p = subprocess.run([engine, "--ir", ir, "--entry", entry, "--param", str(param), "--time", str(int(tl)), "--max-instr", str(max_instr(entry, param)),
                        "--threads", str(os.cpu_count() or 8), "--confirm", "--out", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    try:
        r = json.load(open(out))
    except Exception:
        raise NoAnswer("engine failed on %s (exit %d):\n%s" % (entry, p.returncode, p.stdout[-2000:]))
    r["log"] = p.stdout
    return r


def demangle(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return p.stdout.split("\n")
    except Exception:
        return names


def known_findings():
    p = V + "/known-findings.txt"
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) match=/(.*)/ (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


def setup():
    build_engine()
    build_module()
    build_replay()


def main():
    a = sys.argv[1:]
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if a and a[0] == "--setup":
        setup()
        return 0
    t0 = time.time()
    if a and a[0] == "--entry":
        pid, tier, entries = "DEV", (a[2] if len(a) > 2 else "quick"), [{"entry": n} for n in a[1].split(",")]
        chk = {"entries": entries, "bounds": "", "assumptions": []}
    else:
        pid = a[0]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        chk = load_checks()[pid]
        entries = chk["entries"]
    param = 1 if tier == "thorough" else 0
    limit = float(os.environ.get("VS_LIMIT", 820 if tier == "quick" else 4 * 3600))
    work = os.path.join(B, "run")
    os.makedirs(work, exist_ok=True)
    ir = os.path.join(work, pid + ".ll")
    names = [e["entry"] for e in entries]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        f = ex.submit(build_replay)
        engine = build_engine()
        mod = build_module()
        opt_module(mod, names, ir)
        exe = f.result()
    tb = time.time() - t0
    results, funcs, noans, violation, known = [], set(), [], None, []
    validated, mismatched = 0, []
    for e in entries:
        n = e["entry"]
        left = limit - (time.time() - t0)
        if left < 5:
            noans.append("%s: no time left" % n)
            continue
        r = symrun(engine, ir, n, param, left, os.path.join(work, "%s.%s.json" % (pid, n)))
        if a[0] == "--entry":
            print(r["log"])
        funcs.update(r.pop("functions"))
        r.pop("log")
        results.append(r)
        rp = os.path.join(V, "evidence", "replay")
        os.makedirs(rp, exist_ok=True)
        cex = None
        if r["status"] == "violation":
            cex = (r["violation"]["kind"], r["violation"]["detail"], r["violation"]["inputs"], r["violation"]["notes"])
        elif r["status"] == "inconclusive" and r.get("inconclusive_inputs"):
            # e.g. an unsupported operation: the concrete run may still show a violation
            cex = ("undecided", r["inconclusive"], r["inconclusive_inputs"], [])
        if cex:
            kind, detail, inputs, notes = cex
            path = os.path.join(rp, "%s-%s.inputs" % (pid, n))
            oc, log = replay(exe, n, " ".join(v for _, v in inputs), param, path)
            ok = oc == "fail" or oc == "hang"
            if ok:
                kf = [k for k in known_findings() if k[0] == pid and k[1] == n and re.search(k[2], detail + "\n" + "\n".join(notes))]
                if kf:
                    known.append((pid, kf[0][3]))
                    continue
                rep = os.path.join(rp, "%s-%s.txt" % (pid, n))
                with open(rep, "w") as f:
                    f.write("property %s\nentry %s (tier %s)\nsolver: %s: %s\nnotes: %s\ninputs file: %s\nreplay against the real code: %s %s %s  (VS_PARAM=%d)\noutcome: %s\n%s\n"
                            % (pid, n, tier, kind, detail, notes, path, exe, n, path, param, oc, log))
                violation = (n, rep, kind, detail)
                break
            noans.append("%s: %s (%s), replay outcome %s" % (n, detail, kind, oc))
            continue
        if r["status"] != "holds":
            noans.append("%s: %s" % (n, r.get("inconclusive")))
            continue
        miss = [c for c in e.get("covers", []) if str(c) not in r["covers"]]
        if miss or r["paths"] == 0:
            noans.append("%s: vacuous, witness %s not reached" % (n, miss))
        for inp in r["path_inputs"]:
            oc, log = replay(exe, n, inp, param, os.path.join(work, "s.inputs"))
            if oc == "ok":
                validated += 1
            else:
                mismatched.append("%s [%s] -> %s %s" % (n, inp, oc, log[-300:]))
    if mismatched:
        noans.append("native replay of explored paths disagrees with the engine: " + "; ".join(mismatched[:3]))
    wall = time.time() - t0
    tot = lambda k: sum(r.get(k, 0) for r in results)
    hf = sorted(set(re.sub(r"::<.*", "", re.sub(r"\[[0-9a-f]+\]", "", f)) for f in demangle([f for f in funcs if "5htrpc" in f])) - {""})
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "model_checking",
        "coverage": {
            "explanation": "bounded symbolic execution of the LLVM IR of the real program; every path class within the bounds is explored, each infeasible branch is an unsat SMT query",
            "states": tot("paths"),
            "transitions": tot("branch_decisions"),
            "traces_validated_against_impl": validated,
            "samples": [s for r in results for s in ["%s: %s" % (r["entry"], x) for x in (r["samples"] or r["path_inputs"])[:4]]],
            "bounds": chk.get("bounds", ""),
            "outside_the_bounds": chk.get("outside", ""),
            "exhaustive": not noans and violation is None,
            "functions_encoded": len(funcs),
            "htrpc_functions_encoded": hf[:400],
            "instructions_executed": tot("instructions"),
            "assertions_evaluated": tot("asserts_symbolic") + tot("asserts_concrete"),
            "smt_queries": {"sat": tot("queries_sat"), "unsat": tot("queries_unsat"), "unknown": tot("queries_unknown")},
            "table_decisions": tot("decisions_by_domain"),
            "table_unsat_confirmed_by_solver": tot("table_unsat_confirmed_by_solver"),
            "solver_s": round(tot("solver_s"), 3),
            "solver": results[0]["solver"] if results else "",
            "build_s": round(tb, 1),
            "entries": [{k: r[k] for k in ("entry", "status", "paths", "killed", "queries_sat", "queries_unsat", "solver_s", "wall_s", "covers", "checks", "max_path_instructions")} for r in results],
            "no_answer": noans,
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % k)
    if violation:
        print("%s: %s: %s" % (violation[0], violation[2], violation[3].split("\n")[0]))
        print("VIOLATION property=%s replay=%s" % (pid, violation[1]))
        return 1
    if noans:
        print("NO ANSWER for %s:" % pid)
        for n in noans:
            print("  " + str(n).split("\n")[0][:400])
        return 2
    print("%s %s: held on %d path classes in %d entries (%d SMT queries, %.1f s solver, %d paths replayed natively), %.0f s"
          % (pid, tier, tot("paths"), len(results), tot("queries_sat") + tot("queries_unsat"), tot("solver_s"), validated, wall))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("NO ANSWER: %s" % e)
        sys.exit(2)
