#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

Builds symx (the symbolic executor) and the LLVM IR of the harnesses linked with
/repo's current sources, runs the property's jobs, replays every counterexample on
a native build of the real code, and writes /verif/evidence/PROPERTY.json."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DERIVRE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "driver"))
from jobs import PROPS  # noqa: E402

ENV = dict(os.environ)
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        fs = []
        for d, ds, fns in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__"))
            fs += [os.path.join(d, f) for f in fns]
        for f in sorted(fs):
            h.update(f.encode())
            try:
                with open(f, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                pass
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def stale(stamp, key):
    try:
        return open(stamp).read() != key
    except OSError:
        return True


def cargo(args, cwd, log, ok=True):
    with open(log, "w") as f:
        r = subprocess.run(["cargo"] + args, cwd=cwd, env=ENV, stdout=f, stderr=subprocess.STDOUT)
    if ok and r.returncode != 0:
        sys.stderr.write(open(log).read()[-3000:])
        raise SystemExit("build failed: " + " ".join(args))
    return r.returncode


def forget(tgt):
    """never trust cargo's time stamps for what is under test"""
    for prof in ("release", "debug"):
        for pat in (".fingerprint", "deps", "build", "incremental"):
            for n in ("derivre", "hx", "symroot", "libderivre", "libhx", "replay"):
                for f in glob.glob(os.path.join(tgt, prof, pat, n + "-*")):
                    if os.path.isdir(f):
                        shutil.rmtree(f)
                    else:
                        os.remove(f)


def build_symx():
    tgt = os.path.join(BUILD, "symx")
    stamp = os.path.join(BUILD, "symx.stamp")
    key = tree_hash(os.path.join(VERIF, "symx"))
    exe = os.path.join(tgt, "release", "symx")
    with Lock("symx"):
        if stale(stamp, key) or not os.path.exists(exe):
            cargo(["build", "--release", "--locked", "--target-dir", tgt], os.path.join(VERIF, "symx"), os.path.join(BUILD, "symx.log"))
            open(stamp, "w").write(key)
    return exe


def repo_key():
    return tree_hash(os.path.join(REPO, "src")) + "".join(
        hashlib.sha256(open(os.path.join(REPO, f), "rb").read()).hexdigest() for f in ("Cargo.toml",)
    ) + tree_hash(os.path.join(VERIF, "harness"))


def build_ir(variant):
    """the harnesses and the real code, as one LLVM module"""
    tgt = os.path.join(BUILD, "ir-" + variant)
    stamp = os.path.join(BUILD, "ir-%s.stamp" % variant)
    key = repo_key()
    out = os.path.join(BUILD, "ir-%s.ll" % variant)
    feat = ["--no-default-features"] if variant == "nocompress" else []
    with Lock("ir-" + variant):
        if stale(stamp, key) or not os.path.exists(out):
            forget(tgt)
            log = os.path.join(BUILD, "ir-%s.log" % variant)
            # (linking fails: the intrinsics exist only inside symx)
            cargo(["rustc", "--release", "--locked"] + feat + ["--target-dir", tgt, "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
                  os.path.join(VERIF, "harness", "sym"), log, ok=False)
            lls = glob.glob(os.path.join(tgt, "release", "deps", "symroot-*.ll"))
            if len(lls) != 1:
                sys.stderr.write(open(log).read()[-3000:])
                raise SystemExit("the code under test could not be compiled to LLVM IR")
            shutil.copy(lls[0], out)
            open(stamp, "w").write(key)
    return out


def build_replay(variant):
    tgt = os.path.join(BUILD, "replay-" + variant)
    stamp = os.path.join(BUILD, "replay-%s.stamp" % variant)
    key = repo_key()
    exe = os.path.join(tgt, "debug", "replay")
    feat = ["--no-default-features"] if variant == "nocompress" else []
    with Lock("replay-" + variant):
        if stale(stamp, key) or not os.path.exists(exe):
            forget(tgt)
            cargo(["build", "--locked"] + feat + ["--target-dir", tgt], os.path.join(VERIF, "harness", "replay"), os.path.join(BUILD, "replay-%s.log" % variant))
            open(stamp, "w").write(key)
    return exe


def known_findings(pid):
    """lines `finding: property=<id> job=<harness and arguments> values=<inputs> what...`"""
    out = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for l in f:
            m = re.match(r"finding: property=(\S+) replay=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def replay(exe, path, secs=60):
    """0: does not violate; 1: violates; 2: input not applicable"""
    try:
        r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return 1, "does not terminate within %d s" % secs
    o = r.stdout.strip()[-600:]
    if r.returncode == 0:
        return 0, o
    if r.returncode in (2, 3):
        return 2, o
    return 1, o


def main():
    pid = sys.argv[1]
    pid = next((k for k in PROPS if PROPS[k]["name"] == pid), pid)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    variant = P.get("variant", "std")
    jobs = list(P["q"] if tier == "quick" else P["q"] + [x for x in P["t"] if x not in P["q"]])
    t0 = time.time()
    work = os.path.join(BUILD, "run-" + pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(build_symx), ex.submit(build_ir, variant), ex.submit(build_replay, variant)]
        symx, ir, native = [f.result() for f in fs]
    t_build = time.time() - t0
    jf = os.path.join(work, "jobs")
    open(jf, "w").write("\n".join(jobs) + "\n")
    out = os.path.join(work, "out")
    par = os.cpu_count() or 4
    limit = 500 if tier == "quick" else 3000
    cmd = [symx, ir, jf, out, "--par", str(par), "--time", str(limit), "--steps", "400000000"]
    cmd += ["--confirm", "400" if tier == "quick" else "20000"]
    if tier == "quick":
        # an answer within the time a check has; after a violation, only a little longer
        cmd += ["--total", str(int(max(120, 800 - t_build))), "--grace", "30"]
    smt = os.path.join(work, "smt")
    if tier != "quick":
        os.makedirs(smt)
        cmd += ["--smt", smt, "10"]
    t1 = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    t_exec = time.time() - t1
    res = []
    for i in range(len(jobs)):
        p = os.path.join(out, "%d.json" % i)
        if os.path.exists(p):
            res.append({"violations": [], "covers": {}, "functions": [], **json.load(open(p))})
        else:
            res.append({"job": jobs[i], "error": "no result (executor: %s)" % r.stdout[-300:], "violations": [], "covers": {}, "functions": []})

    bad = False
    viols, unrep, findings = [], [], []
    # known findings, replayed
    for path, what in known_findings(pid):
        c, o = replay(native, os.path.join(VERIF, path))
        if c == 1:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
            findings.append({"what": what, "replay": path})
        else:
            print("note: known finding no longer shows: %s" % what)
    rdir = os.path.join(VERIF, "evidence", "replay-" + pid)
    shutil.rmtree(rdir, ignore_errors=True)
    nv = 0
    for d in res:
        for v in d["violations"]:
            os.makedirs(rdir, exist_ok=True)
            w = d["job"].split()
            path = os.path.join(rdir, "%d.txt" % nv)
            nv += 1
            open(path, "w").write(
                "# property %s: %s\n# in: %s\n# %s\n%s\n%s\n%s\n"
                % (pid, v["msg"], " < ".join(v.get("stack", [])[:4]), " | ".join(v.get("notes", [])).replace("\n", " "),
                   w[0], " ".join(w[1:]), " ".join(str(x) for x in v["values"])))
            c, o = replay(native, path)
            if c == 1:
                viols.append((path, v, o, d["job"]))
            else:
                unrep.append((path, v, o, d["job"]))
            if len(viols) >= 8:
                break
    for path, v, o, job in viols:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s (%s); job: %s; %s" % (v["msg"], o.splitlines()[-1] if o else "", job, "; ".join(v.get("notes", []))))
    errs = [d for d in res if d.get("error")]
    covers = {}
    for d in res:
        h = d["job"].split()[0]
        for k, n in d.get("covers", {}).items():
            covers.setdefault(h, {}).setdefault(int(k), 0)
            covers[h][int(k)] += n
    missing = [(h, c) for h, cs in P["covers"].items() for c in cs if not covers.get(h, {}).get(c)]
    if not viols:
        for path, v, o, job in unrep:
            print("ERROR: counterexample not reproduced natively: %s %s job=%s %s" % (path, v["msg"], job, o))
            bad = True
        for d in errs:
            print("ERROR: job %s: %s" % (d["job"], d["error"]))
            bad = True
        if not errs:
            for m in missing:
                print("ERROR: never reached: %s cover %d" % m)
                bad = True

    # completed paths, run natively: the same outcome and the same cover points?
    validated, samples = 0, []
    if not viols and not bad:
        validated, samples, mism = validate(native, work, res, 240 if tier == "quick" else 1500)
        for m in mism[:5]:
            print("ERROR: the executor and the native code disagree: %s" % m)
            bad = True

    # second opinions
    cross = {}
    if tier != "quick":
        cross = cross_check(smt)
        if cross.get("disagree"):
            print("ERROR: solvers disagree: %s" % cross["disagree"])
            bad = True

    def tot(k):
        return sum(d.get(k, 0) or 0 for d in res)

    fns = sorted({f for d in res for f in d.get("functions", []) if "derivre" in f})
    ev = {
        "property": pid,
        "name": P["name"],
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("instrs"),
            "traces_validated_against_impl": validated + len(viols),
            "samples": samples or [{"job": v[3], "violation": v[1]["msg"], "inputs": v[1]["values"]} for v in viols] or [{"job": x} for x in jobs[:3]],
            "what_the_counts_are": "states: symbolic paths run to the end; transitions: IR instructions executed on them; traces_validated_against_impl: concrete inputs of such paths (and counterexamples) run natively with the same outcome",
            "technique": "symbolic execution of the LLVM IR compiled from /repo's current sources, decided by Z3 (QF_BV)",
            "functions_encoded": fns,
            "functions_encoded_count": len(fns),
            "bounds": P["bounds"],
            "outside_bounds": P["outside"],
            "jobs": len(jobs),
            "paths_pruned_by_assumptions": tot("dropped"),
            "forks": tot("forks"),
            "assertions": tot("asserts"),
            "assertions_put_to_solver": tot("assert_queries"),
            "assertions_decided_by_domain_propagation_only": tot("asserts_prop"),
            "assertions_decided_by_propagation_and_confirmed_by_solver": tot("confirmed"),
            "assertions_constant_on_their_path": tot("asserts_const"),
            "branch_queries": tot("branch_queries"),
            "queries_answered_from_cache": tot("cache_hits"),
            "solver_sat": tot("sat"),
            "solver_unsat": tot("unsat"),
            "solver_unknown": tot("unknown"),
            "solver_s": round(tot("solver_s"), 3),
            "executor_s": round(t_exec, 2),
            "build_s": round(t_build, 2),
            "covers_reached": {h: {str(k): n for k, n in sorted(c.items())} for h, c in covers.items()},
            "cross_check": cross,
            "known_findings_shown": findings,
            "per_job": [{k: d.get(k) for k in ("job", "paths", "asserts", "assert_queries", "unsat", "sat", "solver_s", "wall_s", "error")} for d in res],
        },
        "assumptions": [
            "rustc's and LLVM's translation to (lightly optimised) LLVM IR",
            "the executor's own semantics of that IR (every counterexample is replayed natively; every model is checked against the executor's own evaluator)",
            "the allocator, and the hash function of ahash (replaced by simpler ones), are modelled",
            "bounds as stated",
        ],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    print("%s %s: %d jobs, %d paths, %d assertions (%d solver queries, %.1f s), %d violations, %d errors, build %.1f s, exec %.1f s"
          % (pid, tier, len(jobs), tot("paths"), tot("asserts"), tot("sat") + tot("unsat"), tot("solver_s"), len(viols), len(errs), t_build, t_exec))
    shutil.rmtree(work, ignore_errors=True)
    if viols:
        return 1
    return 2 if bad else 0


def validate(exe, work, res, cap):
    """runs concrete inputs of completed symbolic paths through the native build"""
    per = max(1, cap // max(1, len(res)))
    todo = []
    for n, d in enumerate(res):
        ss = d.get("samples", [])
        # the first, the last and some between
        step = max(1, len(ss) // per)
        todo += [(n, i, d["job"], x) for i, x in list(enumerate(ss))[::-step][:per]]

    def one(a):
        n, i, job, x = a
        w = job.split()
        path = os.path.join(work, "s%d-%d.txt" % (n, i))
        open(path, "w").write("%s\n%s\n%s\n" % (w[0], " ".join(w[1:]), " ".join(str(v) for v in x["values"])))
        try:
            r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, text=True, errors="replace")
            cov = [int(l[6:]) for l in r.stdout.splitlines() if l.startswith("COVER ")]
            if r.returncode == 0 and cov == x["covers"]:
                return None
            return "job %s values %s: exit %d, reached %s instead of %s: %s" % (job, x["values"], r.returncode, cov, x["covers"], r.stdout[-200:])
        except subprocess.TimeoutExpired:
            return "job %s values %s: timeout" % (job, x["values"])

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        out = list(ex.map(one, todo))
    mism = [o for o in out if o]
    show = [{"job": t[2], "inputs": t[3]["values"], "notes": t[3]["notes"], "cover_points": t[3]["covers"]} for t in todo[:: max(1, len(todo) // 8)]][:8]
    return len(todo) - len(mism), show, mism


def cross_check(d):
    """the dumped assertion queries, decided again by other solvers"""
    n, dis, who = 0, [], {}
    for f in sorted(glob.glob(os.path.join(d, "**", "*.smt2"), recursive=True))[:120]:
        want = f.split(".")[-2]
        for name, cmd in (("z3-new", ["z3-new", "-T:20", f]), ("cvc5", ["cvc5", "--tlimit=20000", f])):
            try:
                o = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40, text=True).stdout.split()
            except (OSError, subprocess.TimeoutExpired):
                continue
            a = o[0] if o else "?"
            if a in ("sat", "unsat"):
                who[name] = who.get(name, 0) + 1
                if a != want:
                    dis.append([os.path.basename(f), name, a])
        n += 1
    return {"queries": n, "answers": who, "disagree": dis}


if __name__ == "__main__":
    sys.exit(main())
