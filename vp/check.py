#!/usr/bin/env python3
"""check.py ID quick|thorough: decides one property by symbolic execution of /repo's current code.
Exit 0: held on everything explored (a line INCOMPLETE says when that is less than the bounds, which it never is on the
tree the checks were written for); 1: VIOLATION; 2: no answer (what went wrong is printed)."""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("VP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu")
import view
from props import PROPS

VERIF, BUILD, REPO = view.VERIF, view.BUILD, view.REPO
LIB = '\nextern crate self as subsweep;\n#[allow(dead_code, unused)]\nmod arepo_postprocess;\n'
API = '#[cfg(vp)]\n#[path = "%s/harness/api.rs"]\npub mod vp_api;\n' % VERIF

class NoAnswer(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def rustc_bin():
    r = sh(["rustc", "--print", "target-libdir"], env=view.env())
    return os.path.join(os.path.dirname(r.stdout.strip()), "bin")

def engine():
    t = os.path.join(BUILD, "symir")
    r = sh(["cargo", "build", "--release", "--quiet", "--offline", "--manifest-path", os.path.join(VERIF, "symir", "Cargo.toml")], env=view.env(t))
    if r.returncode:
        raise NoAnswer("building the engine: " + r.stderr[-2000:])
    return os.path.join(t, "release", "symir")

def runner():
    exe = os.path.join(BUILD, "run")
    src = os.path.join(HERE, "run.c")
    r = sh(["gcc", "-O1", "-rdynamic", "-o", exe, src, "-ldl", "-lm"])
    if r.returncode:
        raise NoAnswer("building the replay runner: " + r.stderr)
    return exe

def make_view(prop):
    # one view directory for all properties: cargo rebuilds only what changed
    v = view.View("view")
    v.drops = [tuple(x) for x in json.load(open(os.path.join(HERE, "drops.json")))]
    known = {(f, k) for f in v.items for (k, _, _) in v.keyed(f)}
    v.drops = [d for d in v.drops if d in known]
    app = {"lib.rs": LIB + API}
    for i, (target, harness) in enumerate(prop["modules"]):
        if target not in v.src:
            raise NoAnswer("the file %s is gone" % target)
        app[target] = app.get(target, "") + '\n#[cfg(vp)]\n#[allow(unused, dead_code)]\n#[path = "%s/harness/%s"]\npub(crate) mod vp_%s;\n' % (VERIF, harness, harness.replace(".rs", "").replace("/", "_"))
    v.append = app
    v.havoc = prop.get('havoc', [])
    v.fold = prop.get('fold', 4)
    v.wrap = prop.get('wrap', False)
    return v

def build_ir(v):
    tgt = os.path.join(BUILD, "ir")
    e = view.env(tgt)
    e["RUSTFLAGS"] = "--cfg vp -C no-vectorize-loops -C no-vectorize-slp -C llvm-args=-two-entry-phi-node-folding-threshold=%d" % v.fold
    if v.wrap:
        e["CARGO_PROFILE_VP_OVERFLOW_CHECKS"] = "false"
    cmd = ["cargo", "rustc", "--lib", "--crate-type", "cdylib", "--profile", "vp", "--offline", "--message-format=json", "--quiet", "--", "-C", "save-temps"]
    for attempt in range(2):
        v.write()
        for d in glob.glob(os.path.join(tgt, "vp", "build", "subsweep", "*")):
            shutil.rmtree(d, ignore_errors=True)
        r = sh(cmd, cwd=v.dir, env=e)
        if r.returncode == 0:
            break
        errs = []
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                errs.append(m["message"].get("rendered", ""))
        if attempt:
            raise NoAnswer("the code does not compile: " + "\n".join(errs[:6]) + r.stderr[-1500:])
        if any(VERIF + "/harness" in x or "/verif/shims" in x for x in errs) and not any("src/" in x.split("-->")[1][:40] if "-->" in x else False for x in errs):
            raise NoAnswer("the harness does not fit the code: " + "\n".join(errs[:6]))
        try:
            v.prune()
        except view.ViewError as x:
            raise NoAnswer(str(x))
    bcs = glob.glob(os.path.join(tgt, "vp", "build", "subsweep", "*", "out", "subsweep*.rcgu.bc"))
    bcs = [b for b in bcs if "no-opt" not in b and "lto" not in os.path.basename(b)] or bcs
    sos = glob.glob(os.path.join(tgt, "vp", "build", "subsweep", "*", "out", "libsubsweep*.so"))
    if not bcs or not sos:
        raise NoAnswer("no compiler output found: %s %s" % (bcs, sos))
    bc = max(bcs, key=os.path.getsize)
    ll = os.path.join(BUILD, "code.ll")
    r = sh([os.path.join(rustc_bin(), "llvm-dis"), bc, "-o", ll])
    if r.returncode:
        raise NoAnswer("llvm-dis: " + r.stderr)
    so = os.path.join(BUILD, "code.so")
    shutil.copy(max(sos, key=os.path.getmtime), so)
    return ll, so

def native(run, so, entry, inputs, scratch, timeout=20):
    f = os.path.join(scratch, "in_%s_%d" % (entry, abs(hash(tuple(inputs))) % 10**12))
    with open(f, "w") as h:
        h.write("\n".join(inputs) + "\n")
    try:
        r = subprocess.run([run, so, entry, f], capture_output=True, text=True, timeout=timeout, cwd=scratch, errors="replace")
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return "hang", (o.decode(errors="replace") if isinstance(o, bytes) else o), ""
    finally:
        os.remove(f)
    k = {0: "done", 3: "assert", 4: "assume", 5: "exhausted"}.get(r.returncode)
    if k is None:
        k = "panic" if r.returncode in (-6, -4) else ("crash" if r.returncode < 0 else "error")
    return k, r.stdout, r.stderr

def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    prop = PROPS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    scratch = os.path.join(BUILD, "scratch-%s" % pid)
    os.makedirs(scratch, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with cf.ThreadPoolExecutor() as ex:
        fe, fr = ex.submit(engine), ex.submit(runner)
        v = make_view(prop)
        ll, so = build_ir(v)
        eng, run = fe.result(), fr.result()
    build_s = time.time() - t0
    jobs = []
    for e in prop["entries"]:
        if e.get("tier", "quick") == "thorough" and tier == "quick":
            continue
        if e.get("only") and e["only"] != tier:
            continue
        for c in e.get("choose", [""]):
            jobs.append((e, c))
    limit = {"quick": 540, "thorough": 6 * 3600}[tier]
    if os.environ.get("VP_ONLY"):
        jobs = [j for j in jobs if re.search(os.environ["VP_ONLY"], j[0]["name"])]
    def one(j):
        e, c = j
        left = limit - (time.time() - t0)
        if left < 5:
            return {"entry": e["name"], "complete": False, "not_run": True}
        o = os.path.join(scratch, "%s_%s.json" % (e["name"], str(c).replace(",", "_")))
        if os.path.exists(o):
            os.remove(o)
        cmd = [eng, "--ir", ll, "--entry", e["name"], "--scratch", scratch, "--out", o, "--timeout", str(int(min(left, e.get("timeout", 1e9)))),
               "--inc-ms", str(e.get("inc_ms", prop.get("inc_ms", 2000))), "--one-s", str(e.get("one_s", prop.get("one_s", 60))), "--choose", str(c), "--max-steps", str(e.get("max_steps", 20000000))] + (["--ints"] if e.get("ints", prop.get("ints")) else []) + (["--icp-vars", str(e.get("icp", prop.get("icp")))] if e.get("icp", prop.get("icp")) else [])
        if e.get("boxes", prop.get("boxes")):
            cmd += ["--icp-boxes", str(e.get("boxes", prop.get("boxes")))]
        r = sh(cmd)
        if not os.path.exists(o):
            return {"entry": e["name"], "complete": False, "crash": r.stderr[-600:]}
        return json.load(open(o))
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VP_JOBS", "8"))) as ex:
        results = list(ex.map(one, jobs))
    # ---- verdict ----
    problems, hard, found, notes = [], [], [], set()
    validated = mism = incomparable = 0
    samples = []
    covers = {}
    for (e, c), r in zip(jobs, results):
        name = e["name"]
        if r.get("crash") is not None or r.get("not_run"):
            problems.append("%s %s: engine gave no result %s" % (name, c, r.get("crash", "(no time left)")))
            hard.append(problems[-1])
            continue
        if not r["paths"] and not r["violations"] and (r["errors"] or r["timed_out"]):
            hard.append("%s %s: no path was completed" % (name, c))
        for x in r["errors"]:
            problems.append("%s %s: %s (x%d)" % (name, c, x["what"], x["count"]))
        if r["timed_out"]:
            problems.append("%s %s: time limit reached after %d paths" % (name, c, r["paths"]))
        for k, b in r["covers"].items():
            covers[(name, k)] = covers.get((name, k), False) or b
        notes.update(n for n in r["notes"] if not n.startswith("pick"))
        seen = set()
        for x in r["violations"]:
            key = (x["kind"], x["what"])
            if key in seen:
                continue
            if not x["have_model"]:
                problems.append("%s %s: possible violation without a model: %s %s" % (name, c, x["kind"], x["what"]))
                continue
            kind, so_out, so_err = native(run, so, name, x["inputs"], scratch)
            ok = {"assert": kind == "assert", "panic": kind in ("panic", "crash", "assert", "hang"), "memory": kind in ("panic", "crash", "assert", "hang"),
                  "steps": kind == "hang"}[x["kind"]]
            if kind == "panic" and x["kind"] == "assert":
                ok = True
            if x["kind"] == "steps" and kind in ("panic", "crash", "assert"):
                ok = True
            if not ok:
                problems.append("%s %s: counterexample did not reproduce natively (%s): %s %s inputs %s" % (name, c, kind, x["kind"], x["what"], " ".join(x["inputs"])))
                continue
            seen.add(key)
            found.append({"entry": name, "kind": x["kind"], "what": x["what"], "native": kind, "output": so_out[-600:], "stderr": so_err[-600:], "inputs": x["inputs"], "trace": x["trace"]})
        if (r["errors"] or r["timed_out"]) and not seen and time.time() - t0 < 760:
            # the solver did not decide everything: look for a counterexample natively (this can only add violations)
            q = sh([run, so, name, "--search", "20000"], cwd=scratch)
            ins = q.stdout.split()
            if q.returncode == 1:
                kind, so_out, so_err = native(run, so, name, ins, scratch)
                if kind in ("assert", "panic", "crash"):
                    m = re.search("ASSERT (.*)", so_out)
                    found.append({"entry": name, "kind": kind, "what": m.group(1) if m else so_err.strip()[-200:], "native": kind, "output": so_out[-600:], "stderr": so_err[-600:], "inputs": ins, "trace": ["found by a native search after the solver did not decide"]})
        for s in r["samples"]:
            kind, o, _ = native(run, so, name, s["inputs"], scratch)
            if kind == "assume":
                incomparable += 1
                continue
            want = "panic" if s["panicked"] else "done"
            outs = [l[4:] for l in o.splitlines() if l.startswith("OUT ")]
            cov = {l[6:] for l in o.splitlines() if l.startswith("COVER ")}
            good = kind == want and set(s["covers"]) <= cov and len(outs) == len(s["outs"]) and all(a is None or a == b for a, b in zip(s["outs"], outs))
            if good:
                validated += 1
                if len(samples) < 12:
                    samples.append({"entry": name, "inputs": s["inputs"], "covers": s["covers"]})
            elif prop.get("reals") or e.get("reals"):
                incomparable += 1
            else:
                mism += 1
                problems.append("%s %s: native run of a path's model differs (%s, expected %s): %s" % (name, c, kind, want, " ".join(s["inputs"])))
    for (n, k), b in covers.items():
        if not b:
            problems.append("%s: witness '%s' is unreachable: the check would be vacuous" % (n, k))
            if len(problems) == 1:
                hard.append(problems[-1])
    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k["property"] == pid and k.get("status") == "known"]
    new, old = [], []
    for f in found:
        m = [k for k in known if k["entry"] == f["entry"] and k["what"] in f["what"]]
        (old if m else new).append((f, m))
    # ---- evidence ----
    ok_results = [r for r in results if "paths" in r]
    fns = sorted({f for r in ok_results for f in r["functions"] if f.startswith("src/")})
    fns_other = len({f for r in ok_results for f in r["functions"]}) - len(fns)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": prop.get("level", "model_checking"),
        "coverage": {
            "states": sum(r["forks"] + r["paths"] + r["infeasible"] for r in ok_results),
            "transitions": sum(r["instructions"] for r in ok_results),
            "traces_validated_against_impl": validated,
            "samples": samples or ["none"],
            "explanation": "bounded symbolic execution of the LLVM IR compiled from /repo's current sources; every assertion and every branch was put to an SMT solver (z3 5, cvc5 as second), paths are complete within the bounds",
            "functions_encoded": fns, "library_functions_encoded": fns_other,
            "bounds": prop["bounds"],
            "entries": [{"entry": r["entry"], "choose": r.get("choose"), "paths": r["paths"], "instructions": r["instructions"], "asserts": r["asserts"], "queries": r["queries"], "unsat": r["unsat"], "sat": r["sat"],
                         "solver_s": r["solver_s"], "max_query_s": r["max_query_s"], "wall_s": r["wall_s"], "covers": r["covers"]} for r in ok_results],
            "paths": sum(r["paths"] for r in ok_results), "queries": sum(r["queries"] for r in ok_results), "queries_unsat": sum(r["unsat"] for r in ok_results),
            "solver_s": round(sum(r["solver_s"] for r in ok_results), 2), "asserts_reached": sum(r["asserts"] for r in ok_results),
            "samples_not_comparable_in_floating_point": incomparable,
            "items_not_in_the_view": len(v.drops), "items_dropped_beyond_the_recorded_ones": [list(x) for x in v.auto], "build_s": round(build_s, 1),
            "problems": problems,
        },
        "assumptions": prop.get("assumptions", []) + ["%s of %s returns %s" % (k, f, "the same value every time in some entries (only the order of a search depends on it)" if b.startswith("+") else "any value") for f, k, b in prop.get("havoc", [])] + sorted(notes),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(new),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for f, m in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, m[0]["description"]))
    rd = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rd, exist_ok=True)
    for i, (f, _) in enumerate(new):
        p = os.path.join(rd, "%s-%d.json" % (pid, i))
        json.dump(dict(f, property=pid, how="%s %s %s <file with the inputs, one hex word per line>" % (run, so, f["entry"])), open(p, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  %s: %s %s; native run: %s %s" % (f["entry"], f["kind"], f["what"], f["native"], (f["output"] + f["stderr"]).strip()[-300:].replace("\n", " | ")))
    for p in problems:
        print("problem: " + p[:1500], file=sys.stderr)
    print("%s %s: %d paths, %d queries (%.1f s in the solver), %d samples validated natively, build %.0f s, total %.0f s" % (
        pid, tier, ev["coverage"]["paths"], ev["coverage"]["queries"], ev["coverage"]["solver_s"], validated, build_s, time.time() - t0))
    shutil.rmtree(scratch, ignore_errors=True)
    if new:
        return 1
    if hard:
        return 2
    if problems:
        # nothing that was explored violates the property, but not everything within the bounds was explored
        print("INCOMPLETE property=%s: the property held on everything explored; %d problem(s), see the evidence file" % (pid, len(problems)))
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except (NoAnswer, view.ViewError) as x:
        print("no answer: %s" % x, file=sys.stderr)
        rc = 2
    sys.exit(rc)
