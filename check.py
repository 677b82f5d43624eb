#!/usr/bin/env python3
"""Decide one property: python3 check.py <property id> [quick|thorough]

exit 0  held on every path within the bounds
exit 1  violated, `VIOLATION property=<id> replay=<path>` printed
exit 2  error or inconclusive
"""
import concurrent.futures as cf, json, os, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
W = os.path.join(V, ".work")
SYM = os.path.join(W, "target/release/hx-sym")
REAL = os.path.join(W, "target/release/hx-real")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


STOP = []


def is_known(prop, r, text):
    known = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
    return [x for x in known if x["property"] == prop and x["harness"] == r["harness"] and x["msg"] in (r["msg"] + " " + text)]


def confirm(r):
    if r["kind"] in ("sample", "error") or not r["vars"]:
        return
    r["vars"] = list(r["vars"].items())
    path = os.path.join(W, "rec", "confirm-%s.txt" % r["harness"])
    got, text = replay(r, path)
    if got in ("check", "panic", "crash", "hang") and not is_known(sys.argv[1], r, text):
        STOP.append(time.time())


def run_harness(name, tier, workers, deadline, seed):
    rec = os.path.join(W, "rec", name + ".jsonl")
    if os.path.exists(rec):
        os.remove(rec)
    env = dict(os.environ, SYMRT_WORKERS=str(workers), SYMRT_DEADLINE=str(deadline), VERIF_SEED=str(seed),
               SYMRT_POOL=os.path.join(W, "pool"), SYMRT_QUERY_MS="10000" if tier == "quick" else "30000")
    p = subprocess.Popen([SYM, "run", name, rec], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env,
                         start_new_session=True)
    end, seen = time.time() + deadline + 30, 0
    while True:
        try:
            out, err = p.communicate(timeout=1)
            break
        except subprocess.TimeoutExpired:
            pass
        if os.path.exists(rec) and not STOP:
            lines = open(rec).read().split("\n")[:-1]
            for l in lines[seen:]:
                confirm(json.loads(l))
            seen = len(lines)
        # a confirmed violation decides the property: leave the others a little time and stop
        if time.time() > end or (STOP and time.time() > STOP[0] + 15):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, err = p.communicate()
            break
    res = None
    for l in out.splitlines():
        if l.startswith("RESULT "):
            res = json.loads(l[7:])
    recs = []
    if os.path.exists(rec):
        for l in open(rec):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    return name, res, recs, err[-2000:], p.returncode


def write_replay(path, r):
    with open(path, "w") as f:
        f.write("# harness %s\n# %s: %s\n" % (r["harness"], r["kind"], r["msg"]))
        f.write("# rerun: %s replay %s %s\n" % (REAL, r["harness"], path))
        for k, v in r["vars"]:
            f.write("v %s %s\n" % (k, v))
        for k, v in r["choices"]:
            f.write("c %s %d\n" % (k, v))


def replay(r, path):
    """Run the recorded values on the untouched crate. Returns (reproduced, text)."""
    write_replay(path, r)
    scratch = os.path.join(W, "scratch")
    os.makedirs(scratch, exist_ok=True)
    try:
        p = subprocess.run([REAL, "replay", r["harness"], path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=60, cwd=scratch,
                           env=dict(os.environ, TMPDIR=scratch, **({} if r["kind"] == "sample" else {"REPLAY_SEARCH": "1"})))
    except subprocess.TimeoutExpired:
        return "hang", "did not finish in 60 s"
    last = [l for l in p.stdout.splitlines() if l.startswith("REPLAY ")]
    text = last[-1] if last else "exit %d" % p.returncode
    if p.returncode == 10:
        return "check", text
    if p.returncode == 11:
        pan = [l for l in p.stdout.splitlines() if "panicked at" in l]
        return "panic", (pan[-1] if pan else text)
    if p.returncode < 0:
        return "crash", "signal %d" % -p.returncode
    if p.returncode == 0:
        return "ok", text
    return "other", text


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    only = os.environ.get("ONLY")
    t0 = time.time()
    os.makedirs(os.path.join(W, "rec"), exist_ok=True)
    rdir = os.path.join(V, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    evf = os.path.join(V, "evidence", prop + ".json")
    if os.path.exists(evf):
        os.remove(evf)
    if not os.environ.get("NOBUILD"):
        b = sh(["bash", os.path.join(V, "build.sh"), "all"])
        if b.returncode != 0:
            print(b.stdout[-4000:])
            print("ERROR: build failed")
            return 2
    build_s = time.time() - t0
    hs = []
    for l in sh([SYM, "list"]).stdout.splitlines():
        p, n, t = l.split()
        if p == prop and (tier == "thorough" or t == "0") and (not only or only in n):
            hs.append(n)
    if not hs:
        print("ERROR: no harness for", prop)
        return 2
    budget = float(os.environ.get("BUDGET", "780" if tier == "quick" else "5400"))
    deadline = int(max(60, budget - build_s))
    # a few harnesses at a time, the cores shared between them
    par = min(4, len(hs))
    with open(os.path.join(W, "pool"), "wb") as f:
        f.write(bytes(4096))
    results, recs, problems = [], [], []
    with cf.ThreadPoolExecutor(par) as ex:
        for name, res, rs, err, rc in ex.map(lambda n: run_harness(n, tier, 8, max(20, int(deadline - (time.time() - t0 - build_s))), seed), hs):
            if res is None:
                problems.append("%s: no result (exit %s) %s" % (name, rc, err.strip()[-400:]))
            else:
                results.append(res)
            for r in rs:
                r["vars"] = list(r["vars"].items()) if r["vars"] is not None else None
                recs.append(r)
    violations, nknown, validated, samples, unrepro = [], 0, 0, [], []
    for i, r in enumerate(recs):
        if r["kind"] == "error":
            problems.append("%s: %s" % (r["harness"], r["msg"]))
            continue
        if r["vars"] is None:
            if r["kind"] != "sample":
                problems.append("%s: counterexample without rational values: %s" % (r["harness"], r["msg"]))
            continue
        path = os.path.join(rdir, "%s-%d.txt" % (r["harness"], i))
        got, text = replay(r, path)
        if r["kind"] == "sample":
            if got == "ok":
                validated += 1
                if len(samples) < 6:
                    samples.append({"harness": r["harness"], "vars": dict(r["vars"]), "choices": r["choices"]})
                os.remove(path)
            elif got in ("check", "panic", "crash", "hang"):
                # the real code fails where the idealised run passed: report it, it is reproduced
                violations.append((r, path, "concrete run: " + text))
            else:
                os.remove(path)
            continue
        if got in ("check", "panic", "crash", "hang"):
            violations.append((r, path, text))
        else:
            unrepro.append("%s: counterexample not reproduced (%s): %s" % (r["harness"], text, r["msg"]))
    fresh = []
    for r, path, text in violations:
        k = is_known(prop, r, text)
        if k:
            nknown += 1
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
        else:
            fresh.append((r, path, text))
    for res in results:
        n = res["harness"]
        if res["incomplete"]:
            problems.append("%s: budget exhausted before all paths were explored" % n)
        if res["errors"] or res["lost"]:
            problems.append("%s: %d errors, %d lost paths" % (n, res["errors"], res["lost"]))
        if not res["violations"]:
            for l, c in res["reach"].items():
                if c == 0:
                    problems.append("%s: mark '%s' never reached (vacuous)" % (n, l))
        if res["checks"] == 0 and not res["violations"]:
            problems.append("%s: no assertion evaluated" % n)
    problems += unrepro
    fnames = open(os.path.join(W, "lifted/functions.txt")).read().split("\n")
    fns = sorted({fnames[i] for r in results for i in r["fns"] if i < len(fnames)})
    tot = lambda k: sum(r[k] for r in results)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("assumed_away"),
            "transitions": tot("forks"),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "exhaustive": not problems,
            "symbolic_paths": tot("paths"),
            "assertions_evaluated": tot("checks"),
            "feasible_by_direct_model": tot("guessed"),
            "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
            "solver_seconds": round(tot("solver_s"), 2),
            "functions_encoded": fns,
            "harnesses": [{k: r[k] for k in ("harness", "bounds", "paths", "checks", "sat", "unsat", "unknown", "solver_s", "slowest_ms", "max_depth", "max_terms", "pinned", "reach", "wall_s")} for r in results],
            "known_findings_seen": nknown,
            "problems": problems,
        },
        "assumptions": [
            "real-number semantics: floating point operations in the lifted code are exact unless the harness says otherwise",
            "z3 answers are correct; the lifting tool and symrt preserve the meaning of the source",
            "inputs are within the bounds stated per harness",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    json.dump(ev, open(evf, "w"), indent=1)
    for r in results:
        print("%-34s paths %6d  checks %6d  sat %6d(+%d) unsat %6d unknown %d  solver %.1fs wall %.1fs" % (
            r["harness"], r["paths"], r["checks"], r["sat"], r["guessed"], r["unsat"], r["unknown"], r["solver_s"], r["wall_s"]))
    for p in problems:
        print("PROBLEM:", p)
    for r, path, text in fresh:
        print("%s: %s [%s]" % (r["harness"], r["msg"], text))
    if fresh:
        r, path, text = fresh[0]
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if problems:
        print("ERROR: inconclusive")
        return 2
    print("OK %s: %d paths, %d assertions, %d queries, %.1fs" % (prop, tot("paths"), tot("checks"), tot("sat") + tot("unsat"), time.time() - t0))
    return 0


sys.exit(main())
