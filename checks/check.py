#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decides one property on /repo's current tree.

exit 0: held on everything explored; exit 1 + VIOLATION line: a counterexample was found by the
solver and reproduced natively; anything else: no verdict."""
import json, os, re, subprocess, sys, time, hashlib, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
B = os.path.join(ROOT, ".build")
sys.path.insert(0, HERE)
import props  # noqa: E402

TRUST = [
    "rustc 1.99.1 and LLVM's -O0 code generation plus sroa/early-cse/instcombine/simplifycfg: the IR means what the source means",
    "the symbolic engine in engine/ (its executions are compared with native ones: traces_validated_against_impl)",
    "z3 4.8.12",
    "SHA-1 compression and MD5 transform are uninterpreted functions (exact on concrete arguments); the CRC-32 code is executed",
    "error message texts (format!) are empty except in jobs marked fmt=real; allocation never fails",
    "panic = abort in the encoded build; overflow checks and debug assertions are on",
]


def die(msg):
    print("ERROR " + msg)
    sys.exit(2)


def key(j):
    return j[0] + ":" + ",".join(map(str, j[1]))


def load_findings():
    """finding: property=<id> job=<func>:<params> site="<site>" <what>"""
    out = {}
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'finding: property=(\S+) job=(\S+) site="([^"]*)" (.*)', l)
            if m:
                out[(m.group(1), m.group(2), m.group(3))] = m.group(4).strip()
    return out


def native(cases, profile="debug", timeout=60):
    """cases: [(name, func, params, script)] -> {name: [lines]}; a missing 'done' means it died"""
    w = os.path.join(B, "work")
    os.makedirs(w, exist_ok=True)
    f = os.path.join(w, "cases.%d" % os.getpid())
    with open(f, "w") as o:
        for n, fn, ps, sc in cases:
            o.write("case %s %s %s\n%send\n" % (n, fn, ",".join(map(str, ps)) or "-", sc))
    status = "ok"
    try:
        p = subprocess.run([os.path.join(B, "replay", profile, "vreplay"), f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        text = p.stdout
        if p.returncode != 0:
            status = "killed (%d)" % p.returncode
    except subprocess.TimeoutExpired as e:
        text, status = e.stdout or b"", "hang"
    os.unlink(f)
    res, cur = {}, None
    for l in text.decode("utf-8", "replace").splitlines():
        if l.startswith("case "):
            cur = l[5:]
            res[cur] = []
        elif cur is not None:
            res[cur].append(l)
    return res, status


def one(j, script, profile="debug", timeout=20):
    res, status = native([("x", j[0], j[1], script)], profile, timeout)
    return res.get("x", []), status


def bad(lines, status):
    """what a native run of a case shows to be wrong (None = nothing)"""
    expect = any(l.startswith("EXPECT ") for l in lines)
    for l in lines:
        # inputs created behind the failing assertion are not in the script: what follows it does not count
        if l.startswith("MISMATCH "):
            return None
        if l.startswith("FAIL harness"):
            return None
        if l.startswith("FAIL "):
            return "assertion: " + l[5:]
        if l.startswith("PANIC ") and not expect:
            return "panic: " + l[6:]
    if status == "hang":
        return "does not terminate"
    if status != "ok":
        return "the process dies: " + status
    if expect and not any(l.startswith("PANIC ") for l in lines):
        return "assertion: " + [l for l in lines if l.startswith("EXPECT ")][0][7:]
    return None


MEMORY = ("memory@", "ub@", "uninit", "unreachable@")


def functions(names):
    """the functions of the crate among these symbols, without their type arguments"""
    try:
        o = subprocess.run(["c++filt"], input="\n".join(sorted(names)), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    except OSError:
        o = sorted(names)
    out = set()
    for n in o:
        n = re.sub(r"\[[0-9a-f]{6,}\]", "", n)
        while True:
            m = re.sub(r"(?<=[\w>])(::)?<[^<>]*>", "", n)
            if m == n:
                break
            n = m
        if re.match(r"<?stun_codec::", n):
            out.add(n)
    return sorted(out)


def miri(j, script):
    """memory errors that a native run survives: the same harness and inputs in rustc's interpreter"""
    f = os.path.join(B, "work", "miri.%d" % os.getpid())
    with open(f, "w") as o:
        o.write("case x %s %s\n%send\n" % (j[0], ",".join(map(str, j[1])) or "-", script))
    env = dict(os.environ, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks", CARGO_TARGET_DIR=os.path.join(B, "miri"), CARGO_NET_OFFLINE="true", RUSTFLAGS="")
    env.pop("RUSTUP_TOOLCHAIN", None)
    try:
        p = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--", f], cwd=os.path.join(ROOT, "replay"), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150)
    except (subprocess.TimeoutExpired, OSError):
        return None
    finally:
        os.unlink(f)
    m = re.search(r"error: Undefined Behavior: (.*)", p.stderr.decode("utf-8", "replace"))
    return "undefined behaviour: " + m.group(1) if m else None


def main():
    record = "--record" in sys.argv
    listing = "--list" in sys.argv  # print every violated (job, site), unreproduced
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = 780 if tier == "quick" else 6 * 3600
    ev_path = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    p = subprocess.run(["bash", os.path.join(ROOT, "build.sh")] + (["release"] if tier == "thorough" else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stdout.write(p.stdout.decode("utf-8", "replace")[-3000:])
        die("build failed")
    build_s = time.time() - t0

    jobs = props.jobs_of(prop, tier, seed)
    findings = load_findings()
    work = os.path.join(B, "work")
    os.makedirs(work, exist_ok=True)
    jf, of = os.path.join(work, prop + ".jobs"), os.path.join(work, prop + ".json")
    samples = 4 if tier == "quick" else 8
    with open(jf, "w") as o:
        for i, j in enumerate(jobs):
            opts = {"time": 300 if tier == "quick" else 1500, "samples": samples, "steps": 60000000 if tier == "quick" else 400000000,
                    "solver_ms": 60000 if tier == "quick" else 600000}
            opts.update(dict(j[2]))
            if any(f[0] == prop and f[1] == key(j) for f in findings):
                opts["known"] = 1
            o.write("%d %s %s %s\n" % (i, j[0], ",".join(map(str, j[1])) or "-", " ".join("%s=%s" % x for x in sorted(opts.items()))))
    if os.path.exists(of):
        os.unlink(of)
    threads = str(os.cpu_count() or 8)
    try:
        e = subprocess.run([os.path.join(B, "engine", "release", "symex"), os.path.join(B, "vh.ll"), jf, of, threads, str(int(limit - 100 - (time.time() - t0)))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit - build_s)
    except subprocess.TimeoutExpired:
        die("engine: out of time")
    if e.returncode != 0 or not os.path.exists(of):
        sys.stdout.write(e.stdout.decode("utf-8", "replace")[-3000:])
        die("engine failed")
    rep = json.load(open(of))["jobs"]

    known, confirmed, unconfirmed, problems, undecided = {}, [], [], [], {}
    # --- counterexamples: replay every site
    for r in rep:
        j = jobs[int(r["id"])]
        sites = {}
        for v in r.get("violations", []):
            sites.setdefault(v["site"], []).append(v)
        for site, vs in sites.items():
            if site.startswith("harness"):
                problems.append("%s: %s" % (key(j), site))
                continue
            if listing:
                print('finding: property=%s job=%s site="%s"' % (prop, key(j), site))
                continue
            if len(confirmed) >= 5:
                continue
            if (prop, key(j), site) in findings:
                known[(key(j), site)] = findings[(prop, key(j), site)]
                continue
            got = None
            for v in sorted(vs, key=lambda v: not v["faithful"]):
                lines, status = one(j, v["script"])
                b = bad(lines, status)
                if b:
                    got = (v, b)
                    break
            if got is None and site.startswith(MEMORY) and len(unconfirmed) < 3:
                b = miri(j, vs[0]["script"])
                if b:
                    got = (vs[0], b)
            if got is None and not any(v["faithful"] for v in vs):
                # only the uninterpreted hash functions allow it: nothing is decided here
                undecided[key(j)] = "%s: %s only with hash values of its own choice" % (key(j), site)
            elif got is None:
                unconfirmed.append((j, site, vs[0]))
            else:
                confirmed.append((j, site, got[0], got[1]))
        # undecided paths: a real hang or crash is a violation, anything else is not a verdict
        for x in r.get("errors", []):
            if len(confirmed) >= 5:
                break
            lines, status = one(j, x["script"])
            b = bad(lines, status)
            if b and not any(k[0] == key(j) for k in known):
                confirmed.append((j, b, {"script": x["script"], "detail": x["error"]}, b))
        if r.get("error"):
            undecided[key(j)] = "%s: %s" % (key(j), r["error"])
    # a few undecided jobs bound the claim (evidence: undecided_jobs); many mean that there is no verdict
    if len(undecided) > max(2, len(rep) // 10):
        problems += list(undecided.values())

    # --- executions of the encoding against native ones
    validated, mism, cases, want = 0, [], [], {}
    for r in rep:
        for n, s in enumerate(r.get("samples", [])):
            name = "%s.%d" % (r["id"], n)
            want[name] = (jobs[int(r["id"])], s)
            cases.append((name, jobs[int(r["id"])][0], jobs[int(r["id"])][1], s["script"]))
    profiles = ["debug"] + (["release"] if tier == "thorough" else [])
    for prof in profiles:
        i = 0
        while i < len(cases):
            batch = cases[i:i + 400]
            res, status = native(batch, prof, 120)
            for n, fn, ps, sc in batch:
                j, s = want[n]
                lines = res.get(n)
                if lines is None or not (lines and lines[-1].startswith("done")):
                    # died in this case, or in one before: run it alone
                    lines, st = one(j, sc, prof)
                    b = bad(lines, st)
                else:
                    b = bad(lines, "ok")
                outs = [int(l[4:]) for l in lines if l.startswith("OUT ")]
                if b and prof == "debug" and not any(k[0] == key(j) for k in known):
                    confirmed.append((j, b, {"script": sc, "detail": "native run of a sampled path"}, b))
                elif b is None and [l for l in lines if l.startswith("MISMATCH ")]:
                    mism.append("%s sample %s: %s" % (key(j), n, [l for l in lines if l.startswith("MISMATCH ")][0]))
                elif b is None and outs == s["outs"]:
                    validated += 1
                elif b is None:
                    mism.append("%s sample %s: native %s, encoding %s" % (key(j), n, outs[:6], s["outs"][:6]))
                elif prof == "release":
                    mism.append("%s sample %s: %s in the release build" % (key(j), n, b))
            i += 400

    # --- vacuity
    exp_path = os.path.join(HERE, "expected.json")
    exp = json.load(open(exp_path)) if os.path.exists(exp_path) else {}
    if record:
        for r in rep:
            exp[key(jobs[int(r["id"])])] = sorted(r.get("covers", {}))
        json.dump(exp, open(exp_path, "w"), indent=0, sort_keys=True)
    missing = []
    for r in rep:
        for c in exp.get(key(jobs[int(r["id"])]), []):
            if c not in r.get("covers", {}) and key(jobs[int(r["id"])]) not in undecided:
                missing.append("%s: '%s' is not reached" % (key(jobs[int(r["id"])]), c))
        if not r.get("error") and not r.get("covers") and not r.get("violations"):
            missing.append("%s: nothing is reached" % key(jobs[int(r["id"])]))

    # --- evidence
    tot = lambda k: sum(r.get(k, 0) for r in rep)
    fns = functions({f for r in rep for f in r.get("functions", [])})
    by = {}
    for r in rep:
        by.setdefault(r["func"], []).append(r)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": validated,
            "samples": [{"job": key(jobs[int(r["id"])]), "paths": r.get("paths"), "queries": r.get("queries"), "reached": r.get("covers"),
                         "example_inputs": (r.get("samples") or [{"script": ""}])[-1]["script"][:400]} for r in rep[:: max(1, len(rep) // 6)]][:8],
            "explanation": "states = symbolic paths, each standing for every input that takes it; transitions = IR instructions executed symbolically; traces = sampled paths run natively with equal outputs",
            "jobs": len(rep), "jobs_by_harness": {f: len(v) for f, v in sorted(by.items())},
            "bounds": "message shapes (attribute types, lengths, order, class, chunking) are those of the jobs in checks/props.py; every byte, flag and split point inside a shape is symbolic; loops run to completion, no unrolling bound",
            "assertions": tot("checks"), "assertion_sites": len({s for r in rep for s in r.get("check_sites", {})}),
            "forks": tot("forks"), "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "cached": tot("cached"),
            "merges": tot("merges"), "linear_eliminations": tot("linear"),
            "solver_s": round(tot("solver_s"), 2), "solver_max_query_s": max([r.get("solver_max_s", 0) for r in rep] or [0]),
            "functions_encoded": fns, "functions_total_including_dependencies": max([r.get("nfunctions", 0) for r in rep] or [0]),
            "undecided_paths": sum(len(r.get("errors", [])) for r in rep), "undecided_jobs": sorted(undecided.values())[:20], "problems": problems[:10] + mism[:10] + missing[:10],
        },
        "assumptions": TRUST,
        "violations": len(confirmed),
        "wall_s": round(time.time() - t0, 2),
    }
    json.dump(ev, open(ev_path, "w"), indent=1)

    for (k, site), what in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s [%s: %s]" % (prop, what, k, site))
    if confirmed:
        rd = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for j, site, v, b in confirmed:
            if (j[0], site) in seen:
                continue
            seen.add((j[0], site))
            path = os.path.join(rd, "%s-%s.txt" % (prop, hashlib.sha1((key(j) + site).encode()).hexdigest()[:10]))
            with open(path, "w") as o:
                o.write("# %s: %s\n# %s\n# run: .build/replay/debug/vreplay <this file>\ncase violation %s %s\n%send\n" % (prop, site, v.get("detail", ""), j[0], ",".join(map(str, j[1])) or "-", v["script"]))
            print("  %s: %s (%s)" % (key(j), site, b))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if unconfirmed:
        for j, site, v in unconfirmed[:5]:
            print("  not reproduced natively: %s: %s (%s)" % (key(j), site, v.get("detail", "")[:300]))
        die("a counterexample of the encoding does not reproduce")
    for x in (problems + mism + missing)[:10]:
        print("  " + x)
    if problems or mism or missing:
        die("no verdict: %d undecided, %d disagreements with native runs, %d unreached" % (len(problems), len(mism), len(missing)))
    for x in sorted(undecided.values())[:10]:
        print("  undecided: " + x)
    print("%s held%s: %d jobs, %d paths, %d assertions, %d queries (%.1f s solver), %d traces validated, %.1f s" % (
        prop, " on all but %d undecided jobs" % len(undecided) if undecided else "", len(rep), tot("paths"), tot("checks"), tot("queries"), tot("solver_s"), validated, time.time() - t0))


main()
