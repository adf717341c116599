import json, os, shutil, subprocess, sys, tempfile, time
from build import build, BuildError, VERIF, toolenv
from run import *
from props import P, ASSUME

NW = 8


def known(prop):
    """Findings listed as recorded, not repaired: lines "finding: property=<id> match=<text of the violation> | <what fails>"."""
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for l in f:
                if l.startswith("finding: property=%s match=" % prop):
                    m, what = l.split(" match=", 1)[1].split(" | ", 1)
                    out.append((m.strip(), what.strip()))
    except OSError:
        pass
    return out


def sift(prop, msgs):
    """Drops violations that are listed findings; prints a line for each listed finding."""
    k = known(prop)
    for _, what in k:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    return [x for x in msgs if not any(m in str(x[0]) for m, _ in k)]


def main(argv):
    prop = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    if len(argv) > 1:
        tier = argv[1]
    tmp = tempfile.mkdtemp(prefix="aobmon-")
    try:
        if prop in ("C25", "C26"):
            import tscheck
            return tscheck.check(prop, seed, tier, tmp)
        if prop == "C27":
            import wasmcheck
            return wasmcheck.check(prop, seed, tier, tmp)
        if prop == "C28":
            import e2echeck
            return e2echeck.check(prop, seed, tier, tmp)
        return check_rust(prop, seed, tier, tmp)
    except BuildError as e:
        print(e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_rust(prop, seed, tier, tmp):
    t0 = time.time()
    quick, thorough, rule, required = P[prop]
    cases = quick if tier == "quick" else thorough
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    cases = max(64, int(cases * scale))
    secs = 240 if tier == "quick" else 780
    n = int(prop[1:])
    kinds = ["chk", "rel", "sol"]
    if n == 23:
        kinds = ["chk", "rel", "asan"]
    if n == 30:
        kinds = ["cov"]
    b = build(kinds)
    built = time.time() - t0
    common = dict(prop=n, tier=tier, seed=seed, cases=cases, secs=secs, replays=REPLAYS)
    ws = []
    if n == 23:
        # chk and rel run the same cases for comparison; the sanitizer build runs its own, later ones
        half = cases * 6 // 10
        for i in range(4):
            for k in ("chk", "rel"):
                ws.append(Worker("%s-%d" % (k, i), b[k], dict(common, shard=i, nshards=4, cases=half, dig=os.path.join(tmp, "%s%d.dig" % (k, i))), tmp))
            ws.append(Worker("asan-%d" % i, b["asan"], dict(common, shard=i, nshards=4, start=half), tmp, asan=True))
    elif n == 24:
        per = 3
        for i in range(per):
            for k, decoy in (("chk", 0), ("chkdecoy", 1), ("sol", 0)):
                ws.append(Worker("%s-%d" % (k, i), b["chk" if decoy else k], dict(common, shard=i, nshards=per, decoy=decoy, dig=os.path.join(tmp, "%s%d.dig" % (k, i))), tmp))
    elif n == 30:
        for i in range(NW):
            ws.append(Worker("cov-%d" % i, b["cov"], dict(common, shard=i, nshards=NW), tmp))
    else:
        order = ["chk", "chk", "rel", "sol", "chk", "rel", "chk", "sol"]
        for i in range(NW):
            ws.append(Worker("%s-%d" % (order[i], i), b[order[i]], dict(common, shard=i, nshards=NW), tmp))
    v = run_workers(prop, seed, tier, ws, tmp)
    extra = {}
    compared = 0
    if n in (23, 24) and not v.viols:
        pairs = [("chk", "rel")] if n == 23 else [("chk", "chkdecoy"), ("chk", "sol")]
        for a, c in pairs:
            cnt = 0
            for i in range(4 if n == 23 else 3):
                da = read_digests(os.path.join(tmp, "%s%d.dig" % (a, i)))
                dc = read_digests(os.path.join(tmp, "%s%d.dig" % (c, i)))
                for k in sorted(set(da) & set(dc)):
                    cnt += 1
                    if da[k] != dc[k]:
                        msg, path = locate(prop, seed, tier, k, a, c, b)
                        v.viols.append((msg, path, "compare"))
                        break
                if n == 24 and c == "sol":
                    v.distinct += len(set(da.values()))
            extra["cases compared %s/%s" % (a, c)] = cnt
            compared += cnt
    if n == 24:
        v.evals = compared
        distinct = v.distinct
    else:
        distinct = union(b[kinds[0]], ws)
    cov = {
        "evaluations": v.evals, "distinct_nontrivial": distinct, "rule": rule, "samples": v.samples[:3] or ["none"],
        "cases": v.cases, "cases_by_build": v.by_variant, "observed": v.counts, "time_capped": v.capped,
        "build_s": round(built, 1),
    }
    cov.update(extra)
    if v.unattributed:
        cov["cases_lost_to_crashes_of_other_properties"] = v.unattributed[:5]
    write_evidence(prop, tier, seed, cov, time.time() - t0, len(v.viols), ASSUME)
    return finish(prop, v, cov, required)


def finish(prop, v, cov, required):
    v.viols = sift(prop, v.viols)
    if v.viols:
        msg, path, _ = v.viols[0]
        print("%s violated: %s" % (prop, msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    missing = [r for r in required if not v.counts.get(r)]
    if v.setup_failed:
        print("NOTE: a market could not be created: %s" % v.setup_failed)
    if v.unattributed:
        print("NOTE: %d case(s) ended by a crash that does not speak against %s: %s" % (len(v.unattributed), prop, v.unattributed[0][:400]))
    if missing or not cov["evaluations"]:
        print("%s: no verdict, the run did not observe: %s" % (prop, ", ".join(missing) or "anything"))
        return 2
    print("%s held on %d evaluations (%d distinct non-trivial) in %d cases" % (prop, cov["evaluations"], cov["distinct_nontrivial"], cov.get("cases", 0)))
    return 0


def locate(prop, seed, tier, k, a, c, b):
    """First step at which two builds differ on case k."""
    def steps(name):
        binary = b["chk" if name.startswith("chk") else name]
        r = subprocess.run([binary, "stepdigest", "prop=%d" % int(prop[1:]), "seed=%d" % seed, "tier=" + tier, "start=%d" % k, "decoy=%d" % (name == "chkdecoy")],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=toolenv(), timeout=120)
        return r.stdout.splitlines()
    where = "final state"
    if not (prop == "C23" and k % 2):
        try:
            x, y = steps(a), steps(c)
            for i, (p, q) in enumerate(zip(x[1:], y[1:])):
                if p != q:
                    where = "step %d: [%s] %s | [%s] %s" % (i, a, p, c, q)
                    break
        except Exception as e:  # the difference stands whether or not it can be located
            where = "not located (%s)" % e
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-diff-%s-%s-%d-%d.txt" % (prop, a, c, seed, k))
    msg = "builds %s and %s differ on case %d: %s" % (a, c, k, where)
    with open(path, "w") as f:
        f.write("# property %s: %s\n" % (prop, " ".join(msg.split())))
        f.write("diff prop=%d seed=%d case=%d tier=%s a=%s b=%s\n" % (int(prop[1:]), seed, k, tier, a, c))
    return msg, path
