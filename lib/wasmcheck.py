"""C27: the wasm reader compiled for the host, plainly and with the address sanitizer."""
import os, subprocess, time
from build import build, toolenv
from run import *
from props import ASSUME

RULE = ("Random order trees (0 to 300 orders, some of more than 65536 nodes, clustered, equal, extreme and single-bit prices, both sides' sequence numbers, scattered slots, stale data in "
        "unused slots, callback lengths from 0 to over 1000) written in the layout the reader declares. An evaluation is one query compared with a sorted map; distinct by slab bytes, non-trivial when not empty.")
REQUIRED = ["trees", "empty_trees", "single_order_trees", "trees_with_shared_levels", "depth_cut_short", "trees_beyond_16_bits", "long_callback_infos"]


def check(prop, seed, tier, tmp):
    from check import finish
    t0 = time.time()
    b = build(["wasm", "wasm_asan"])
    built = time.time() - t0
    cases = int((240000 if tier == "quick" else 20_000_000) * float(os.environ.get("VERIF_SCALE", "1")))
    ws = []
    for i in range(8):
        k = "wasm_asan" if i % 4 == 3 else "wasm"
        args = dict(seed=seed, cases=cases, shard=i, nshards=8, secs=120 if tier == "quick" else 700, replays=REPLAYS)
        ws.append(Worker("%s-%d" % (k, i), b[k], args, tmp, asan=k == "wasm_asan"))
    v = run_workers(prop, seed, tier, ws, tmp)
    distinct = union(b["wasm"], ws)
    cov = {
        "evaluations": v.evals, "distinct_nontrivial": distinct, "rule": RULE, "samples": v.samples[:3] or ["none"], "cases": v.cases,
        "cases_by_build": v.by_variant, "observed": v.counts, "time_capped": v.capped, "build_s": round(built, 1),
    }
    write_evidence(prop, tier, seed, cov, time.time() - t0, len(v.viols), ASSUME)
    return finish(prop, v, cov, REQUIRED)


def replay(a, tmp):
    env = toolenv()
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1"
    for name, binary in build(["wasm", "wasm_asan"]).items():
        print("== %s" % name, flush=True)
        try:
            rc = subprocess.run([binary, "work", "only=" + a["case"], "seed=" + a["seed"]], env=env, timeout=90).returncode
        except subprocess.TimeoutExpired:
            print("did not end within 90 s")
            rc = 1
        if rc:
            return 1
    return 0
