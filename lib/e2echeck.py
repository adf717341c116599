"""C28: transactions executed by the real bank of solana-program-test against the library functions."""
import os, subprocess, time
from build import build, toolenv
from run import *
from props import ASSUME

RULE = ("Markets created, evolved, drained, closed and refunded by transactions of one to many instructions (good, failing, arbitrary, with exchanged accounts, with "
        "transfers) executed by the Solana bank, for the crate's own entrypoint and for an embedding program with other callback types. An evaluation is one "
        "transaction after which every account's bytes, balance and owner are compared with the library functions' effect on a shadow copy; distinct by state, instructions and result.")
REQUIRED = ["transactions_succeeded", "transactions_failed", "failed_after_successful_instructions", "embedded_program_transactions", "registers_compared", "closed_accounts_refunded",
            "executed_new", "executed_cancel", "executed_mass", "executed_consume", "executed_close", "executed_create"]


def check(prop, seed, tier, tmp):
    from check import finish
    t0 = time.time()
    b = build(["e2e"])
    built = time.time() - t0
    cases = int((10000 if tier == "quick" else 400000) * float(os.environ.get("VERIF_SCALE", "1")))
    ws = []
    for i in range(8):
        args = dict(seed=seed, cases=cases, shard=i, nshards=8, secs=150 if tier == "quick" else 700, replays=REPLAYS)
        ws.append(Worker("e2e-%d" % i, b["e2e"], args, tmp))
    v = run_workers(prop, seed, tier, ws, tmp)
    distinct = union(b["e2e"], ws)
    cov = {
        "evaluations": v.evals, "distinct_nontrivial": distinct, "rule": RULE, "samples": v.samples[:3] or ["none"], "cases": v.cases,
        "cases_by_build": v.by_variant, "observed": v.counts, "time_capped": v.capped, "build_s": round(built, 1),
    }
    if v.unattributed:
        cov["cases_lost_to_crashes_of_other_properties"] = v.unattributed[:5]
    write_evidence(prop, tier, seed, cov, time.time() - t0, len(v.viols), ASSUME[1:] + ["the program runs as a native builtin of the bank, not as SBF byte code"])
    return finish(prop, v, cov, REQUIRED)


def replay(a, tmp):
    binary = build(["e2e"])["e2e"]
    try:
        return subprocess.run([binary, "work", "only=" + a["case"], "seed=" + a["seed"]], env=toolenv(), timeout=120).returncode
    except subprocess.TimeoutExpired:
        print("did not end within 120 s")
        return 1
