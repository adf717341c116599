"""C25 and C26: the TypeScript client of the working tree, executed by node on what the real program produced or judges."""
import json, os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from build import build, BuildError, VERIF, REPO, toolenv
from run import Verdict, write_evidence, REPLAYS, cpu_of
from props import ASSUME

ESBUILD = "/opt/veriftools/node/node_modules/.bin/esbuild"


def bundle(tmp):
    out = os.path.join(tmp, "client.js")
    st = os.path.join(VERIF, "ts/stubs")
    r = subprocess.run(
        [ESBUILD, os.path.join(VERIF, "ts/main.js"), "--bundle", "--platform=node", "--format=cjs", "--outfile=" + out, "--log-level=error",
         "--tsconfig-raw={}", "--alias:bn.js=%s/bn.js" % st, "--alias:borsh=%s/borsh.js" % st, "--alias:@solana/web3.js=%s/web3.js" % st,
         "--alias:aob=%s/js/src" % REPO],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("bundling the client failed:\n" + r.stdout[-4000:])
    return out


def node(js, args, tmp, limit=40.0):
    """Runs the bundle; returns (messages, id of the state at which it hung or died, note)."""
    p = subprocess.Popen(["node", "--max-old-space-size=1500", js] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, bufsize=1)
    msgs, at = [], None
    import select
    os.set_blocking(p.stdout.fileno(), False)
    buf, last, cpu0, note = "", time.time(), 0.0, None
    while True:
        r, _, _ = select.select([p.stdout], [], [], 1.0)
        if r:
            b = os.read(p.stdout.fileno(), 1 << 16).decode("utf8", "replace")
            if not b:
                break
            buf += b
            last, cpu0 = time.time(), cpu_of(p.pid)
            *lines, buf = buf.split("\n")
            for l in lines:
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m["t"] == "at":
                    at = m["id"]
                else:
                    msgs.append(m)
        elif cpu_of(p.pid) - cpu0 > limit and time.time() - last > limit:
            note = "the client did not come back within %d s of processor time" % limit
            p.kill()
            break
    err = ""
    try:
        _, err = p.communicate(timeout=10)
    except Exception:
        p.kill()
    if note is None and p.returncode != 0:
        note = "the client died (exit %s): %s" % (p.returncode, (err or "")[-600:])
    return msgs, at, note


HUGE = str(1 << 40)


def shard_read(binary, js, tmp, seed, cases, only=None):
    f = os.path.join(tmp, "states-%d.jsonl" % seed)
    # two shards' last states have more than 65536 orders on a side
    huge = seed % 4 == 3 if not only else str(only).startswith(HUGE)
    cmd = [binary, "dump", "out=" + f, "seed=%d" % seed, "cases=%d" % cases, "huge=%d" % huge]
    if only:
        cmd.append("only=" + only)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=toolenv())
    if r.returncode != 0:
        raise BuildError("recording states failed: " + r.stderr[-2000:])
    stats = json.loads(r.stdout.splitlines()[-1])
    msgs, at, note = node(js, ["read", f], tmp)
    os.remove(f)
    return stats, msgs, at, note


def shard_build(binary, js, tmp, seed, cases, only=None):
    f = os.path.join(tmp, "ops-%d.jsonl" % seed)
    g = os.path.join(tmp, "built-%d.jsonl" % seed)
    cmd = [binary, "dump", "what=ops", "out=" + f, "seed=%d" % seed, "cases=%d" % cases]
    if only:
        cmd.append("only=" + only)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=toolenv())
    if r.returncode != 0:
        raise BuildError("recording operations failed: " + r.stderr[-2000:])
    msgs, at, note = node(js, ["build", f, g], tmp)
    stats = {}
    if note is None:
        d = subprocess.run([binary, "decode", "in=" + g, "seed=%d" % seed], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=toolenv())
        if d.returncode != 0:
            raise BuildError("judging the instruction data failed: " + d.stderr[-2000:])
        for l in d.stdout.splitlines():
            m = json.loads(l)
            if m["t"] == "viol":
                msgs.append({"t": "viol", "id": str(m["case"]), "msg": m["msg"]})
            else:
                stats = m
    sample = open(f).readline()[:1500] if os.path.exists(f) else ""
    for x in (f, g):
        if os.path.exists(x):
            os.remove(x)
    return dict(stats, sample=sample), msgs, at, note


RULE = {
    "C25": "States of evolved markets (all callback types, spare bytes, wrapped queues, advanced sequence numbers, sides of more than 65536 orders) recorded from the program and given to the client's readers: parsing, iteration both ways, lookups of every resting and of near-miss ids, top-n, depth, events, fills. An evaluation is one state read completely; non-trivial when it holds an order or event; distinct by account bytes.",
    "C26": "Operations (applicable to an evolved market, and with extreme parameters) are given to the client's instruction classes; the data is decoded by the program's parameter types, dispatched by the program on a copy of the market and compared with the library call; createMarket's accounts are created and filled to the capacities asked for. An evaluation is one instruction; distinct by data and market.",
}


def check(prop, seed, tier, tmp):
    t0 = time.time()
    binary = build(["chk"])["chk"]
    js = bundle(tmp)
    built = time.time() - t0
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    rounds = 1 if tier == "quick" else 40
    cases = int((1100 if prop == "C25" else 5000) * scale)
    f = shard_read if prop == "C25" else shard_build
    counts, viols, samples, evals, distinct = {}, [], [], 0, 0
    done = 0
    for rnd in range(rounds):
        if time.time() - t0 > 700:
            break
        seeds = [seed * 100003 + rnd * 8 + i for i in range(8)]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda s: f(binary, js, tmp, s, cases), seeds))
        done += 1
        for s, (stats, msgs, at, note) in zip(seeds, res):
            for m in msgs:
                if m["t"] == "viol":
                    viols.append((s, m["id"], m["msg"]))
                elif m["t"] == "done":
                    for k, n in m.get("counts", {}).items():
                        counts[k] = counts.get(k, 0) + n
                    if m.get("sample"):
                        samples.append(m["sample"])
            if note:
                viols.append((s, at, note))
            for k, n in stats.items():
                if k == "counts":
                    for kk, nn in n.items():
                        counts[kk] = counts.get(kk, 0) + nn
                elif k == "sample":
                    samples.append(n)
                elif isinstance(n, int):
                    counts[k] = counts.get(k, 0) + n
        if viols:
            break
    if prop == "C25":
        evals, distinct = counts.get("states", 0) // 2, counts.get("distinct", 0)
        counts["states"] = evals
        required = ["states", "lookups", "absent_lookups", "depth_queries", "sides_with_shared_levels", "events", "wrapped_queues", "states_with_both_sides", "accounts_with_spare_bytes", "states_beyond_16_bits"]
    else:
        evals, distinct = counts.get("evals", 0), counts.get("distinct", 0)
        required = ["create", "new", "cancel", "mass", "consume", "close", "setup", "setup_beyond_16_bits", "executed_successfully", "executed_and_failed"]
    cov = {"evaluations": evals, "distinct_nontrivial": distinct, "rule": RULE[prop], "samples": samples[:2] or ["none"], "observed": counts,
           "cases": done * 8 * cases, "build_s": round(built, 1)}
    write_evidence(prop, tier, seed, cov, time.time() - t0, len(viols),
                   ASSUME + ["bn.js, borsh-js and @solana/web3.js behave as the stand-ins in /verif/ts/stubs"])
    from check import sift
    viols = [x[1] for x in sift(prop, [(m, (s, i, m)) for s, i, m in viols])]
    if viols:
        s, i, msg = viols[0]
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-ts-%d-%s.txt" % (prop, s, i))
        with open(path, "w") as fh:
            fh.write("# property %s: %s\n" % (prop, " ".join(str(msg).split())[:1500]))
            fh.write("ts prop=%s seed=%d cases=%d only=%s\n" % (prop, s, cases, i))
        print("%s violated: %s" % (prop, msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    missing = [r for r in required if not counts.get(r)]
    if missing:
        print("%s: no verdict, the run did not observe: %s" % (prop, ", ".join(missing)))
        return 2
    print("%s held on %d evaluations (%d distinct non-trivial)" % (prop, evals, distinct))
    return 0


def replay(a, tmp):
    binary = build(["chk"])["chk"]
    js = bundle(tmp)
    f = shard_read if a["prop"] == "C25" else shard_build
    _, msgs, at, note = f(binary, js, tmp, int(a["seed"]), int(a["cases"]), a["only"])
    bad = [m["msg"] for m in msgs if m["t"] == "viol"] + ([note] if note else [])
    for m in bad:
        print("violated: %s" % m)
    return 1 if bad else 0
