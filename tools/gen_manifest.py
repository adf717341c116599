#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE_H = ("Randomised exploration with online oracles over decoded account bytes, on three builds; assurance is bounded by the histories "
          "sampled (counts in the evidence file). Trusts the independent decoder and model in harness/, and that the runtime rolls back failed instructions (C28).")
tech = {}
for i in range(1, 17):
    tech["C%02d" % i] = ("runtime monitoring: online trace-specification monitor over randomised instruction histories", NOTE_H)
tech["C04"] = ("runtime monitoring: conservation ledger over randomised instruction histories", NOTE_H)
tech["C10"] = ("runtime monitoring: exactly-once FIFO checker over the event log of randomised histories", NOTE_H)
tech["C17"] = ("runtime monitoring under hostile account substitution, with paired controls", "Every substitution class is tried on evolved markets with an unchanged control run; bounded by the states sampled. Trusts rollback of failed instructions (C28).")
tech["C18"] = ("runtime monitoring of randomised creation plans against a rule oracle", "Parameters, sizes, owners, balances, aliases and prior contents are sampled around every bound; created markets are filled to capacity. The host's rent parameters stand for the chain's.")
tech["C19"] = ("runtime monitoring of close and of everything after it on evolved markets", "Sampled market states in every combination of drained and undrained; every instruction and creation tried after close.")
tech["C20"] = ("differential runtime monitoring: builder and dispatcher against the library functions", "Sampled parameters and states; compares results, account bytes, declared writability and the register.")
tech["C21"] = ("runtime monitoring: fill-to-capacity workloads on accounts of the published sizes", "Capacities up to 5000 (a few beyond 2^16) and callback types of 1 to 96 bytes are sampled.")
tech["C22"] = ("runtime monitoring against 128-bit reference arithmetic", "Edge-heavy sampling of (tick, price, side), tens of millions of triples per run; not exhaustive.")
tech["C23"] = ("AddressSanitizer, overflow-checked and production builds compared under hostile instruction fuzzing, with watchdog", "Sampled hostile instructions and histories. ASan sees accesses outside an account's own buffer; a read inside the same account is only seen through its effect on results.")
tech["C24"] = ("differential runtime monitoring across processes, addresses, interleavings and build configurations", "Each history is run three times and compared byte by byte after every instruction. The on-chain configuration is compiled for the host CPU, not run as SBF byte code.")
tech["C25"] = ("runtime monitoring: the TypeScript readers executed on states recorded from the program", "Recorded states of sampled histories; third-party client libraries are replaced by small stand-ins (DESIGN.md).")
tech["C26"] = ("runtime monitoring: TypeScript-built instruction data executed by the real program", "Sampled parameters; third-party client libraries are replaced by small stand-ins (DESIGN.md).")
tech["C27"] = ("runtime monitoring of the wasm reader, natively and under AddressSanitizer, against a sorted-map oracle", "Random trees in the layout the reader declares, run as native code.")
tech["C28"] = ("runtime monitoring under the real Solana runtime (solana-program-test), differential against the library", "Sampled transactions executed by the real bank; the program runs as a native builtin rather than as SBF byte code.")
tech["C29"] = ("runtime monitoring: footprint monitor over account bytes, balances and owners around every instruction and query", NOTE_H)
tech["C30"] = ("runtime monitoring: compiler edge counters and an allocation counter around every instruction and query", "Work is counted in control-flow edges of the host build and compared with a bound some fifteen times what is measured; markets of up to 2^17 orders and 2^18 events. It decides growth with the market's size, not the cost on chain in compute units.")
tech["C31"] = ("runtime monitoring: error codes of refused instructions against the rules broken, with paired controls", "Sampled states, account defects, malformed data and creation plans. When an instruction breaks several rules any of their errors is accepted.")
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = set(tech)
for p, d in (("C25", "ts"), ("C26", "ts"), ("C27", "wasmchk"), ("C28", "e2e")):
    if not os.path.isdir(os.path.join(V, d)):
        have.discard(p)
        NA[p] = "check not built yet"
m = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": [
        {
            "property": p, "quick_cmd": "bin/check %s" % p, "thorough_cmd": "bin/check %s thorough" % p,
            "technique": tech[p][0], "level": "exploration", "level_note": tech[p][1],
        } for p in ids if p in have
    ],
    "not_applicable": [{"property": p, "reason": NA[p]} for p in ids if p not in have],
    "notes": "No hooks are needed in /repo: all observations are made on account bytes, results and the crate's public API.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
