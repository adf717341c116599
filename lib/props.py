"""Per property: how many cases, on which builds, what counts, and which observations must not be missing."""

HIST = ("Randomised instruction histories against the real program in ten profiles (tight ladders, extreme amounts, large books, "
        "long histories, full sides, self-trades, realistic flow, nearly full queues, churn, markets of more than 2^16 orders or events), executed on host, production-arithmetic "
        "and on-chain-configuration builds; after every instruction the accounts' raw bytes are decoded independently and checked. ")

# counters that must be seen, or the run is void (exit 2)
def h(extra):
    return ["instructions", "fills", "outs", "orders_filled_in_beyond_16_bits", "steps_on_trees_deeper_than_55", "orders_meeting_over_100_makers"] + extra

P = {
    # id: (quick cases, thorough cases, rule, required counters)
    "C01": (180000, 6300000, HIST + "An evaluation is one event (fill or Out) produced by matching, compared with the order the price-time queue puts first; non-trivial when more than one order rested on that side; distinct by the pre-state and instruction signature.", h(["fills_with_equal_price_rival"])),
    "C02": (180000, 6300000, HIST + "An evaluation is one fill recomputed in 128-bit arithmetic; non-trivial when the quote needed rounding or the fill exhausted one of the two orders; distinct by pre-state and instruction signature.", h(["rounded_fills"])),
    "C03": (180000, 6300000, HIST + "An evaluation is one successful new order whose summary is recomputed from the events and the book; non-trivial when it traded or posted; distinct by pre-state and instruction signature.", h(["posts", "fill_and_post", "budget_exhausted_exactly"])),
    "C04": (180000, 6300000, HIST + "An evaluation is one successful instruction across which every order's ledger (posted = filled + resting + released) is balanced; non-trivial when a quantity moved; distinct by pre-state and instruction signature.", h(["cancel_resting", "mass_of_several"])),
    "C05": (210000, 7350000, HIST + "An evaluation is one successful instruction after which best bid < best ask is read off the decoded accounts; non-trivial when both sides hold orders after a new order; distinct by pre-state and instruction signature.", h(["one_tick_spreads", "self_trade_aborts", "outs_self_trade"])),
    "C06": (180000, 6300000, HIST + "An evaluation is one new order whose posting (or refusal by price) is compared with the rule; non-trivial when posting was allowed; distinct by pre-state and instruction signature.", h(["post_wanted", "remainder_below_minimum", "post_only_crossing", "price_refusals", "post_at_exact_minimum"])),
    "C07": (180000, 6300000, HIST + "An evaluation is one successful new order whose number of touched makers and reason to stop are checked; non-trivial when it touched a maker or one crossed; distinct by pre-state and instruction signature.", h(["stopped_by_budget", "stopped_by_match_limit", "stopped_by_zero_quote"])),
    "C08": (180000, 6300000, HIST + "An evaluation is one match, self-trade cancellation or abort; non-trivial when the order met carried the taker's id (or a behaviour other than decrement-take was asked); distinct by pre-state and instruction signature.", h(["self_trade_aborts", "outs_self_trade", "decrement_take_self_fills"])),
    "C09": (150000, 5250000, HIST + "An evaluation is one issued order id checked against all earlier ids of the market (markets are also fast-forwarded to high sequence numbers); all are non-trivial; distinct by pre-state and instruction signature.", h(["same_price_successors"])),
    "C10": (180000, 6300000, HIST + "An evaluation is one instruction across which the raw ring buffer is compared with the produced and consumed events (and read back through the crate's own queue API); non-trivial when it produced or consumed events; distinct by pre-state and instruction signature.", h(["consume_within_length", "consume_beyond_length", "queue_full_expected", "queue_exactly_filled", "queue_api_reads"])),
    "C11": (180000, 6300000, HIST + "An evaluation is one successful instruction whose removals are matched with its Out events; non-trivial when something was removed or announced; distinct by pre-state and instruction signature.", h(["outs_residue", "outs_residue_nonzero", "outs_self_trade", "outs_evicted"])),
    "C12": (180000, 6300000, HIST + "An evaluation is one cancel of a resting or any other id; all are non-trivial; distinct by pre-state and instruction signature.", h(["cancel_resting", "cancel_not_resting"])),
    "C13": (180000, 6300000, HIST + "An evaluation is one mass cancel (0 to many ids, also unknown, repeated and stale ones); all are non-trivial; distinct by pre-state and instruction signature.", h(["mass_all_resting", "mass_not_all_resting", "mass_of_several"])),
    "C14": (180000, 6300000, HIST + "An evaluation is one order that would be posted to a full side (or into its last slot); all are non-trivial; distinct by pre-state and instruction signature.", h(["evictions_expected", "full_side_refusals_expected", "full_side_with_tied_worst_price", "posts_into_last_slot"])),
    "C15": (120000, 3600000, HIST + "An evaluation is one successful instruction after which every query of the crate's own book API is compared with the decoded set of resting orders; non-trivial when at least two orders rest; distinct by pre-state and instruction signature.", h(["orders_looked_up", "absent_ids_looked_up"])),
    "C16": (180000, 6300000, HIST + "An evaluation is one successful instruction after which every resting order's and every new event's callback bytes are compared with what was submitted (callback types of 1 to 96 bytes); non-trivial when more than one order rests; distinct by pre-state and instruction signature.", h(["resting_callbacks_compared", "fill_callbacks_compared", "out_callbacks_compared"])),
    "C17": (80000, 2400000, "Evolved markets on which each instruction is run once unchanged (control) and once per substitution of an account (other market's, swapped, look-alike copies, other owner, wrong tag, uninitialised, closed). An evaluation is one substituted instruction that must fail; distinct by instruction, substitution and market state.", ["substitutions_tried", "control_new", "control_cancel", "control_mass", "control_consume", "control_close"]),
    "C18": (300000, 4500000, "Creation plans over parameters, sizes around every admissible bound, owners, balances, aliases and prior contents; an evaluation is one creation judged against the rule, or one re-creation on an account of an open or closed market; valid markets are filled to their capacity. Distinct by plan class, sizes, parameters and tags.", ["valid_creations", "invalid_creations", "created_and_filled", "recreations_of_open", "recreations_of_closed"]),
    "C19": (80000, 2400000, "Evolved markets in every state of drainage on which close is tried, followed by every instruction and by creation on each of the old accounts. An evaluation is one close or post-close sweep; distinct by the state's signature.", ["close_drained", "close_with_bids_only", "close_with_asks_only", "close_with_events_only", "close_with_orders_and_events", "instructions_after_close", "creations_after_close", "countdowns", "countdowns_through_16_bits"]),
    "C20": (180000, 5400000, "Instructions built by the crate's builders on evolved markets, executed through the dispatcher by account key, compared with the library function called with the same parameters on an identical copy. An evaluation is one built instruction executed (or one borsh size compared); distinct by instruction and state.", ["built_create", "built_new", "built_cancel", "built_mass", "built_consume", "built_close", "register_present", "register_absent", "register_with_posted_id", "borsh_sizes_compared", "built_on_large_markets"]),
    "C21": (80000, 1600000, "Capacities 1 to 5000 (some beyond 2^16) for bids, asks and events over callback types of 0 to 96 bytes (and the published sizes alone for capacities up to 2^40 and callback sizes up to 65537): accounts of the published sizes are created, filled to the bound in several insertion patterns with churn, and pushed over it. An evaluation is one triple of capacities; distinct by capacities and type.", ["capacities_filled", "orders_and_events_inserted", "capacities_beyond_16_bits", "large_sizes_compared", "callback_sizes_compared"]),
    "C22": (3900, 117000, "Prices and tick sizes from edge-heavy distributions and dense sweeps near 0 and 2^64, compared with 128-bit arithmetic; some results are submitted to markets of that tick. An evaluation is one (tick, price, side); distinct by value.", ["rounded", "already_on_tick", "not_representable", "accepted_by_a_market"]),
    "C23": (24000, 600000, "Half of the cases are the histories of C01-C16, half arbitrary and mutated instruction bytes and account lists on evolved markets, under AddressSanitizer, on a build with checked arithmetic, and on a production build whose outcomes must equal the checked build's. In every third state of the histories all queries of the book, the spread and the queue run under the sanitizer too. Account buffers lie between poisoned zones of 16 KiB. An evaluation is one instruction; non-trivial when it succeeded or was an arbitrary one; distinct by state and data.", ["states_queried", "arbitrary_succeeded", "arbitrary_failed", "arbitrary_aborted", "instructions", "fills"]),
    "C24": (28000, 700000, "Every history is executed in three separate processes: plainly; at other addresses and interleaved with another market's instructions; and on the build with the on-chain configuration. An evaluation is one history whose results and account bytes after every instruction are compared; distinct by digest.", ["instructions", "fills", "outs", "orders_filled_in_beyond_16_bits"]),
    "C29": (180000, 5400000, HIST + "An evaluation is one successful instruction across which the bytes of every account, the lamports and the owners are compared; non-trivial when something changed; distinct by pre-state and instruction signature. In every fourth state all queries are run between two snapshots.", h(["footprints_new", "footprints_cancel", "footprints_mass", "footprints_consume", "queries_between_snapshots"])),
    "C31": (120000, 3600000, "Half of the cases are the histories of C01-C16, whose refused orders and cancellations are judged by the model; half are evolved markets on which accounts, instruction data and creation plans are spoiled in one to three ways, next to an unspoiled control. An evaluation is one refused instruction whose error is compared with those of the rules it breaks; distinct by state, instruction and class of defect.",
            h(["refused_for_price", "refused_for_self_trade", "refused_for_full_queue", "refused_cancel_of_unknown_id", "refused_mass_of_unknown_id", "one_account_rule_broken", "several_account_rules_broken", "accounts_new", "accounts_cancel", "accounts_mass", "accounts_consume", "accounts_close", "closes_of_active_markets", "malformed_data", "missing_accounts", "creations_refused"])),
    "C30": (1000, 30000, "Instruction histories, a fifth of them on markets of more than 2^16 orders or events, executed on a build whose control-flow edges are counted by the compiler's instrumentation (bulk copies count by length, allocations by size). An evaluation is one instruction (or close attempt) whose count is compared with what it processed; non-trivial when more than 2^14 orders or events were there; distinct by pre-state and instruction signature. Queries are measured in every third state.",
            ["instructions", "edges_counted", "queries_measured", "measured_on_books_beyond_2_14", "measured_on_queues_beyond_2_14", "large_new", "large_cancel", "large_mass", "large_consume", "large_close", "large_create"]),
}

ASSUME = [
    "the runtime rolls back every account of a failed instruction (checked by C28)",
    "accounts reach the program 8-byte aligned, as the loader serialises them",
    "the independent byte-level decoder and the model in /verif/harness are right",
]
